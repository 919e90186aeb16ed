---------------------------- MODULE FieldState -----------------------------
(* A pool of fields over the same bases.  Each field has the amplitudes c of the function last   *)
(* written, its layout lay (index into cfg.flags, the axes on the grid in that layout) and its   *)
(* scales.  may: positions that passing through the current grid may have zeroed.                *)
EXTENDS Modal
Grid(cfg, lay) == {a \in 1..Len(cfg.axes) : cfg.flags[lay][a]}
LostAt(cfg, N, lay, sc) == Lost(cfg.axes, cfg.z, N, Grid(cfg, lay), sc)
Zero(cfg) == [p \in 1..cfg.N |-> 0]
NewField(cfg) == [c |-> Zero(cfg), lay |-> 1, sc |-> [a \in 1..Len(cfg.axes) |-> <<1, 1>>], may |-> {}]
\* what an observer of field f in its current layout may see: modes the grid cannot show are zero,
\* modes that passing through a grid may have dropped are unchanged or zero, all others unchanged
Shows(cfg, f, o) == LET hid == LostAt(cfg, cfg.N, f.lay, f.sc) IN
    /\ Len(o) = cfg.N
    /\ \A p \in 1..cfg.N : o[p] = f.c[p] \/ (o[p] = 0 /\ (p \in hid \/ p \in f.may))
    /\ \A p \in hid : o[p] = 0
\* after an observation o the field's function is what was seen
Seen(f, o) == [f EXCEPT !.c = o, !.may = {}]
\* changing layout or scales moves data onto the grids of the new layout only
Moved(cfg, f, lay, sc) == [f EXCEPT !.lay = lay, !.sc = sc, !.may = @ \cup LostAt(cfg, cfg.N, lay, sc)]
Wrote(cfg, f, k, lay, sc) == [f EXCEPT !.c = Without(k, LostAt(cfg, cfg.N, lay, sc)), !.lay = lay, !.sc = sc, !.may = {}]
\* low-pass filter: exactly the modes a grid of those scales represents; high-pass: the others
All(cfg) == 1..Len(cfg.axes)
LowPassed(cfg, f, s) == [f EXCEPT !.c = Without(@, Lost(cfg.axes, cfg.z, cfg.N, All(cfg), s))]
HighPassed(cfg, f, s) == LET low == Without(f.c, Lost(cfg.axes, cfg.z, cfg.N, All(cfg), s)) IN
    [f EXCEPT !.c = [p \in 1..cfg.N |-> f.c[p] - low[p]]]
Shape(cfg, lay, sc) == [a \in 1..Len(cfg.axes) |-> IF cfg.flags[lay][a] THEN GridSize(cfg.axes[a], sc[a]) ELSE cfg.axes[a].n]
=============================================================================
