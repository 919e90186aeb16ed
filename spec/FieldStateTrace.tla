-------------------------- MODULE FieldStateTrace ---------------------------
EXTENDS FieldState, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES ti, l, st, bad
vars == <<ti, l, st, bad>>
T == Traces[ti]
E == T.ev[l]
K(f) == T.cfg.kinds[T.cfg.kindof[f]]
NF == Len(T.cfg.kindof)
Init == ti \in 1..Len(Traces) /\ l = 1 /\ bad = {}
        /\ st = [f \in 1..Len(Traces[ti].cfg.kindof) |-> NewField(Traces[ti].cfg.kinds[Traces[ti].cfg.kindof[f]])]
NL == Len(T.cfg.flags)
O(f) == E.obs[f]
\* layouts ordered from coefficient (1) to grid (NL)
FirstUp(lay, P(_)) == CHOOSE i \in lay..NL : P(i) /\ \A j \in lay..i-1 : ~P(j)
LastDown(lay, P(_)) == CHOOSE i \in 1..lay : P(i) /\ \A j \in i+1..lay : ~P(j)
Target(f) == LET x == st[f] IN
    CASE E.op = "layout" -> E.lay
      [] E.op = "towards_g" -> x.lay + 1
      [] E.op = "towards_c" -> x.lay - 1
      [] E.op = "require_g" -> LET P(i) == IF E.axis = 0 THEN \A a \in 1..Len(T.cfg.flags[i]) : T.cfg.flags[i][a] ELSE T.cfg.flags[i][E.axis] IN FirstUp(x.lay, P)
      [] E.op = "require_c" -> LET P(i) == IF E.axis = 0 THEN \A a \in 1..Len(T.cfg.flags[i]) : ~T.cfg.flags[i][a] ELSE ~T.cfg.flags[i][E.axis] IN LastDown(x.lay, P)
      [] E.op = "require_local" -> LET P(i) == T.cfg.locals[i][E.axis] IN
              IF T.cfg.flags[x.lay][E.axis] THEN LastDown(x.lay, P) ELSE FirstUp(x.lay, P)
      [] OTHER -> O(f).lay
Op(f) == LET x == st[f] IN
    CASE E.op \in {"layout", "towards_g", "towards_c", "require_g", "require_c", "require_local", "group"} -> Moved(K(f), x, IF E.op = "group" THEN E.lay ELSE Target(f), x.sc)
      [] E.op = "read" -> Moved(K(f), x, E.lay, E.sc)
      [] E.op = "scales" -> Moved(K(f), x, O(f).lay, E.sc)
      [] E.op = "write" -> Wrote(K(f), x, E.k, E.lay, E.sc)
      [] E.op = "load" -> [Wrote(K(f), x, E.k, E.lay, E.wsc) EXCEPT !.lay = O(f).lay, !.sc = E.sc]
      [] E.op = "gather" -> Moved(K(f), x, E.lay, x.sc)
      [] E.op = "low" -> [Moved(K(f), LowPassed(K(f), x, E.fsc), O(f).lay, x.sc) EXCEPT !.may = LostAt(K(f), K(f).N, O(f).lay, x.sc)]
      [] E.op = "high" -> [Moved(K(f), HighPassed(K(f), x, E.fsc), O(f).lay, x.sc) EXCEPT !.may = LostAt(K(f), K(f).N, O(f).lay, x.sc)]
      [] E.op = "copy" -> st[E.src]
      [] OTHER -> x
Touched(f) == IF E.op = "group" THEN \E i \in 1..Len(E.fs) : E.fs[i] = f ELSE f = E.f
New == [f \in 1..NF |-> IF Touched(f) THEN Op(f) ELSE st[f]]
Check(f) == LET n == New[f] o == O(f) IN
    (IF n.lay = o.lay THEN {} ELSE {<<"layout of field", f, "expected", n.lay, "got", o.lay>>})
    \cup (IF n.sc = o.sc THEN {} ELSE {<<"scales of field", f, "expected", n.sc, "got", o.sc>>})
    \cup (IF o.shape = Shape(K(f), o.lay, o.sc) THEN {} ELSE {<<"shape of field", f, "got", o.shape>>})
    \cup (IF o.exact /\ n.lay = o.lay /\ n.sc = o.sc /\ Shows(K(f), n, o.c) THEN {} ELSE {<<"value of field", f, "expected", n.c, "may drop", n.may, "got", o.c, "exact", o.exact>>})
Value == IF E.op # "gather" THEN {} ELSE
    IF E.exact /\ E.val = O(E.f).c /\ E.everywhere THEN {} ELSE {<<"gathered data", E.val, "field", O(E.f).c, "same on all receivers", E.everywhere>>}
Next == /\ bad = {} /\ l <= Len(T.ev)
        /\ bad' = UNION {Check(f) : f \in 1..NF} \cup Value
        /\ st' = [f \in 1..NF |-> IF bad' = {} THEN Seen(New[f], O(f).c) ELSE st[f]]
        /\ l' = l + 1 /\ ti' = ti
Conforms == bad = {}
Spec == Init /\ [][Next]_vars
=============================================================================
