---------------------------- MODULE FieldStateMC ----------------------------
(* Design check: any sequence of moves and writes on one field over a small domain.             *)
EXTENDS FieldState, TLC
CONSTANTS Scales, MaxOps
VARIABLES f, written, minsc, n
vars == <<f, written, minsc, n>>
Ax == <<[kind |-> "RF", n |-> 4], [kind |-> "J", n |-> 3]>>
Flags == <<<<FALSE, FALSE>>, <<FALSE, TRUE>>, <<TRUE, TRUE>>>>
Cfg == [axes |-> Ax, z |-> 1, N |-> 12, flags |-> Flags]
\* one distinct non-zero amplitude per valid mode (position 1 of RF is the null sine)
Full == [p \in 1..12 |-> IF p \in 4..6 THEN 0 ELSE p]
Scs == {<<<<a, 2>>, <<b, 2>>>> : a \in Scales, b \in Scales}
Init == f = NewField(Cfg) /\ written = f.c /\ minsc = <<<<9, 1>>, <<9, 1>>>> /\ n = 0
Le(s, t) == s[1] * t[2] <= t[1] * s[2]
MinSc(s, t, G) == [a \in 1..2 |-> IF a \notin G \/ Le(s[a], t[a]) THEN s[a] ELSE t[a]]
Write == \E lay \in 1..3, sc \in Scs : LET g == Wrote(Cfg, f, Full, lay, sc) IN
            f' = Seen(g, g.c) /\ written' = Full /\ minsc' = MinSc(<<<<9, 1>>, <<9, 1>>>>, sc, Grid(Cfg, lay)) /\ n' = n + 1
Move == \E lay \in 1..3, sc \in Scs :
          LET g == Moved(Cfg, f, lay, sc) hid == LostAt(Cfg, 12, lay, sc) IN
          \E keepmay \in BOOLEAN : LET o == Without(g.c, IF keepmay THEN hid ELSE g.may) IN
            f' = Seen(g, o) /\ Assert(Shows(Cfg, g, o), "not shown") /\ minsc' = MinSc(minsc, sc, Grid(Cfg, lay)) /\ n' = n + 1 /\ UNCHANGED written
Next == n < MaxOps /\ (Write \/ Move)
Spec == Init /\ [][Next]_vars
\* nothing but modes below the smallest grid visited is ever lost, and nothing is ever invented
Kept == \A p \in 1..12 : f.c[p] = written[p] \/ f.c[p] = 0
NoLoss == \A p \in 1..12 : p \notin Lost(Ax, 1, 12, {1, 2}, minsc) => f.c[p] = written[p]
=============================================================================
