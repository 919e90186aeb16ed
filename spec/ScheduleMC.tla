----------------------------- MODULE ScheduleMC -----------------------------
(* Design model: one handler per cadence kind plus one with all, any run of a solver (positive  *)
(* steps, non-decreasing wall clock).  Checked exhaustively for small constants.                *)
EXTENDS Schedule
CONSTANTS MaxT, MaxIter, Dts, Walls, SimC, WallC, IterC
VARIABLES it, t, wall, st, fired, served, firedAt
vars == <<it, t, wall, st, fired, served, firedAt>>
H == <<[wall |-> 0, sim |-> SimC, iter |-> 0, cust |-> FALSE],
       [wall |-> WallC, sim |-> 0, iter |-> 0, cust |-> FALSE],
       [wall |-> 0, sim |-> 0, iter |-> IterC, cust |-> FALSE],
       [wall |-> WallC, sim |-> SimC, iter |-> IterC, cust |-> TRUE]>>
Init == it = 0 /\ t = 0 /\ wall = 0 /\ st = [i \in 1..4 |-> Fresh] /\ fired = [i \in 1..4 |-> FALSE]
        /\ served = <<>> /\ firedAt = -1
Step(dt, dw, c) ==
    LET p == [iter |-> it, t |-> t, dt |-> dt, wall |-> wall, cust |-> c] IN
    /\ fired' = [i \in 1..4 |-> Due(H[i], st[i], p)]
    /\ st' = [i \in 1..4 |-> After(H[i], st[i], p)]
    /\ served' = IF SimDue(H[1], st[1], p) THEN Append(served, SimDiv(H[1], p)) ELSE served
    /\ firedAt' = IF SimDue(H[1], st[1], p) THEN t ELSE firedAt
    /\ it' = it + 1 /\ t' = t + dt /\ wall' = wall + dw
Next == \E dt \in Dts, dw \in Walls, c \in BOOLEAN : Step(dt, dw, c)
Spec == Init /\ [][Next]_vars
Bound == t < MaxT /\ it < MaxIter
\* no interval is served twice, and with steps no larger than the cadence none is skipped
ServedOnce == \A i \in 1..(Len(served) - 1) : served[i] < served[i + 1]
SmallSteps == \A d \in Dts : 2 * d <= SimC
ServedAll == SmallSteps => \A i \in 1..Len(served) : served[i] = i - 1
\* an output is at most half a step away from its target
Near == firedAt >= 0 => LET T == served[Len(served)] * SimC IN \A d \in {CHOOSE x \in Dts : \A y \in Dts : x >= y} : 2 * AbsI(firedAt - T) <= d
IterExact == fired[3] <=> (it > 0 /\ (it - 1) % IterC = 0)
First == it = 1 => fired[1] /\ fired[2] /\ fired[3] /\ fired[4]
\* handler 4 fires whenever any single-cadence handler with the same cadence would fire afresh
Combined == (fired[3] \/ fired[2] \/ fired[1]) => fired[4]
=============================================================================
