------------------------------ MODULE Schedule ------------------------------
(* Cadences of analysis handlers.  Times are integers (ticks).  A handler is a record           *)
(*   [wall, sim, iter : Nat (0 = unset), cust : BOOLEAN]                                        *)
(* and its state a record of the last interval reached by each cadence.                         *)
(* An evaluation point is a record [iter, t, dt, wall, cust] with cust the answer of the        *)
(* user's criterion.  Everything is written as functions of (handler, state, point) so that     *)
(* the same operators drive the design model below and the trace specification.                 *)
EXTENDS Integers, Sequences, FiniteSets

AbsI(x) == IF x < 0 THEN -x ELSE x
\* nearest integer to a/b, ties to even (b > 0)
RoundHE(a, b) ==
    LET q == a \div b
        r == a - q * b
    IN IF 2 * r < b THEN q ELSE IF 2 * r > b THEN q + 1 ELSE IF q % 2 = 0 THEN q ELSE q + 1

Fresh == [wall |-> -1, sim |-> -1, iter |-> -1]

WallDue(h, s, p) == h.wall # 0 /\ p.wall \div h.wall > s.wall
IterDue(h, s, p) == h.iter # 0 /\ p.iter \div h.iter > s.iter
\* the output target nearest to the present time has not been served, and the next step
\* will not come (strictly) closer to it
SimDiv(h, p) == RoundHE(p.t, h.sim)
SimDue(h, s, p) == /\ h.sim # 0
                   /\ SimDiv(h, p) > s.sim
                   /\ LET T == SimDiv(h, p) * h.sim
                      IN AbsI(p.t - T) < AbsI(p.t + p.dt - T)
Due(h, s, p) == WallDue(h, s, p) \/ IterDue(h, s, p) \/ SimDue(h, s, p) \/ (h.cust /\ p.cust)
\* each cadence that fired records its own interval; the others keep theirs
After(h, s, p) == [wall |-> IF WallDue(h, s, p) THEN p.wall \div h.wall ELSE s.wall,
                   iter |-> IF IterDue(h, s, p) THEN p.iter \div h.iter ELSE s.iter,
                   sim  |-> IF SimDue(h, s, p) THEN SimDiv(h, p) ELSE s.sim]
=============================================================================
