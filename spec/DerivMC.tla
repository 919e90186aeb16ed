------------------------------ MODULE DerivMC -------------------------------
(* The five-point rule is exact for polynomials up to degree four, and tells a wrong slope apart. *)
EXTENDS Deriv
VARIABLES c, x
vars == <<c, x>>
P(k, y) == k[1] + k[2]*y + k[3]*y*y + k[4]*y*y*y + k[5]*y*y*y*y
D(k, y) == k[2] + 2*k[3]*y + 3*k[4]*y*y + 4*k[5]*y*y*y
Init == c \in [1..5 -> -2..2] /\ x = -3
Next == x < 3 /\ x' = x + 1 /\ c' = c
Exact == FivePoint(P(c, x-2), P(c, x-1), P(c, x+1), P(c, x+2)) = 12 * D(c, x)
Discerns == \A d \in {D(c, x) - 400, D(c, x) + 400} : ~Agrees(P(c, x-2), P(c, x-1), P(c, x+1), P(c, x+2), d, 12)
Accepts == Agrees(P(c, x-2), P(c, x-1), P(c, x+1), P(c, x+2), D(c, x), 12)
Spec == Init /\ [][Next]_vars
=============================================================================
