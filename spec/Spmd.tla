-------------------------------- MODULE Spmd ---------------------------------
(* Processes that each hold the groups of modes a mesh gives them, and solve a problem together.
   Local work needs no one; reductions, gathers of coefficients and transposes need everyone.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Ceil(a, b) == (a + b - 1) \div b
\* block distribution of G groups (from 0) over P processes (from 0): a process may be left with none
Owner(G, P, g) == g \div Ceil(G, P)
Groups(G, P, r) == {g \in 0..(G - 1) : Owner(G, P, g) = r}
Near(x, y, tol) == LET d == IF x < y THEN y - x ELSE x - y m == IF x < 0 THEN -x ELSE x IN d <= tol + m \div 1000000
=============================================================================
