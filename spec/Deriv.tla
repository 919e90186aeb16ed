------------------------------- MODULE Deriv --------------------------------
(* Derivatives along a direction, against values of a function at five equally spaced points (numbers are multiples of a small unit). *)
EXTENDS Integers, Sequences
Abs(x) == IF x < 0 THEN -x ELSE x
\* twelve steps times the slope at the middle, from the values two and one steps before and one and two steps after
FivePoint(m2, m1, p1, p2) == 8 * (p1 - m1) - (p2 - m2)
\* a slope d (in units of u) agrees with the values: w twelve steps in units of the values over u
Agrees(m2, m1, p1, p2, d, w) == Abs(FivePoint(m2, m1, p1, p2) - w * d) <= w * (50 + Abs(d) \div 1000)
=============================================================================
