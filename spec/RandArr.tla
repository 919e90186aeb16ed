------------------------------ MODULE RandArr -------------------------------
(* Seeded random arrays: element g of an array of a given shape is draw number Flat(g, shape) of  *)
(* the seeded stream, however the element is asked for.  Observed values are identified by the     *)
(* harness with their position in the stream (-1: not a value of the stream).                      *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE FlatFrom(_, _, _)
FlatFrom(g, shape, acc) == IF g = <<>> THEN acc ELSE FlatFrom(Tail(g), Tail(shape), acc * Head(shape) + Head(g))
Flat(g, shape) == FlatFrom(g, shape, 0)
\* the draws of a box, in row-major order: index lists per axis
RECURSIVE DrawsFrom(_, _, _)
RECURSIVE Cat(_, _)
Cat(f, n) == IF n = 0 THEN <<>> ELSE Cat(f, n - 1) \o f[n]
DrawsFrom(lists, shape, acc) ==
    IF lists = <<>> THEN <<acc>>
    ELSE Cat([i \in 1..Len(Head(lists)) |-> DrawsFrom(Tail(lists), Tail(shape), acc * Head(shape) + Head(lists)[i])], Len(Head(lists)))
Draws(lists, shape) == DrawsFrom(lists, shape, 0)
Upto(n) == [i \in 1..n |-> i - 1]
\* a slice start:stop:step (already resolved against the extent)
SliceList(s) == LET n == IF s[3] > 0 THEN (IF s[2] > s[1] THEN (s[2] - s[1] + s[3] - 1) \div s[3] ELSE 0)
                                   ELSE (IF s[1] > s[2] THEN (s[1] - s[2] - s[3] - 1) \div (-s[3]) ELSE 0)
                IN [i \in 1..n |-> s[1] + (i - 1) * s[3]]
\* resolution of a slice with absent parts (None = 999) against an extent, as Python's slice.indices
Norm(x, n, lo, hi, dflt) == IF x = 999 THEN dflt ELSE LET y == IF x < 0 THEN x + n ELSE x IN IF y < lo THEN lo ELSE IF y > hi THEN hi ELSE y
Resolve(s, n) == LET st == IF s[3] = 999 THEN 1 ELSE s[3]
                 IN IF st > 0 THEN <<Norm(s[1], n, 0, n, 0), Norm(s[2], n, 0, n, n), st>>
                    ELSE <<Norm(s[1], n, -1, n - 1, n - 1), Norm(s[2], n, -1, n - 1, -1), st>>
=============================================================================
