----------------------------- MODULE ReduceTrace -----------------------------
(* Validates reductions reported by every process. *)
EXTENDS Reduce, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES ti, l, bad
vars == <<ti, l, bad>>
T == Traces[ti]
E == T.ev[l]
Init == ti \in 1..Len(Traces) /\ l = 1 /\ bad = {}
F(p, msg) == IF p THEN {} ELSE {msg}
\* every process reports the same, expected value
Each(x, tol) == \A r \in DOMAIN E.got : Near(E.got[r], x, tol)
Re == TLCEval([i \in DOMAIN Flat(E.parts) |-> Flat(E.parts)[i][1]])
Size == Len(Flat(E.parts))
Next == /\ bad = {} /\ l <= Len(T.ev) /\ l' = l + 1 /\ ti' = ti
        /\ bad' = CASE E.op = "min" -> F(Each(Min(Re), E.tol), "minimum")
                    [] E.op = "max" -> F(Each(Max(Re), E.tol), "maximum")
                    [] E.op = "mean" -> F(Each(Sum(Re), E.tol), "mean")                \* mean times size
                    [] E.op = "norm" -> F(Each(NormSum(Flat(E.parts), E.order), 0), <<"norm of order", E.order>>)
                    [] E.op = "maxnorm" -> F(Each(MaxSquare(Flat(E.parts)), 0), "maximum norm")
                    [] E.op = "integral" -> F(Each(Integral(T.geo, E.terms), Len(E.terms) + 1), "integral")
                    [] E.op = "average" -> F(\A r \in DOMAIN E.got : LET v == Volume(T.geo) IN
                                               Near((E.got[r] * v[1]) \div v[2], Integral(T.geo, E.terms), Len(E.terms) + 2 + (v[1] \div v[2])), "average")
                    \* square of the L2 norm over all components, times the volume when normalized
                    [] E.op = "l2" -> F(LET x == Sum([c \in DOMAIN E.comps |-> Integral(T.geo, Square(E.comps[c]))]) tol == E.tol IN
                                            IF E.normalize THEN LET v == Volume(T.geo) IN \A r \in DOMAIN E.got : Near((E.got[r] * v[1]) \div v[2], x, tol)
                                                           ELSE Each(x, tol), "L2 norm")
                    [] E.op = "unit" -> F(Each(1000000, 5), "normalized field")
                    [] E.op = "time" -> F(Each(E.val, 0), "initial time")
Conforms == bad = {}
Spec == Init /\ [][Next]_vars
=============================================================================
