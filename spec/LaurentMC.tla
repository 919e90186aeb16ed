------------------------------ MODULE LaurentMC -------------------------------
(* Design check of the algebra: ring laws, Leibniz rules, fundamental theorem, on all small functions. *)
EXTENDS Laurent, TLC
VARIABLES p, q
Coefs == {<<-1, 0>>, <<0, 1>>, <<2, -1>>}
Exps == {<<0, 0>>, <<1, 0>>, <<2, 1>>, <<0, -1>>}
Funs == {[d |-> d, c |-> f] : d \in {1, 3}, f \in UNION {[S -> Coefs] : S \in {T \in SUBSET Exps : Cardinality(T) <= 2}}}
Init == p \in Funs /\ q \in Funs
Next == UNCHANGED <<p, q>>
Commute == PEq(PMul(p, q), PMul(q, p)) /\ PEq(PAdd(p, q), PAdd(q, p))
Distribute == PEq(PMul(p, PAdd(p, q)), PAdd(PMul(p, p), PMul(p, q)))
Leibniz == /\ PEq(DPoly(PMul(p, q), 1), PAdd(PMul(DPoly(p, 1), q), PMul(p, DPoly(q, 1))))
           /\ PEq(DFour(PMul(p, q), 2, 3), PAdd(PMul(DFour(p, 2, 3), q), PMul(p, DFour(q, 2, 3))))
Fundamental == PEq(IntegPoly(DPoly(p, 1), 1, -1, 2), PSub(InterpPoly(p, 1, 2, 1), InterpPoly(p, 1, -1, 1)))
NoMean == IsZero(MeanFour(DFour(p, 2, 2), 2))
Hilbert == PEq(Hilb(Hilb(p, 2), 2), PSub(MeanFour(p, 2), p))
EvalHom == /\ PEq(InterpPoly(PMul(p, q), 1, 1, 2), PMul(InterpPoly(p, 1, 1, 2), InterpPoly(q, 1, 1, 2)))
           /\ PEq(InterpFour(PMul(p, q), 2, 3), PMul(InterpFour(p, 2, 3), InterpFour(q, 2, 3)))
Laws == Commute /\ Distribute /\ Leibniz /\ Fundamental /\ NoMean /\ Hilbert /\ EvalHom
Spec == Init /\ [][Next]_<<p, q>>
=============================================================================
