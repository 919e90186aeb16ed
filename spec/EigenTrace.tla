----------------------------- MODULE EigenTrace ------------------------------
(* Validates recorded eigenvalue solves.  Eigenvalues come rounded to integers with their deviation in
   millionths; residuals and overlaps in millionths relative to the size of the vectors.              *)
EXTENDS Eigen, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES ti, l, par, built, cur, bad
vars == <<ti, l, par, built, cur, bad>>
T == Traces[ti]
E == T.ev[l]
F(p, msg) == IF p THEN {} ELSE {msg}
Init == ti \in 1..Len(Traces) /\ l = 1 /\ bad = {} /\ par = T.par /\ built = [s \in 1..T.nsp |-> -999] /\ cur = 0
\* every group solved with the subproblem's matrices
Spec1 == TLCEval(Spectrum(T.prob, built'[E.sp], E.groups[1]))
Same == \A g \in {E.groups[i] : i \in DOMAIN E.groups} :
          LET S == TLCEval(Spectrum(T.prob, built'[E.sp], g)) IN \A v \in Values(S) \cup Values(Spec1) : Mult(S, v[1], v[2]) = Mult(Spec1, v[1], v[2])
Solve == /\ built' = [built EXCEPT ![E.sp] = IF E.rebuild \/ @ = -999 THEN par ELSE @]
         /\ cur' = E.sp /\ par' = par
         /\ bad' = F(\A i \in DOMAIN E.vals : E.vals[i][3] <= T.tol, "an eigenvalue is not in the spectrum")
              \cup F(E.size = Size(T.prob, E.groups[1]), "size of the subproblem")
              \cup F(Same, "groups with different spectra share matrices")
              \cup (IF E.sparse THEN F(Nearest(Spec1, E.vals, E.n, E.target), "not the nearest eigenvalues")
                                ELSE F(Whole(Spec1, E.vals), "not the whole spectrum"))
              \cup F(\A i \in DOMAIN E.right : E.right[i] <= T.tol, "right eigenvectors")
              \cup F(\A i \in DOMAIN E.left : E.left[i] <= T.tol, "left eigenvectors")
              \cup F(\A i \in DOMAIN E.bi : \A j \in DOMAIN E.bi :
                       LET x == E.bi[i][j] IN IF i = j THEN Abs(x - 1000000) <= T.tol ELSE (E.vals[i] # E.vals[j] => Abs(x) <= T.tol), "left and right eigenvectors are not biorthonormal")
SetState == /\ UNCHANGED <<par, built, cur>>
            /\ bad' = F(E.nonzero, "the mode is zero") \cup F(\A i \in DOMAIN E.nz : E.nz[i] = E.group, "other groups are not zero")
                 \cup F((built[cur] = par /\ UpTo(TLCEval(Spectrum(T.prob, par, E.group)), E.val, T.cap)) => E.residual <= T.tol, "the equations do not hold") \cup F(E.lam <= T.tol, "eigenvalue field")
Assign == par' = E.par /\ bad' = {} /\ UNCHANGED <<built, cur>>
Next == /\ bad = {} /\ l <= Len(T.ev) /\ l' = l + 1 /\ ti' = ti
        /\ IF E.op = "solve" THEN Solve ELSE IF E.op = "set" THEN SetState ELSE Assign
Conforms == bad = {}
Spec == Init /\ [][Next]_vars
=============================================================================
