------------------------------- MODULE EigenMC -------------------------------
(* For small systems: the predicted pairs solve the matrix problem, there are as many of them as the
   degree of det(L + lam M), and a solver whose parameter is reassigned reports the spectrum of the
   value its matrices were built with until they are rebuilt.                                         *)
EXTENDS Eigen
Shears == {<<<<1, 0>>, <<0, 1>>>>, <<<<1, 2>>, <<0, 1>>>>, <<<<1, 0>>, <<-1, 1>>>>, <<<<2, 1>>, <<1, 1>>>>}
Qs == {<<<<1, 2>>, <<0, 1>>>>, <<<<2, 1>>, <<1, 1>>>>}
Inv(A) == LET d == A[1][1]*A[2][2] - A[1][2]*A[2][1] IN <<<<d*A[2][2], -d*A[1][2]>>, <<-d*A[2][1], d*A[1][1]>>>>
VARIABLES Pb, par, built, last
vars == <<Pb, par, built, last>>
Groups == {0, 1}
Init == /\ Pb \in {[P |-> P, Q |-> Q, E |-> E, D |-> D, e |-> <<1, -2>>, f |-> <<0, 0>>, op |-> <<0, 0, 0>>,
                    geo |-> [kind |-> "cart", ax |-> <<[k |-> "f", n |-> 4, d |-> TRUE]>>]] :
              P \in Shears, Q \in Qs, E \in {<<1, 1>>, <<1, 0>>}, D \in {<<2, 9>>, <<-3, 5>>}}
        /\ par \in {0, 3} /\ built = [g \in Groups |-> -1] /\ last = <<>>
Solve(g, rebuild) == /\ built' = [built EXCEPT ![g] = IF rebuild \/ @ = -1 THEN par ELSE @]
                     /\ last' = <<g, Values(Spectrum(Pb, built'[g], <<g>>))>> /\ UNCHANGED <<Pb, par>>
Assign == par' \in {0, 3} /\ last' = <<>> /\ UNCHANGED <<Pb, built>>
Next == Assign \/ \E g \in Groups, r \in BOOLEAN : Solve(g, r)
Spec == Init /\ [][Next]_vars
M == Mul(Mul(Pb.P, Diag(Pb.E)), Pb.Q)
L(p, K) == Mul(Mul(Pb.P, Diag([i \in 1..2 |-> -(Pb.D[i] + p + Pb.e[i]*K)])), Pb.Q)
Det(A) == A[1][1]*A[2][2] - A[1][2]*A[2][1]
At(l, p, K) == [i \in 1..2 |-> [j \in 1..2 |-> l*M[i][j] + L(p, K)[i][j]]]
\* columns of the inverse of Q are right eigenvectors, rows of the inverse of P left ones
Pairs == \A g \in Groups, i \in {j \in 1..2 : Pb.E[j] = 1} :
    LET l == Pb.D[i] + par + Pb.e[i]*g*g  A == At(l, par, g*g)  x == Inv(Pb.Q)  y == Inv(Pb.P) IN
      /\ \A r \in 1..2 : A[r][1]*x[1][i] + A[r][2]*x[2][i] = 0
      /\ \A c \in 1..2 : y[i][1]*A[1][c] + y[i][2]*A[2][c] = 0
\* det(L + lam M) vanishes on integers exactly at the spectrum
Complete == \A g \in Groups, l \in -20..20 : (Det(At(l, par, g*g)) = 0) <=> \E s \in Spectrum(Pb, par, <<g>>) : s[1] = l
Remembers == last # <<>> => last[2] = Values(Spectrum(Pb, built[last[1]], <<last[1]>>))
=============================================================================
