------------------------------ MODULE PencilsMC ------------------------------
(* The pencils of a small problem, claimed one group at a time in any order: every order ends with
   every valid element of every variable and equation claimed once, all pencils are square, and the
   groups that share a matrix have the same rows.                                                   *)
EXTENDS Pencils
Flat(d) == [dim |-> d, spin |-> [i \in 1..d |-> 0], reg |-> [i \in 1..d |-> 0]]
S2 == [dim |-> 2, spin |-> <<-1, 1>>, reg |-> <<0, 0>>]
S3 == [dim |-> 3, spin |-> <<-1, 1, 0>>, reg |-> <<-1, 1, 0>>]
A(k, n) == [k |-> k, n |-> n]
\* geometry: axes, tensor system, coupling, and whether the matrix of a group depends on it, per axis
Geos == {[ax |-> <<A("rf", 6), A("jac", 2)>>, cs |-> Flat(2), cp |-> <<FALSE, TRUE>>, dep |-> <<FALSE, FALSE>>, cond |-> 1],
         [ax |-> <<A("rf", 4), A("cf", 3)>>, cs |-> Flat(2), cp |-> <<FALSE, FALSE>>, dep |-> <<FALSE, FALSE>>, cond |-> 2],
         [ax |-> <<A("azr", 8), A("disk", 3)>>, cs |-> S2, cp |-> <<FALSE, TRUE>>, dep |-> <<TRUE, FALSE>>, cond |-> 1],
         [ax |-> <<A("azc", 5), A("annu", 2)>>, cs |-> S2, cp |-> <<FALSE, TRUE>>, dep |-> <<FALSE, FALSE>>, cond |-> 1],
         [ax |-> <<A("azr", 4), A("colat", 3)>>, cs |-> S2, cp |-> <<FALSE, TRUE>>, dep |-> <<TRUE, FALSE>>, cond |-> 1],
         [ax |-> <<A("azc", 4), A("colat", 3)>>, cs |-> S2, cp |-> <<FALSE, FALSE>>, dep |-> <<FALSE, TRUE>>, cond |-> 2],
         [ax |-> <<A("azr", 4), A("colat", 3), A("ball", 3)>>, cs |-> S3, cp |-> <<FALSE, FALSE, TRUE>>, dep |-> <<FALSE, TRUE, FALSE>>, cond |-> 2],
         [ax |-> <<A("azc", 3), A("colat", 3), A("shell", 2)>>, cs |-> S3, cp |-> <<FALSE, FALSE, TRUE>>, dep |-> <<FALSE, TRUE, FALSE>>, cond |-> 2]}
VARIABLES geo, rank, todo, claimed, twice
vars == <<geo, rank, todo, claimed, twice>>
V == [cs |-> [i \in 1..rank |-> geo.cs], ax |-> geo.ax]
Groups(W) == {[a \in DOMAIN geo.ax |-> IF geo.cp[a] THEN -1 ELSE e[2][a]] : e \in Valid(W)}
Scalar == [cs |-> <<>>, ax |-> geo.ax]
Init == geo \in Geos /\ rank \in 0..2 /\ todo = Groups(Scalar) \cup Groups(V) /\ claimed = {} /\ twice = FALSE
\* any order claims the same sets: take one
Next == todo # {} /\ LET g == CHOOSE h \in todo : TRUE  S == TLCEval(Members(Valid(V), g, geo.cp)) IN
    /\ todo' = todo \ {g} /\ twice' = (twice \/ S \cap claimed # {}) /\ claimed' = claimed \cup S
    /\ UNCHANGED <<geo, rank>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Once == ~twice
Ends == <>(todo = {} /\ claimed = Valid(V))
\* complementary conditions on one variable make square pencils; the condition never splits a pencil
Square == \A g \in todo : LET S == Members(Valid(V), g, geo.cp) IN
    \A op \in {"==", "!=", "<=", ">"}, k \in 0..2 : LET E == {e \in S : Holds([ax |-> geo.cond, op |-> op, k |-> k], e)} IN E = S \/ E = {}
\* groups that do not differ in the axes the matrix depends on (or in being zero) have the same rows
Shared == \A g, h \in todo :
    (\A a \in DOMAIN g : geo.cp[a] \/ ((geo.dep[a] => g[a] = h[a]) /\ ((g[a] = 0) <=> (h[a] = 0))))
    => {Profile(e, geo.cp) : e \in Members(Valid(V), g, geo.cp)} = {Profile(e, geo.cp) : e \in Members(Valid(V), h, geo.cp)}
=============================================================================
