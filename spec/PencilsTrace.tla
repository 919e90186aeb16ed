---------------------------- MODULE PencilsTrace -----------------------------
(* Validates what the subproblems of a solver gather and scatter: element numbers in place of data. *)
EXTENDS Pencils, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES ti, l, seen, eseen, bad
vars == <<ti, l, seen, eseen, bad>>
T == Traces[ti]
E == T.ev[l]
NV == Len(T.V)
NE == Len(T.E)
\* element and variable of a number
VarOf(id) == CHOOSE v \in 1..NV : id >= T.V[v].base /\ id < T.V[v].base + Len(T.V[v].el)
IsId(id) == \E v \in 1..NV : id >= T.V[v].base /\ id < T.V[v].base + Len(T.V[v].el)
El(v, id) == LET e == T.V[v].el[id - T.V[v].base + 1] IN <<e[1], e[2], e[3]>>
Masked(v, id) == T.V[v].el[id - T.V[v].base + 1][4]
Ids(v) == T.V[v].base..T.V[v].base + Len(T.V[v].el) - 1
ValidIds(v, S) == {i \in Ids(v) : ~Masked(v, i) /\ El(v, i) \in S}
F(p, msg) == IF p THEN {} ELSE {msg}

Init == ti \in 1..Len(Traces) /\ l = 0 /\ bad = {} /\ seen = {} /\ eseen = {}
\* the numbered elements are those of the bases, each once
Start == UNION {LET S == TLCEval(Valid(T.V[v])) U == TLCEval(ValidIds(v, S)) IN
            F({El(v, i) : i \in U} = S, <<"the modes are not those of the bases", v, S \ {El(v, i) : i \in U}>>)
            \cup F(Cardinality(U) = Cardinality(S), <<"a mode has two places", v>>) : v \in 1..NV}
Entries(M) == UNION {{M[i][j] : j \in DOMAIN M[i]} : i \in DOMAIN M}
Count(M) == IF Len(M) = 0 THEN 0 ELSE Len(M) * Len(M[1])
Pencil ==
    LET I == TLCEval(Entries(E.inp))  cp == T.coupled
        known == \A id \in I : IsId(id)
        outs == TLCEval(UNION {{<<E.owner[i], E.out[i][j]>> : j \in DOMAIN E.out[i]} : i \in DOMAIN E.out})
        okown == \A i \in DOMAIN E.owner : E.owner[i] \in 1..NE
    IN  F(known, "an entry is no element of a variable")
        \cup F(Len(E.inp) = Len(E.out), "not square")
        \cup F(okown, "a row belongs to no single equation")
        \cup (IF ~known \/ ~okown THEN {} ELSE
            F(Cardinality(I) = Count(E.inp), "an element appears twice in a subproblem")
            \cup F(I \cap seen = {}, "an element appears in two subproblems")
            \cup F(\A i \in DOMAIN E.inp : LET a == E.inp[i][1] v == VarOf(a) IN \A j \in DOMAIN E.inp[i] :
                    LET b == E.inp[i][j] IN /\ VarOf(b) = v /\ Profile(El(v, a), cp) = Profile(El(v, b), cp)
                                            /\ Belongs(T.V[v], El(v, b), E.cols[j], cp), "a row mixes degrees of freedom")
            \cup F(Cardinality(outs) = Count(E.out), "an equation element appears twice in a subproblem")
            \cup F(outs \cap eseen = {}, "an equation element appears in two subproblems")
            \cup F(\A i \in DOMAIN E.out : LET v == T.E[E.owner[i]].v IN
                    \A j \in DOMAIN E.out[i] : LET b == E.out[i][j] IN
                       /\ b \in Ids(v) /\ Profile(El(v, E.out[i][1]), cp) = Profile(El(v, b), cp)
                       /\ Belongs(T.V[v], El(v, b), E.cols[j], cp), "a row mixes equations")
            \cup F(E.lx = E.out, "the matrix does not map the variables to the equations"))
End == UNION {LET U == TLCEval(ValidIds(v, TLCEval(Valid(T.V[v])))) IN
            F({i \in seen : VarOf(i) = v} = U, <<"valid elements not covered, or others included", v, U \ seen, {i \in seen : VarOf(i) = v} \ U>>)
            \cup F(\A k \in DOMAIN E.vback[v] : LET p == E.vback[v][k] IN IF p[1] \in U THEN p[2] = p[1] ELSE p[2] \in {0, -7}, <<"scattering does not invert gathering", v>>)
            : v \in 1..NV}
       \cup UNION {LET v == T.E[e].v U == TLCEval(ValidIds(v, TLCEval(EqValid(T.V[v], T.E[e].cond)))) IN
            F({x[2] : x \in {y \in eseen : y[1] = e}} = U, <<"equation elements not covered, or others included", e>>)
            \cup F(\A k \in DOMAIN E.eback[e] : LET p == E.eback[e][k] IN IF p[1] \in U THEN p[2] = p[1] ELSE p[2] \in {0, -7}, <<"scattering outputs does not invert gathering", e>>)
            : e \in 1..NE}
Next == /\ bad = {} /\ l <= Len(T.ev)
        /\ IF l = 0 THEN bad' = Start /\ UNCHANGED <<seen, eseen>>
           ELSE IF E.op = "pencil"
           THEN /\ bad' = Pencil
                /\ seen' = TLCEval(seen \cup Entries(E.inp))
                /\ eseen' = TLCEval(eseen \cup UNION {{<<E.owner[i], E.out[i][j]>> : j \in DOMAIN E.out[i]} : i \in DOMAIN E.out})
           ELSE bad' = End /\ UNCHANGED <<seen, eseen>>
        /\ l' = l + 1 /\ ti' = ti
Conforms == bad = {}
Spec == Init /\ [][Next]_vars
=============================================================================
