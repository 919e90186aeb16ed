------------------------------ MODULE CalcTrace -------------------------------
(* Conformance: histories of real fields and operator expressions against Calc.  Each observation
   must be the exact function, tensor signature and domain of the register's current value. *)
EXTENDS Eqn, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES ti, l, S, bad
vars == <<ti, l, S, bad>>
T == Traces[ti]
E == T.ev[l]
Geo(c) == [n |-> c.n, nax |-> c.nax, per |-> c.per, kap |-> c.kap, lo |-> c.lo, hi |-> c.hi, cs |-> c.cs, hand |-> c.hand, crv |-> c.crv,
           crvax |-> {c.crvax[i] : i \in 1..Len(c.crvax)}, crvseq |-> c.crvax, rax |-> c.rax, axis |-> c.axis, surf |-> c.surf, Ri |-> c.Ri, Ro |-> c.Ro,
           rt |-> [s \in {c.rt[i][1] : i \in 1..Len(c.rt)} |-> LET i == CHOOSE j \in 1..Len(c.rt) : c.rt[j][1] = s IN c.rt[i][2]]]
G == Geo(T.cfg)
Tensor(e) == NFT(G, [sig |-> e.sig, v |-> FromSeq(G, e.sig, [i \in 1..Len(e.v) |-> Reduce(FromTerms(e.den, e.v[i]))]), dom |-> e.dom, pi |-> e.pi, s |-> e.s])
Init == ti \in 1..Len(Traces) /\ l = 1 /\ S = <<>> /\ bad = {}
Node(e) == [f |-> e.f, a |-> e.a, p |-> e.p, q |-> e.q]
Leaf(e) == [f |-> "leaf", a |-> <<>>, t |-> Tensor(e)]
\* a solver's new state: leaf values E.vals
NewS == [k \in 1..Len(S) |-> IF \E i \in 1..Len(E.vals) : E.vals[i].r = k THEN Leaf(E.vals[CHOOSE i \in 1..Len(E.vals) : E.vals[i].r = k]) ELSE S[k]]
Step == CASE E.op = "leaf" -> Append(S, Leaf(E))
          [] E.op = "set" -> [S EXCEPT ![E.r] = Leaf(E)]
          [] E.op = "def" -> Append(S, Node(E))
          [] E.op \in {"solve", "newton"} -> NewS
          [] OTHER -> S
SameV(A, B) == \A t \in DOMAIN A.v : PEq(A.v[t], B.v[t])
AllZero(A) == \A t \in DOMAIN A.v : IsZero(A.v[t])
Show(A) == [A EXCEPT !.v = [t \in DOMAIN A.v |-> <<A.v[t].d, A.v[t].c>>]]
Observe(o) == LET V == Val(G, S, o.r, <<>>) IN
    IF o.num   \* a plain number stands for the constant field with that value in every component
    THEN LET c == Reduce(FromTerms(o.den, o.v[1])) IN
         IF o.exact /\ \A t \in DOMAIN V.v : PEq(V.v[t], c) THEN {} ELSE {<<"register", o.r, "number", c, "expected", Show(V)>>}
    ELSE (IF V.sig = o.sig THEN {} ELSE {<<"register", o.r, "tensor signature", o.sig, "expected", V.sig>>})
    \cup (IF o.chk => V.dom = o.dom THEN {} ELSE {<<"register", o.r, "nonconstant axes", o.dom, "expected", V.dom>>})
    \cup (IF V.sig # o.sig THEN {} ELSE LET B == Tensor(o) IN
          IF o.exact /\ SameV(V, B) /\ (V.pi = B.pi \/ AllZero(V)) THEN {} ELSE {<<"register", o.r, "value", Show(B), "exact", o.exact, "expected", Show(V)>>})
Query == LET vs == {E.vars[i] : i \in 1..Len(E.vars)} IN
    CASE E.op = "has" -> IF E.res = Reach(S, E.r, vs) THEN {} ELSE {<<"has", E.r, vs, E.res>>}
      [] E.op = "fo" -> IF E.res = FirstOrder(S, E.r) THEN {} ELSE {<<"first order in dt", E.r, E.res>>}
      [] E.op = "lin" -> IF E.res = LinearIn(S, E.r, vs, E.aff) THEN {} ELSE {<<"linear", E.r, vs, "affine", E.aff, E.res, "degrees", Degrees(S, E.r, vs)>>}
\* a locked field moves step by step through permitted layouts, and stops before the first other one
RECURSIVE Walk(_, _, _)
Walk(at, to, allowed) == IF at = to THEN at ELSE LET nx == IF to > at THEN at + 1 ELSE at - 1 IN IF nx \in allowed THEN Walk(nx, to, allowed) ELSE at
Locked == LET w == Walk(E.frm, E.to, {E.allowed[i] : i \in 1..Len(E.allowed)}) IN
    IF E.res = (w = E.to) /\ E.now = w THEN {} ELSE {<<"locked field", E.frm, "to", E.to, "allowed", E.allowed, "went", E.res, E.now, "expected", w>>}
\* an equation: text and names readable, accepted exactly when well posed, its domain
Scopes == [i \in 1..Len(E.scopes) |-> [n \in {E.scopes[i][j][1] : j \in 1..Len(E.scopes[i])} |-> LET j == CHOOSE x \in 1..Len(E.scopes[i]) : E.scopes[i][x][1] = n IN E.scopes[i][j][2]]]
Readable == E.text = <<>> \/ (TopEquals(E.text) = 1 /\ \A i \in 1..Len(E.names) : Find(Scopes, E.names[i][1]) = E.names[i][2] /\ E.names[i][2] # 0)
Names == IF E.text = <<>> THEN {} ELSE   \* the driver resolved names as specified, or the text is to be refused
    {<<"name", E.names[i][1], "driver resolved to", E.names[i][2], "specified", Find(Scopes, E.names[i][1])>> : i \in {j \in 1..Len(E.names) : Find(Scopes, E.names[j][1]) # E.names[j][2]}}
Equation == LET vs == {E.vars[i] : i \in 1..Len(E.vars)} r == [k |-> E.rhs, num |-> E.num]
                ok == Readable /\ E.grammar /\ Accept(G, S, E.cls, E.lhs, r, vs, E.aux) IN
    Names \cup
    (IF E.res = ok \/ E.unsup THEN {} ELSE {<<"equation", E.lhs, r, E.cls, IF E.res THEN "accepted" ELSE "refused", "specified", ok, E.msg, "readable", Readable, "degrees", Degrees(S, E.lhs, vs)>>})
    \cup (IF E.kept THEN {} ELSE {<<"problem changed by a refused equation, or equation not appended">>})
    \cup (IF E.res /\ ok /\ E.dom # EqDom(G, S, E.lhs, r) THEN {<<"equation domain", E.dom, "expected", EqDom(G, S, E.lhs, r)>>} ELSE {})
Kept == \* the new values are functions of the kind of the variables
    {<<"variable", E.vals[i].r, "exact", E.vals[i].exact, "signature", E.vals[i].sig, "value", E.vals[i].v>> : i \in {j \in 1..Len(E.vals) : ~E.vals[j].exact \/ E.vals[j].sig # S[E.vals[j].r].t.sig}}
\* the state after solving a linear boundary value problem: every equation holds, every lifted field vanishes
Side(S1, k) == Val(G, S1, k, <<>>)
Holds(S1, q) == LET L == Side(S1, q[1]) IN
    IF q[2] = 0 THEN LET c == PConst(G.n, q[3], 0, 1) IN \A t \in DOMAIN L.v : PEq(L.v[t], c)
    ELSE LET R == Side(S1, q[2]) IN SameV(L, R) /\ (L.pi = R.pi \/ AllZero(L))
Solved == LET S1 == TLCEval(NewS) IN Kept
    \cup {<<"equation not satisfied by the solution", E.eqs[i]>> : i \in {j \in 1..Len(E.eqs) : ~Holds(S1, E.eqs[j])}}
    \cup {<<"lifted field not zero", k>> : k \in {E.taus[i] : i \in {j \in 1..Len(E.taus) : ~AllZero(Side(S1, E.taus[j]))}}}
\* a Newton iteration: the step solves the linearized equations, scaled by the damping E.damp
Newton == LET S1 == TLCEval(NewS) vs == {E.vals[i].r : i \in 1..Len(E.vals)}
              dx == TLCEval([k \in vs |-> AddT(S1[k].t, ScaleT(S[k].t, -1, 0, 1))]) IN Kept
    \cup {<<"Newton step", E.eqs[i], "residual", Show(Side(S, E.eqs[i][1])), "after", Show(Deriv(G, S, E.eqs[i][1], dx, <<>>))>> : i \in {j \in 1..Len(E.eqs) :
            ~SameV(Deriv(G, S, E.eqs[j][1], dx, <<>>), ScaleT(Side(S, E.eqs[j][1]), -E.damp[1], 0, E.damp[2]))}}
    \cup {<<"lifted field not zero", k>> : k \in {E.taus[i] : i \in {j \in 1..Len(E.taus) : ~AllZero(Side(S1, E.taus[j]))}}}
    \cup (IF E.iter = E.iter0 + 1 THEN {} ELSE {<<"iteration", E.iter0, E.iter>>})
Next == /\ bad = {} /\ l <= Len(T.ev)
        /\ bad' = CASE E.op = "err" -> {<<"unexpected exception while", E.what, E.type, E.msg, E.at>>}
                    [] E.op = "same" -> IF E.want = E.got THEN {} ELSE {<<E.what, "want", E.want, "got", E.got>>}
                    [] E.op = "lock" -> Locked
                    [] E.op = "eqn" -> Equation
                    [] E.op = "solve" -> Solved
                    [] E.op = "newton" -> Newton
                    [] E.op = "obs" -> UNION {Observe(E.o[i]) : i \in 1..Len(E.o)}
                    [] E.op \in {"has", "lin", "fo"} -> Query
                    [] OTHER -> {}
        /\ S' = Step /\ l' = l + 1 /\ ti' = ti
Conforms == bad = {}
Spec == Init /\ [][Next]_vars
=============================================================================
