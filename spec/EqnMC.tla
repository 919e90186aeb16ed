-------------------------------- MODULE EqnMC ---------------------------------
(* Design check: expressions grown node by node; whatever Accept admits is assembled into parts that
   add up to the equation, and means a linear problem in the variables.                            *)
EXTENDS Eqn
CONSTANTS Depth, Text
VARIABLES S
G == [n |-> 1, nax |-> 1, per |-> <<FALSE>>, kap |-> <<1>>, lo |-> <<0>>, hi |-> <<1>>, cs |-> << <<1>> >>, hand |-> 1, crv |-> <<>>, crvax |-> {}, crvseq |-> <<>>,
      rax |-> 1, axis |-> <<1>>, surf |-> FALSE, Ri |-> 0, Ro |-> 0, rt |-> (0 :> 0)]
Pol(f, dom) == [f |-> "leaf", a |-> <<>>, p |-> <<>>, q |-> <<>>, t |-> [sig |-> <<>>, v |-> (<<>> :> [d |-> 1, c |-> f]), dom |-> <<dom>>, pi |-> 0, s |-> 0]]
U == Pol((<<1>> :> <<1, 0>> @@ <<0>> :> <<2, 0>>), TRUE)
P == Pol((<<1>> :> <<-1, 0>>), TRUE)
A == Pol((<<0>> :> <<3, 0>>), FALSE)
Init == S = <<U, P, A>>       \* 1: the variable, 2: a parameter, 3: time or the eigenvalue
V == {1}
K == Len(S)
Ops(i, j) == {Node0("neg", <<i>>, <<>>), Node0("d", <<i>>, <<1>>), Node0("pow", <<i>>, <<2>>), Node0("interp", <<i>>, <<1, 1, 1>>),
              Node0("add", <<i, j>>, <<>>), Node0("mul", <<i, j>>, <<>>), Node0("addnum", <<i>>, <<2>>)}
    \cup (IF Reach(S, i, V) THEN {Node0("dt", <<i>>, <<>>)} ELSE {})      \* time derivatives of the variables
Next == Len(S) < Depth /\ \E i, j \in 1..Len(S) : \E o \in Ops(i, j) : S' = Append(S, o)
Spec == Init /\ [][Next]_S
Same(X, Y) == X.sig = Y.sig /\ \A t \in DOMAIN X.v : PEq(X.v[t], Y.v[t])
ZeroT(X) == \A t \in DOMAIN X.v : IsZero(X.v[t])
Times(T, n) == ScaleT(T, n, 0, 1)
Rs == {[k |-> 0, num |-> 0], [k |-> 0, num |-> 2], [k |-> 2, num |-> 0], [k |-> 3, num |-> 0], [k |-> 1, num |-> 0]}
Ok(cls, r) == Accept(G, S, cls, K, r, V, 3)
At(T, k, ov) == Val(G, T, k, ov)
\* the left side is a linear function of the variables
Linear1 == \A cls \in {"IVP", "LBVP", "EVP"} : (\E r \in Rs : Ok(cls, r)) =>
    /\ Same(At(S, K, (1 :> Times(S[1].t, 3))), Times(At(S, K, NoV), 3))
    /\ ZeroT(At(S, K, (1 :> Zero(G, S[1].t))))
    /\ Same(At(S, K, (1 :> AddT(S[1].t, S[2].t))), AddT(At(S, K, NoV), At(S, K, (1 :> S[2].t))))
\* replacing every time derivative by multiplication with c
Dt(c) == [k \in 1..Len(S) |-> IF S[k].f = "dt" THEN Node0("scale", S[k].a, <<c, 0, 1>>) ELSE S[k]]
Parts(cls) == Append(Append(S, MassPart(cls, K, 3)), StiffPart(cls, K, 3))
\* M c + L is the left side with c for the time derivative or the eigenvalue
IVPParts == (\E r \in Rs : Ok("IVP", r)) => LET T == Parts("IVP") M == At(T, K+1, NoV) L == At(T, K+2, NoV) IN
    \A c \in {0, 1, 5} : Same(At(Dt(c), K, NoV), AddT(Times(M, c), L))
EVPParts == (\E r \in Rs : Ok("EVP", r)) => LET T == Parts("EVP") one == (3 :> [S[3].t EXCEPT !.v = (<<>> :> PConst(1, 1, 0, 1))])
      M == At(T, K+1, one) L == At(T, K+2, NoV) IN
    \A c \in {0, 1, 5} : Same(At(S, K, (3 :> [S[3].t EXCEPT !.v = (<<>> :> PConst(1, c, 0, 1))])), AddT(Times(M, c), L))
\* one class at a time: what distinguishes them
Classes == /\ (\E x \in Rs : Ok("IVP", x)) => ~Reach(S, K, {3})
    /\ ((\E x \in Rs : Ok("EVP", x)) => Ok("EVP", [k |-> 0, num |-> 0]))
    /\ (\A r \in Rs : Ok("EVP", r) => r = [k |-> 0, num |-> 0])
    /\ (\A r \in Rs : Ok("LBVP", r) => r.k # 1)
    /\ (\A r \in Rs : (Ok("LBVP", r) /\ ~Reach(S, K, {0, 3})) => Ok("IVP", r))
\* text: an equals sign counts when as many parentheses were opened as closed before it
Words == UNION {[1..n -> {"a", "(", ")", "="}] : n \in 0..Text}
Cnt(w, i, c) == Cardinality({j \in 1..i-1 : w[j] = c})
ASSUME \A w \in Words : TopEquals(w) = Cardinality({i \in DOMAIN w : w[i] = "=" /\ Cnt(w, i, "(") = Cnt(w, i, ")")})
ASSUME LET a == ("x" :> 1) b == ("x" :> 2 @@ "y" :> 3) IN Find(<<a, b>>, "x") = 1 /\ Find(<<b, a>>, "x") = 2 /\ Find(<<a, b>>, "y") = 3 /\ Find(<<a, b>>, "z") = 0
=============================================================================
