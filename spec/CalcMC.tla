------------------------------- MODULE CalcMC --------------------------------
(* Design check of the calculus: expression stores grown node by node over small leaves, on the
   disk, the ball and the sphere; theorems of vector calculus and of the symbolic transformations. *)
EXTENDS Calc
CONSTANTS Depth, Few
VARIABLES g, S, X    \* X: the value of the last register
Base(n, surf, R) == [n |-> n, nax |-> n, per |-> [a \in 1..n |-> FALSE], kap |-> [a \in 1..n |-> 1], lo |-> [a \in 1..n |-> 0], hi |-> [a \in 1..n |-> 1],
    cs |-> << [a \in 1..n |-> a] >>, hand |-> 1, crv |-> [a \in 1..n |-> a], crvax |-> 1..n, crvseq |-> [a \in 1..n |-> a], rax |-> n, axis |-> [a \in 1..n |-> a],
    surf |-> surf, Ri |-> 0, Ro |-> R, rt |-> (R * R :> R)]
Geos == [disk |-> Base(2, FALSE, 1), ball |-> Base(3, FALSE, 1), sphere |-> Base(3, TRUE, 2)]
G == Geos[g]
E(k) == [a \in 1..G.n |-> IF a = 1 THEN k[1] ELSE IF a = 2 THEN k[2] ELSE k[3]]
P(terms) == [d |-> 1, c |-> [e \in {E(t[1]) : t \in terms} |-> LET t == CHOOSE x \in terms : E(x[1]) = e IN <<t[2], 0>>]]
Polys == {P({<< <<1,0,0>>, 1 >>}), P({<< <<1,1,0>>, 2 >>, << <<0,0,0>>, 1 >>}), P({<< <<0,2,0>>, 1 >>, << <<1,0,0>>, -1 >>})}
Surf == IF G.surf THEN G.Ro * G.Ro ELSE 0
AllAx == [a \in 1..G.nax |-> IF G.surf THEN a < G.nax ELSE TRUE]
Sc(p) == NFT(G, [sig |-> <<>>, v |-> (<<>> :> p), dom |-> AllAx, pi |-> 0, s |-> Surf])
Ve(p, q) == LET T == NFT(G, [sig |-> <<1>>, v |-> [t \in Ix(G, <<1>>) |-> IF t[1] = 1 THEN p ELSE IF t[1] = 2 THEN q ELSE PAdd(p, q)], dom |-> AllAx, pi |-> 0, s |-> Surf])
            IN IF G.surf THEN Tang(G, T, 1) ELSE T
Leaf(t) == [f |-> "leaf", a |-> <<>>, p |-> <<>>, q |-> <<>>, t |-> t]
N(f, a, p) == [f |-> f, a |-> a, p |-> p, q |-> <<>>]
Init == /\ g \in DOMAIN Geos
        /\ \E p, q \in Polys : (Few => DOMAIN p.c \cap DOMAIN q.c # {} /\ p # q) /\ S = <<Leaf(Sc(p)), Leaf(Sc(q)), Leaf(Ve(p, q))>> /\ X = S[3].t
V(k) == Val(G, S, k, <<>>)
Rank(k) == Len(V(k).sig)
Ops(i, j) == {N("neg", <<i>>, <<>>), N("scale", <<i>>, <<3, 0, 2>>)}
    \cup (IF Rank(i) <= 1 THEN {N("grad", <<i>>, <<1>>), N("lap", <<i>>, <<1>>)} ELSE {N("trans", <<i>>, <<1, 2>>)})
    \cup (IF Rank(i) >= 1 THEN {N("div", <<i>>, <<1>>)} ELSE {N("pow", <<i>>, <<2>>), N("addnum", <<i>>, <<2>>)})
    \cup (IF Rank(i) = Rank(j) THEN {N("add", <<i, j>>, <<>>), N("subt", <<i, j>>, <<>>)} ELSE {})
    \cup (IF Rank(i) + Rank(j) <= 1 THEN {N("mul", <<i, j>>, <<>>)} ELSE {})
    \cup (IF Rank(i) = 1 /\ Rank(j) = 1 THEN {N("dot", <<i, j>>, <<1, 1>>)} ELSE {})
Next == /\ Len(S) < Depth /\ g' = g
        /\ \E i \in 1..Len(S), j \in {1, 3, Len(S)} : \E o \in Ops(i, j) : S' = Append(S, o) /\ X' = Val(G, S', Len(S'), <<>>)
K == Len(S)
SameT(A, B) == A.sig = B.sig /\ (\A t \in DOMAIN A.v : PEq(A.v[t], B.v[t]))
ZeroT(A) == \A t \in DOMAIN A.v : IsZero(A.v[t])
Sub(A, B) == AddT(A, ScaleT(B, -1, 0, 1))
\* -- symbolic transformations --
SplitLaw == \A vq \in {<<1>>, <<2, 3>>} : LET v == {vq[i] : i \in 1..Len(vq)} T == Append(Append(S, [N("with", <<K>>, <<>>) EXCEPT !.p = vq]), [N("without", <<K>>, <<>>) EXCEPT !.p = vq]) IN
    /\ SameT(AddT(Val(G, T, K+1, <<>>), Val(G, T, K+2, <<>>)), X)
    /\ (~Reach(S, K, v) => ZeroT(Val(G, T, K+1, <<>>)))
    /\ (LinearIn(S, K, v, FALSE) => ZeroT(Val(G, T, K+2, <<>>)))
ReplLaw == LET T == Append(S, N("repl", <<K, 1, 1>>, <<>>)) IN SameT(Val(G, T, K+1, <<>>), X)
Shift(c) == Val(G, S, K, (1 :> AddT(S[1].t, ScaleT(S[2].t, c, 0, 1))))
\* central difference is exact for expressions of degree at most 2
FrechetLaw == (\A d \in Degrees(S, K, {1}) : d <= 2) =>
    LET T == Append(S, [N("frechet", <<K>>, <<1>>) EXCEPT !.q = <<2>>]) IN
    SameT(ScaleT(Sub(Shift(1), Shift(-1)), 1, 0, 2), Val(G, T, K+1, <<>>))
LinearLaw == LinearIn(S, K, {1}, FALSE) => SameT(Sub(Shift(2), X), ScaleT(Sub(Shift(1), X), 2, 0, 1)) /\ ZeroT(Val(G, S, K, (1 :> Zero(G, S[1].t))))
\* -- vector calculus on the last value --
Calculus == /\ (Len(X.sig) <= 1 => SameT(LapT(G, X, 1), DivT(G, GradT(G, X, 1), 1)))
    /\ (Len(X.sig) = 1 => SameT(TraceT(G, GradT(G, X, 1)), DivT(G, X, 1)))
    /\ (Len(X.sig) = 0 /\ G.n = 3 /\ ~G.surf => ZeroT(CurlT(G, GradT(G, X, 1), 1)))
    /\ (Len(X.sig) = 1 /\ G.n = 3 /\ ~G.surf => /\ ZeroT(DivT(G, CurlT(G, X, 1), 1))
        /\ SameT(CurlT(G, CurlT(G, X, 1), 1), Sub(GradT(G, DivT(G, X, 1), 1), LapT(G, X, 1))))
    /\ (Len(X.sig) = 0 /\ (G.n = 2 \/ G.surf) => ZeroT(DivT(G, SkewT(G, GradT(G, X, 1), 1), 1)))
    /\ (Len(X.sig) = 1 /\ (G.n = 2 \/ G.surf) => SameT(SkewT(G, SkewT(G, X, 1), 1), ScaleT(X, -1, 0, 1)))
\* divergence theorem
Gauss == Len(X.sig) = 1 => IF G.surf THEN ZeroT(IntegT(G, DivT(G, X, 1), 0))
    ELSE SameT(IntegT(G, DivT(G, X, 1), 0), IntegT(G, RadialT(G, SurfT(G, X, 1), 1), 0))
\* zero mean of the angular derivative: averages commute with rotation-invariant operators
Means == Len(X.sig) = 0 /\ ~G.surf => SameT(RotMean(G, LapT(G, X, 1), G.n), LapT(G, RotMean(G, X, G.n), 1))
Laws == SplitLaw /\ ReplLaw /\ FrechetLaw /\ LinearLaw /\ Calculus /\ Gauss /\ Means
Spec == Init /\ [][Next]_<<g, S, X>>
=============================================================================
