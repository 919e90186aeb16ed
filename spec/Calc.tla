-------------------------------- MODULE Calc ---------------------------------
(* The calculus a Dedalus expression stands for.

   State: a store of registers.  A register is a leaf (a field: the exact tensor function its data
   represent) or a node (an operation on earlier registers).  The value of a register is defined
   from the *current* leaf values only (Value below); evaluating, transforming or observing
   expressions is required to agree with it whatever happened before.

   A tensor is [sig |-> sequence of coordinate-system numbers, v |-> components indexed by tuples
   of Cartesian axes, dom |-> which distributor axes the value may vary along, pi |-> power of pi
   multiplying the value, s |-> 0, or r^2 = s when the value lives on that circle/sphere].
   G (the geometry) is [n, per, kap, lo, hi, cs, hand, crv, ax, R2, Ri, Ro ...] from the trace.     *)
EXTENDS Laurent, TLC

SumOver(S, f(_)) == FoldSet(LAMBDA x, acc : PAdd(acc, f(x)), PZero, S)
Drop(t, j) == SubSeq(t, 1, j-1) \o SubSeq(t, j+1, Len(t))
Insert(t, j, k) == SubSeq(t, 1, j-1) \o <<k>> \o SubSeq(t, j, Len(t))
Or(f, g) == [a \in DOMAIN f |-> f[a] \/ g[a]]
Max2(a, b) == IF a > b THEN a ELSE b

Dim(G, c) == Len(G.cs[c])
RECURSIVE Ix(_, _)
Ix(G, sig) == IF sig = <<>> THEN {<<>>} ELSE {<<k>> \o t : k \in 1..Dim(G, sig[1]), t \in Ix(G, Tail(sig))}
RECURSIVE IxSeq(_, _)   \* row-major
IxSeq(G, sig) == IF sig = <<>> THEN << <<>> >> ELSE
    LET sub == IxSeq(G, Tail(sig)) m == Len(sub) IN
    [i \in 1..(Dim(G, sig[1]) * m) |-> <<((i-1) \div m) + 1>> \o sub[((i-1) % m) + 1]]
FromSeq(G, sig, comps) == LET ix == IxSeq(G, sig) IN
    [t \in Ix(G, sig) |-> comps[CHOOSE i \in 1..Len(ix) : ix[i] = t]]

\* ---- functions on the circle or sphere r^2 = s: eliminate even powers of the last variable ----
RECURSIVE NFz(_, _, _)
NFz(p, vs, s) == LET z == vs[Len(vs)]
        hi == {e \in DOMAIN p.c : e[z] >= 2} IN
    IF hi = {} THEN p ELSE
    LET low == [d |-> p.d, c |-> [e \in DOMAIN p.c \ hi |-> p.c[e]]]
        q == [d |-> p.d, c |-> [f \in {[e EXCEPT ![z] = e[z] - 2] : e \in hi} |-> p.c[[f EXCEPT ![z] = f[z] + 2]]]]
        Unit(v, k) == [a \in DOMAIN (CHOOSE e \in hi : TRUE) |-> IF a = v THEN k ELSE 0]
        Z0 == Unit(1, 0)
        rho == [d |-> 1, c |-> [e \in {Z0} \cup {Unit(vs[i], 2) : i \in 1..Len(vs)-1} |-> IF e = Z0 THEN <<s, 0>> ELSE <<-1, 0>>]]
    IN NFz(PAdd(low, PMul(q, rho)), vs, s)
NF(G, s, p) == IF s = 0 THEN p ELSE NFz(p, G.crv, s)
NFT(G, T0) == LET T == TLCEval(T0) IN IF T.s = 0 THEN T ELSE TLCEval( [T EXCEPT !.v = [t \in DOMAIN T.v |-> NF(G, T.s, T.v[t])]])

\* ---- elementary operations on tensors ----
Zero(G, T) == [T EXCEPT !.v = [t \in DOMAIN T.v |-> PZero]]
MapT(T, f(_)) == TLCEval([T EXCEPT !.v = [t \in DOMAIN T.v |-> f(T.v[t])]])
AddT(A, B) == TLCEval([A EXCEPT !.v = [t \in DOMAIN A.v |-> PAdd(A.v[t], B.v[t])], !.dom = Or(A.dom, B.dom), !.s = Max2(A.s, B.s)])
ScaleT(A, re, im, d) == LET f(p) == PScale(p, re, im, d) IN MapT(A, f)
MulT(G, A, B) == NFT(G, [sig |-> A.sig \o B.sig, dom |-> Or(A.dom, B.dom), pi |-> A.pi + B.pi, s |-> Max2(A.s, B.s),
    v |-> [t \in Ix(G, A.sig \o B.sig) |-> PMul(A.v[SubSeq(t, 1, Len(A.sig))], B.v[SubSeq(t, Len(A.sig)+1, Len(t))])]])
DotT(G, A, B, i, j) == LET sig == Drop(A.sig, i) \o Drop(B.sig, j) ra == Len(A.sig) - 1 IN
    NFT(G, [sig |-> sig, dom |-> Or(A.dom, B.dom), pi |-> A.pi + B.pi, s |-> Max2(A.s, B.s),
     v |-> [t \in Ix(G, sig) |-> LET a == SubSeq(t, 1, ra) b == SubSeq(t, ra+1, Len(t))
              f(k) == PMul(A.v[Insert(a, i, k)], B.v[Insert(b, j, k)]) IN SumOver(1..Dim(G, A.sig[i]), f)]])
Eps(i, j, k) == IF i = j \/ j = k \/ i = k THEN 0 ELSE IF <<i, j, k>> \in {<<1,2,3>>, <<2,3,1>>, <<3,1,2>>} THEN 1 ELSE -1
CrossT(G, A, B) == NFT(G, [sig |-> A.sig, dom |-> Or(A.dom, B.dom), pi |-> A.pi + B.pi, s |-> Max2(A.s, B.s),
    v |-> [t \in Ix(G, A.sig) |-> LET f(jk) == LET e == G.hand * Eps(t[1], jk[1], jk[2]) IN
              IF e = 0 THEN PZero ELSE PScale(PMul(A.v[<<jk[1]>>], B.v[<<jk[2]>>]), e, 0, 1) IN SumOver((1..3) \X (1..3), f)]])
RECURSIVE PowT(_, _, _)
PowT(G, A, n) == IF n = 1 THEN A ELSE LET B == PowT(G, A, n-1) IN NFT(G, [A EXCEPT !.v = [t \in DOMAIN A.v |-> PMul(A.v[t], B.v[t])], !.pi = A.pi + B.pi])
HadT(G, A, B) == NFT(G, [A EXCEPT !.v = [t \in DOMAIN A.v |-> PMul(A.v[t], B.v[t])], !.dom = Or(A.dom, B.dom), !.pi = A.pi + B.pi])

\* ---- derivatives ----
D1(G, p, v) == IF G.per[v] THEN DFour(p, v, G.kap[v]) ELSE DPoly(p, v)
Mono(G, v) == [d |-> 1, c |-> [e \in {[a \in 1..G.n |-> IF a = v THEN 1 ELSE 0]} |-> <<1, 0>>]]
\* projection of index j of a tensor on the sphere r^2 = s onto the tangent plane
Tang(G, T, j) == LET m == Dim(G, T.sig[j]) vs == G.crv IN
    NFT(G, [T EXCEPT !.v = [t \in DOMAIN T.v |->
        LET f(k) == PMul(PMul(Mono(G, vs[t[j]]), Mono(G, vs[k])), T.v[[t EXCEPT ![j] = k]]) IN
        PSub(T.v[t], PScale(SumOver(1..m, f), 1, 0, T.s))]])
RECURSIVE TangAll(_, _, _)
TangAll(G, T, j) == IF j = 0 THEN T ELSE TangAll(G, Tang(G, T, j), j-1)
GradT(G, T, c) == LET sig == <<c>> \o T.sig
        raw == TLCEval([T EXCEPT !.sig = sig, !.v = [t \in Ix(G, sig) |-> D1(G, T.v[Tail(t)], G.cs[c][t[1]])]]) IN
    IF G.surf THEN TangAll(G, raw, Len(sig)) ELSE raw
TraceT(G, T) == LET sig == SubSeq(T.sig, 3, Len(T.sig)) IN NFT(G, [T EXCEPT !.sig = sig,
    !.v = [t \in Ix(G, sig) |-> LET f(k) == T.v[<<k, k>> \o t] IN SumOver(1..Dim(G, T.sig[1]), f)]])
TransT(G, T, i, j) == LET swap(t) == [t EXCEPT ![i] = t[j], ![j] = t[i]] sig == swap(T.sig) IN
    [T EXCEPT !.sig = sig, !.v = [t \in Ix(G, sig) |-> T.v[swap(t)]]]
\* move index j to the front
FrontT(G, T, j) == LET sig == <<T.sig[j]>> \o Drop(T.sig, j) IN
    [T EXCEPT !.sig = sig, !.v = [t \in Ix(G, sig) |-> T.v[Insert(Tail(t), j, t[1])]]]
DivT(G, T, j) == LET F == TLCEval(FrontT(G, T, j)) IN TraceT(G, GradT(G, F, T.sig[j]))
LapT(G, T, c) == TraceT(G, GradT(G, GradT(G, T, c), c))
CurlT(G, T, j) == [T EXCEPT !.v = [t \in DOMAIN T.v |->
    LET f(ab) == LET e == G.hand * Eps(t[j], ab[1], ab[2]) IN
          IF e = 0 THEN PZero ELSE PScale(D1(G, T.v[[t EXCEPT ![j] = ab[2]]], G.cs[T.sig[j]][ab[1]]), e, 0, 1)
    IN SumOver((1..3) \X (1..3), f)]]
\* (-u_y, u_x) in a plane;  r x u / |r| on a sphere
SkewT(G, T, j) == IF G.surf
    THEN NFT(G, [T EXCEPT !.v = [t \in DOMAIN T.v |-> LET f(ab) == LET e == Eps(t[j], ab[1], ab[2]) IN
              IF e = 0 THEN PZero ELSE PScale(PMul(Mono(G, ab[1]), T.v[[t EXCEPT ![j] = ab[2]]]), e, 0, G.Ro) IN SumOver((1..3) \X (1..3), f)]])
    ELSE [T EXCEPT !.v = [t \in DOMAIN T.v |-> IF t[j] = 1 THEN PNeg(T.v[[t EXCEPT ![j] = 2]]) ELSE T.v[[t EXCEPT ![j] = 1]]]]
CompT(G, T, j, k) == LET sig == Drop(T.sig, j) IN [T EXCEPT !.sig = sig, !.v = [t \in Ix(G, sig) |-> T.v[Insert(t, j, k)]]]
\* restriction of a vector over a direct product to one of its factors: indices k0+1..k0+m
SubT(G, T, j, c, k0) == LET sig == [T.sig EXCEPT ![j] = c] IN [T EXCEPT !.sig = sig, !.v = [t \in Ix(G, sig) |-> T.v[[t EXCEPT ![j] = t[j] + k0]]]]
\* components normal / tangent to r^2 = s
RadialT(G, T, j) == LET sig == Drop(T.sig, j) R == G.rt[T.s] IN NFT(G, [T EXCEPT !.sig = sig,
    !.v = [t \in Ix(G, sig) |-> LET f(k) == PMul(Mono(G, G.crv[k]), T.v[Insert(t, j, k)]) IN PScale(SumOver(1..Len(G.crv), f), 1, 0, R)]])
AzimT(G, T, j) == LET sig == Drop(T.sig, j) R == G.rt[T.s] x == G.crv[1] y == G.crv[2] IN NFT(G, [T EXCEPT !.sig = sig,
    !.v = [t \in Ix(G, sig) |-> PScale(PSub(PMul(Mono(G, x), T.v[Insert(t, j, 2)]), PMul(Mono(G, y), T.v[Insert(t, j, 1)])), 1, 0, R)]])

\* ---- restriction and integration ----
Clear(dom, axes) == [a \in DOMAIN dom |-> IF a \in axes THEN FALSE ELSE dom[a]]
InterpT(G, T, a, num, den) == LET f(p) == IF G.per[a] THEN InterpFour(p, a, num) ELSE InterpPoly(p, a, num, den)
    IN [MapT(T, f) EXCEPT !.dom = Clear(T.dom, {G.axis[a]})]
SurfT(G, T, s) == NFT(G, [T EXCEPT !.s = s, !.dom = Clear(T.dom, {G.rax})])
Dfac[k \in Int] == IF k <= 0 THEN 1 ELSE k * Dfac[k-2]
Even(e, vs) == \A i \in 1..Len(vs) : e[vs[i]] % 2 = 0
DegIn(e, vs) == IF Len(vs) = 2 THEN e[vs[1]] + e[vs[2]] ELSE e[vs[1]] + e[vs[2]] + e[vs[3]]
Num(e, vs) == IF Len(vs) = 2 THEN Dfac[e[vs[1]]-1] * Dfac[e[vs[2]]-1] ELSE Dfac[e[vs[1]]-1] * Dfac[e[vs[2]]-1] * Dfac[e[vs[3]]-1]
\* mean over the circle / sphere of a monomial of total degree k is Num/Den r^k
Den(k, vs) == IF Len(vs) = 2 THEN Dfac[k] ELSE Dfac[k+1]
Wipe(e, vs) == [a \in DOMAIN e |-> IF \E i \in 1..Len(vs) : vs[i] = a THEN 0 ELSE e[a]]
\* per-monomial sums (rational factors)
TermSum(p, F(_, _)) == FoldSet(LAMBDA e, acc : PAdd(acc, F(e, p.c[e])), PZero, DOMAIN p.c)
One(e, c, num, den, d) == Reduce([d |-> den * d, c |-> Clean([x \in {e} |-> <<num * c[1], num * c[2]>>])])
\* integral over the disk/annulus (vs of length 2, times pi) or ball/shell (length 3, times pi), or over r^2 = s
IntegCurv(G, p, s) == LET vs == G.crv m == Len(vs) F(e, c) == IF ~Even(e, vs) THEN PZero ELSE LET k == DegIn(e, vs) area == IF m = 2 THEN 2 ELSE 4 IN
        IF s > 0 THEN One(Wipe(e, vs), c, area * Num(e, vs) * IPow(G.rt[s], k + m - 1), Den(k, vs), p.d)
        ELSE One(Wipe(e, vs), c, area * Num(e, vs) * (IPow(G.Ro, k + m) - (IF G.Ri = 0 THEN 0 ELSE IPow(G.Ri, k + m))), Den(k, vs) * (k + m), p.d)
    IN TermSum(p, F)
IntegT(G, T, a) == IF a = 0 THEN LET f(p) == IntegCurv(G, p, T.s) IN [MapT(T, f) EXCEPT !.dom = Clear(T.dom, G.crvax), !.pi = T.pi + 1, !.s = 0]
    ELSE IF G.per[a] THEN LET f(p) == PScale(MeanFour(p, a), 2, 0, G.kap[a]) IN [MapT(T, f) EXCEPT !.dom = Clear(T.dom, {G.axis[a]}), !.pi = T.pi + 1]
    ELSE LET f(p) == IntegPoly(p, a, G.lo[a], G.hi[a]) IN [MapT(T, f) EXCEPT !.dom = Clear(T.dom, {G.axis[a]})]
RECURSIVE IntegAll(_, _, _)
IntegAll(G, T, as) == IF as = <<>> THEN T ELSE IntegAll(G, IntegT(G, T, Head(as)), Tail(as))
UnitT(G, s) == [sig |-> <<>>, v |-> [t \in {<<>>} |-> PConst(G.n, 1, 0, 1)], dom |-> [a \in 1..G.nax |-> FALSE], pi |-> 0, s |-> s]
AveT(G, T, a) == IF a # 0 /\ G.per[a] THEN LET f(p) == MeanFour(p, a) IN [MapT(T, f) EXCEPT !.dom = Clear(T.dom, {G.axis[a]})] ELSE
    LET vol == IntegT(G, UnitT(G, T.s), a) c == vol.v[<<>>] w == c.c[[b \in 1..G.n |-> 0]] I == IntegT(G, T, a) IN
    [ScaleT(I, c.d, 0, w[1]) EXCEPT !.pi = I.pi - vol.pi]
RECURSIVE AveAll(_, _, _)
AveAll(G, T, as) == IF as = <<>> THEN T ELSE AveAll(G, AveT(G, T, Head(as)), Tail(as))
\* (sum of squares of the variables vs)^k
RECURSIVE RadPow(_, _, _)
RadPow(G, vs, k) == IF k = 0 THEN PConst(G.n, 1, 0, 1) ELSE
    LET f(i) == PMul(Mono(G, vs[i]), Mono(G, vs[i])) IN PMul(SumOver(1..Len(vs), f), RadPow(G, vs, k-1))
\* mean over each circle (m = 2, about the last axis) or sphere (m = 3)
RotMean(G, T, m) == LET vs == SubSeq(G.crv, 1, m)
        F(e, c) == IF ~Even(e, vs) THEN PZero ELSE LET k == DegIn(e, vs) IN PMul(One(Wipe(e, vs), c, Num(e, vs), Den(k, vs), 1), RadPow(G, vs, k \div 2))
        f(p) == PScale(TermSum(p, F), 1, 0, p.d) IN NFT(G, [MapT(T, f) EXCEPT !.dom = Clear(T.dom, {G.crvseq[i] : i \in 1..m-1})])

\* ---- the value of a node, given the values of its arguments ----
\* dual parts (directional derivatives) are tensors with the same signature
ConstT(G, T, n) == [T EXCEPT !.v = [t \in DOMAIN T.v |-> PConst(G.n, n, 0, 1)], !.dom = [a \in DOMAIN T.dom |-> FALSE], !.pi = 0, !.s = 0]
RECURSIVE PolyT(_, _, _)   \* Horner, componentwise; cs = <<c0, c1, ...>>
PolyT(G, A, cs) == IF Len(cs) = 1 THEN ConstT(G, A, cs[1]) ELSE AddT(ConstT(G, A, cs[1]), HadT(G, A, PolyT(G, A, Tail(cs))))
DPolyCoef(cs) == IF Len(cs) = 1 THEN <<0>> ELSE [i \in 1..Len(cs)-1 |-> i * cs[i+1]]
Linear(f) == f \in {"neg", "scale", "grad", "div", "curl", "lap", "d", "skew", "trace", "trans", "comp", "sub_", "interp", "surf", "radial", "azim", "angular",
                    "integ", "ave", "rmean", "hilb", "id", "dt", "same", "lift"}
Lin(G, N, A) == CASE N.f = "neg" -> ScaleT(A, -1, 0, 1)
    [] N.f = "scale" -> ScaleT(A, N.p[1], N.p[2], N.p[3])
    [] N.f = "grad" -> GradT(G, A, N.p[1])
    [] N.f = "div" -> DivT(G, A, N.p[1])
    [] N.f = "curl" -> CurlT(G, A, N.p[1])
    [] N.f = "lap" -> LapT(G, A, N.p[1])
    [] N.f = "d" -> LET f(p) == D1(G, p, N.p[1]) IN MapT(A, f)
    [] N.f = "skew" -> SkewT(G, A, N.p[1])
    [] N.f = "trace" -> TraceT(G, A)
    [] N.f = "trans" -> TransT(G, A, N.p[1], N.p[2])
    [] N.f = "comp" -> CompT(G, A, N.p[1], N.p[2])
    [] N.f = "sub_" -> SubT(G, A, N.p[1], N.p[2], N.p[3])
    [] N.f = "interp" -> InterpT(G, A, N.p[1], N.p[2], N.p[3])
    [] N.f = "surf" -> SurfT(G, A, N.p[1])
    [] N.f = "radial" -> RadialT(G, A, N.p[1])
    [] N.f = "azim" -> AzimT(G, A, N.p[1])
    [] N.f = "angular" -> Tang(G, A, N.p[1])
    [] N.f = "integ" -> IntegAll(G, A, N.p)
    [] N.f = "ave" -> AveAll(G, A, N.p)
    [] N.f = "rmean" -> RotMean(G, A, N.p[1])
    [] N.f = "lift" -> [Zero(G, A) EXCEPT !.dom = [a \in DOMAIN A.dom |-> A.dom[a] \/ a = N.p[1]], !.s = 0]   \* of zero only
    [] N.f = "hilb" -> LET f(p) == Hilb(p, N.p[1]) IN MapT(A, f)
    [] OTHER -> A
Bilinear(f) == f \in {"mul", "dot", "cross", "had"}
Bil(G, N, A, B) == CASE N.f = "mul" -> MulT(G, A, B)
    [] N.f = "dot" -> DotT(G, A, B, N.p[1], N.p[2])
    [] N.f = "cross" -> CrossT(G, A, B)
    [] OTHER -> HadT(G, A, B)

\* ---- evaluation ----
RECURSIVE Val(_, _, _, _)
RECURSIVE Without(_, _, _, _)
RECURSIVE Deriv(_, _, _, _, _)
RECURSIVE Reach(_, _, _)
\* does register k contain one of vars (0: a time derivative)?
Reach(S, k, vars) == k \in vars \/ (0 \in vars /\ S[k].f = "dt") \/
    IF S[k].f = "repl" THEN Reach(S, S[k].a[1], vars \ {S[k].a[2]}) \/ (Reach(S, S[k].a[1], {S[k].a[2]}) /\ Reach(S, S[k].a[3], vars))   \* of a leaf
    ELSE S[k].f # "leaf" /\ \E i \in 1..Len(S[k].a) : Reach(S, S[k].a[i], vars)
Apply(G, N, arg(_)) == CASE Linear(N.f) -> Lin(G, N, arg(1))
    [] Bilinear(N.f) -> Bil(G, N, arg(1), arg(2))
    [] N.f = "add" -> AddT(arg(1), arg(2))
    [] N.f = "subt" -> AddT(arg(1), ScaleT(arg(2), -1, 0, 1))
    [] N.f = "addnum" -> LET A == arg(1) IN AddT(A, ConstT(G, A, N.p[1]))
    [] N.f = "pow" -> PowT(G, arg(1), N.p[1])
    [] N.f = "poly" -> PolyT(G, arg(1), N.p)
    [] OTHER -> LET A == arg(1) B == arg(2) IN   \* "bip": a*x*y + b*x + c*y, componentwise
         AddT(ScaleT(HadT(G, A, B), N.p[1], 0, 1), AddT(ScaleT(A, N.p[2], 0, 1), ScaleT(B, N.p[3], 0, 1)))
\* value with some registers overridden (function ov from registers to tensors)
Val(G, S, k, ov) == TLCEval(IF k \in DOMAIN ov THEN ov[k] ELSE LET N == S[k] IN
    IF N.f = "leaf" THEN N.t
    ELSE IF N.f = "same" THEN Val(G, S, N.a[1], ov)
    ELSE IF N.f = "repl" THEN LET nv == Val(G, S, N.a[3], ov) IN Val(G, S, N.a[1], (N.a[2] :> nv) @@ ov)
    ELSE IF N.f = "without" THEN Without(G, S, N.a[1], {N.p[i] : i \in 1..Len(N.p)})
    ELSE IF N.f = "with" THEN AddT(Val(G, S, N.a[1], ov), ScaleT(Without(G, S, N.a[1], {N.p[i] : i \in 1..Len(N.p)}), -1, 0, 1))
    ELSE IF N.f = "frechet" THEN Deriv(G, S, N.a[1], [v \in {N.p[i] : i \in 1..Len(N.p)} |-> LET i == CHOOSE j \in 1..Len(N.p) : N.p[j] = v IN Val(G, S, N.q[i], ov)], ov)
    ELSE LET arg(i) == Val(G, S, N.a[i], ov) IN Apply(G, N, arg))
\* drop every term containing one of vars
Without(G, S, k, vars) == LET N == S[k] V == Val(G, S, k, <<>>) IN
    IF ~Reach(S, k, vars) THEN V
    ELSE IF k \in vars \/ (0 \in vars /\ N.f = "dt") \/ N.f \in {"pow", "poly", "bip"} THEN Zero(G, V)
    ELSE LET arg(i) == Without(G, S, N.a[i], vars) IN Apply(G, N, arg)
\* directional derivative: vars move in the directions dv
Deriv(G, S, k, dv, ov) == LET N == S[k] x(i) == Val(G, S, N.a[i], ov) dx(i) == Deriv(G, S, N.a[i], dv, ov) IN
    IF k \in DOMAIN dv THEN dv[k]
    ELSE IF ~Reach(S, k, DOMAIN dv) THEN Zero(G, Val(G, S, k, ov))
    ELSE CASE Linear(N.f) -> Lin(G, N, dx(1))
      [] Bilinear(N.f) -> AddT(Bil(G, N, dx(1), x(2)), Bil(G, N, x(1), dx(2)))
      [] N.f = "add" -> AddT(dx(1), dx(2))
      [] N.f = "subt" -> AddT(dx(1), ScaleT(dx(2), -1, 0, 1))
      [] N.f = "addnum" -> dx(1)
      [] N.f = "pow" -> IF N.p[1] = 1 THEN dx(1) ELSE ScaleT(HadT(G, PowT(G, x(1), N.p[1]-1), dx(1)), N.p[1], 0, 1)
      [] N.f = "poly" -> HadT(G, PolyT(G, x(1), DPolyCoef(N.p)), dx(1))
      [] OTHER -> Zero(G, Val(G, S, k, ov))
\* degrees in which vars occur (99: nonlinearly)
RECURSIVE Degrees(_, _, _)
Degrees(S, k, vars) == LET N == S[k] IN
    IF k \in vars THEN {1} ELSE IF ~Reach(S, k, vars) THEN {0}
    ELSE IF N.f \in {"pow", "poly", "bip"} THEN {99}
    ELSE IF Bilinear(N.f) THEN {i + j : i \in Degrees(S, N.a[1], vars), j \in Degrees(S, N.a[2], vars)}
    ELSE IF N.f \in {"add", "subt"} THEN Degrees(S, N.a[1], vars) \cup Degrees(S, N.a[2], vars)
    ELSE IF N.f = "addnum" THEN Degrees(S, N.a[1], vars) \cup {0}
    ELSE Degrees(S, N.a[1], vars)
\* no time derivative inside of another
RECURSIVE FirstOrder(_, _)
FirstOrder(S, k) == CASE S[k].f = "leaf" -> TRUE
    [] S[k].f = "dt" -> ~Reach(S, S[k].a[1], {0})
    [] OTHER -> \A i \in 1..Len(S[k].a) : FirstOrder(S, S[k].a[i])
LinearIn(S, k, vars, affine) == Degrees(S, k, vars) \subseteq (IF affine THEN {0, 1} ELSE {1})
=============================================================================
