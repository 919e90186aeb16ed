------------------------------- MODULE Laurent --------------------------------
(* Exact algebra of the functions a spectral code represents: finite sums of monomials
       c * prod_a  x_a^{e_a}  (polynomial axes)   or   exp(i kappa_a e_a x_a)  (periodic axes)
   with Gaussian rational coefficients.  A function is [d |-> positive denominator,
   c |-> map from exponent tuples to <<re, im>> numerators (no zero entries)].                  *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Lcm(a, b) == (a \div Gcd(a, b)) * b
RECURSIVE IPow(_, _)
IPow(b, n) == IF n = 0 THEN 1 ELSE b * IPow(b, n-1)

CAdd(x, y) == <<x[1] + y[1], x[2] + y[2]>>
CMul(x, y) == <<x[1]*y[1] - x[2]*y[2], x[1]*y[2] + x[2]*y[1]>>
CInt(k, x) == <<k*x[1], k*x[2]>>
CZero == <<0, 0>>

Clean(f) == LET S == {e \in DOMAIN f : f[e] # CZero} IN [e \in S |-> f[e]]
NoTerms == [e \in {} |-> CZero]
PZero == [d |-> 1, c |-> NoTerms]
IsZero(p) == DOMAIN p.c = {}
CoefOf(p, e) == IF e \in DOMAIN p.c THEN p.c[e] ELSE CZero
Reduce(p) == IF IsZero(p) THEN PZero
    ELSE LET g == FoldSet(LAMBDA e, acc : Gcd(Gcd(acc, Abs(p.c[e][1])), Abs(p.c[e][2])), p.d, DOMAIN p.c)
         IN IF g = 1 THEN p ELSE [d |-> p.d \div g, c |-> [e \in DOMAIN p.c |-> <<p.c[e][1] \div g, p.c[e][2] \div g>>]]
\* from JSON: [d, terms] with terms a sequence of <<exps, re, im>>
FromTerms(d, ts) == [d |-> d, c |-> Clean([e \in {ts[i][1] : i \in 1..Len(ts)} |->
        LET i == CHOOSE j \in 1..Len(ts) : ts[j][1] = e IN <<ts[i][2], ts[i][3]>>])]
PConst(n, re, im, d) == [d |-> d, c |-> Clean([e \in {[a \in 1..n |-> 0]} |-> <<re, im>>])]
PAdd(p, q) == IF IsZero(p) THEN q ELSE IF IsZero(q) THEN p ELSE
    LET L == Lcm(p.d, q.d) k == L \div p.d m == L \div q.d IN
    Reduce([d |-> L, c |-> Clean([e \in DOMAIN p.c \cup DOMAIN q.c |-> CAdd(CInt(k, CoefOf(p, e)), CInt(m, CoefOf(q, e)))])])
PScale(p, re, im, d) == Reduce([d |-> p.d * d, c |-> Clean([e \in DOMAIN p.c |-> CMul(<<re, im>>, p.c[e])])])
PNeg(p) == PScale(p, -1, 0, 1)
PSub(p, q) == PAdd(p, PNeg(q))
EAdd(x, y) == [a \in DOMAIN x |-> x[a] + y[a]]
ESub(x, y) == [a \in DOMAIN x |-> x[a] - y[a]]
PMul(p, q) == IF IsZero(p) \/ IsZero(q) THEN PZero ELSE
    LET P == DOMAIN p.c Q == DOMAIN q.c
        E == {EAdd(x, y) : x \in P, y \in Q}
        Term(e) == FoldSet(LAMBDA x, acc : LET y == ESub(e, x) IN IF y \in Q THEN CAdd(acc, CMul(p.c[x], q.c[y])) ELSE acc, CZero, P)
    IN Reduce([d |-> p.d * q.d, c |-> Clean([e \in E |-> Term(e)])])
RECURSIVE PPow(_, _)
PPow(p, n) == IF n = 1 THEN p ELSE PMul(p, PPow(p, n-1))
\* functions are kept in lowest terms, so equality is identity
PEq(p, q) == p = q
\* sum over a finite sequence of functions
RECURSIVE PSum(_)
PSum(s) == IF s = <<>> THEN PZero ELSE PAdd(Head(s), PSum(Tail(s)))
\* regroup terms by a map of exponents and a Gaussian integer / denominator factor per term
PMap(p, Ex(_), Fac(_), den) == IF IsZero(p) THEN PZero ELSE
    LET E == {Ex(x) : x \in DOMAIN p.c}
        Term(e) == FoldSet(LAMBDA x, acc : IF Ex(x) = e THEN CAdd(acc, CMul(Fac(x), p.c[x])) ELSE acc, CZero, DOMAIN p.c)
    IN Reduce([d |-> p.d * den, c |-> Clean([e \in E |-> Term(e)])])
\* x-exponent a lowered by one, coefficient times exponent (polynomial axis)
DPoly(p, a) == LET S == {e \in DOMAIN p.c : e[a] # 0} IN
    Reduce([d |-> p.d, c |-> [f \in {[e EXCEPT ![a] = e[a] - 1] : e \in S} |-> LET e == [f EXCEPT ![a] = f[a] + 1] IN CInt(e[a], p.c[e])]])
\* times i kappa e (periodic axis)
DFour(p, a, kap) == Reduce([d |-> p.d, c |-> Clean([e \in DOMAIN p.c |-> CMul(<<0, kap * e[a]>>, p.c[e])])])
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Hilb(p, a) == Reduce([d |-> p.d, c |-> Clean([e \in DOMAIN p.c |-> CMul(<<0, -Sgn(e[a])>>, p.c[e])])])
\* substitute x_a = num/den on a polynomial axis, maximum exponent m
MaxExp(p, a) == FoldSet(LAMBDA e, acc : IF e[a] > acc THEN e[a] ELSE acc, 0, DOMAIN p.c)
InterpPoly(p, a, num, den) == LET m == MaxExp(p, a) Ex(e) == [e EXCEPT ![a] = 0]
    Fac(e) == <<IPow(num, e[a]) * IPow(den, m - e[a]), 0>> IN PMap(p, Ex, Fac, IPow(den, m))
\* substitute exp(i kappa x_a) = i^j on a periodic axis
IPowI(n) == CASE n % 4 = 0 -> <<1, 0>> [] n % 4 = 1 -> <<0, 1>> [] n % 4 = 2 -> <<-1, 0>> [] OTHER -> <<0, -1>>
InterpFour(p, a, j) == LET Ex(e) == [e EXCEPT ![a] = 0] Fac(e) == IPowI(j * e[a]) IN PMap(p, Ex, Fac, 1)
LcmUpTo(n) == FoldSet(LAMBDA k, acc : Lcm(acc, k), 1, 1..n)
IntegPoly(p, a, lo, hi) == LET L == LcmUpTo(MaxExp(p, a) + 1) Ex(e) == [e EXCEPT ![a] = 0]
    Fac(e) == <<(L \div (e[a] + 1)) * (IPow(hi, e[a] + 1) - IPow(lo, e[a] + 1)), 0>> IN PMap(p, Ex, Fac, L)
MeanFour(p, a) == LET S == {e \in DOMAIN p.c : e[a] = 0} IN Reduce([d |-> p.d, c |-> [e \in S |-> p.c[e]]])
Conj(p, per) == [d |-> p.d, c |-> [f \in {[a \in DOMAIN e |-> IF per[a] THEN -e[a] ELSE e[a]] : e \in DOMAIN p.c} |->
        LET e == [a \in DOMAIN f |-> IF per[a] THEN -f[a] ELSE f[a]] IN <<p.c[e][1], -p.c[e][2]>>]]
=============================================================================
