------------------------------- MODULE Reduce --------------------------------
(* Global reductions of distributed data.

   parts[r] is the sequence of values process r owns (possibly none).  A reduction reported by any
   process must be that of the whole collection.  Values are integers (fixed point where stated).

   Integrals are those of polynomials sum c * x^a y^b z^c over a geometry; Moment gives the integral of
   one monomial as a rational <<numerator, denominator>> in the unit of the geometry (interval: 1,
   disk and annulus: 2 pi, sphere, ball and shell: 4 pi).                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Flat(_)
Flat(ps) == IF ps = <<>> THEN <<>> ELSE Head(ps) \o Flat(Tail(ps))
Vals(s) == {s[i] : i \in DOMAIN s}
Min(s) == CHOOSE x \in Vals(s) : \A y \in Vals(s) : x <= y
Max(s) == CHOOSE x \in Vals(s) : \A y \in Vals(s) : x >= y
RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s, n-1)
Sum(s) == SumTo(s, Len(s))
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n-1)
\* sum of |v|^order; values are <<re, im>> pairs
Mag(v, order) == IF v[2] = 0 THEN Pow(Abs(v[1]), order) ELSE IF order = 2 THEN v[1]*v[1] + v[2]*v[2] ELSE 0
NormSum(s, order) == Sum([i \in DOMAIN s |-> Mag(s[i], order)])
MaxSquare(s) == Max([i \in DOMAIN s |-> Mag(s[i], 2)])

\* ---- exact integrals
RECURSIVE Odd(_)
Odd(n) == IF n <= 1 THEN 1 ELSE n * Odd(n-2)          \* n!!
Even(n) == n % 2 = 0
RMul(p, q) == <<p[1]*q[1], p[2]*q[2]>>
\* integral of r^n dr from a to b
Radial(n, a, b) == <<Pow(b, n+1) - Pow(a, n+1), n+1>>
Moment(G, m) ==
    CASE G.kind = "box" ->     \* a Fourier direction enters only through its constant mode: [lo, hi] per polynomial axis, length of the others
            LET f[i \in 0..Len(G.ax)] == IF i = 0 THEN <<1, 1>> ELSE RMul(f[i-1],
                    IF G.ax[i].fourier THEN (IF m[i] = 0 THEN <<G.ax[i].hi - G.ax[i].lo, 1>> ELSE <<0, 1>>) ELSE Radial(m[i], G.ax[i].lo, G.ax[i].hi))
            IN f[Len(G.ax)]
      [] G.kind \in {"disk", "annulus"} -> IF ~Even(m[1]) \/ ~Even(m[2]) THEN <<0, 1>>
            ELSE RMul(Radial(m[1] + m[2] + 1, G.lo, G.hi), <<Odd(m[1]-1) * Odd(m[2]-1), Odd(m[1]+m[2])>>)
      [] OTHER -> IF ~Even(m[1]) \/ ~Even(m[2]) \/ ~Even(m[3]) THEN <<0, 1>>
            ELSE RMul(IF G.kind = "sphere" THEN <<1, 1>> ELSE Radial(m[1] + m[2] + m[3] + 2, G.lo, G.hi),
                      <<Odd(m[1]-1) * Odd(m[2]-1) * Odd(m[3]-1), Odd(m[1]+m[2]+m[3]+1)>>)
Zero(G) == IF G.kind = "box" THEN [i \in 1..Len(G.ax) |-> 0] ELSE <<0, 0, 0>>
Volume(G) == Moment(G, Zero(G))
\* fixed point: thousandths; each term is rounded, so sums are good to one unit per term
Scale == 1000
Fixed(c, q) == (c * Scale * q[1]) \div q[2]
Integral(G, terms) == Sum([i \in DOMAIN terms |-> Fixed(terms[i].c, Moment(G, terms[i].m))])
Near(x, y, tol) == Abs(x - y) <= tol
\* the square of a polynomial, term by term
Square(terms) == [k \in 1..Len(terms)*Len(terms) |-> LET i == ((k-1) \div Len(terms)) + 1 j == ((k-1) % Len(terms)) + 1 IN
                    [c |-> terms[i].c * terms[j].c, m |-> [a \in DOMAIN terms[i].m |-> terms[i].m[a] + terms[j].m[a]]]]
=============================================================================
