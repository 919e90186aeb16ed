------------------------------- MODULE Record --------------------------------
(* Records of tasks in output files: what one holds, given what the task denotes and how it was asked for.
   Reals are integers in units of 1/FIX; complex numbers are pairs, real data has im = 0 throughout.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
FIX == 10000
Abs(x) == IF x < 0 THEN -x ELSE x
Near(x, y, tol) == Abs(x - y) <= tol
RECURSIVE Prod(_, _)
Prod(s, n) == IF n = 0 THEN 1 ELSE s[n] * Prod(s, n - 1)
Size(shape) == Prod(shape, Len(shape))
\* truncation is symmetric about zero; the product is exact to a unit while it fits 32 bits, else the operands lose a digit
Div(x, y) == IF x < 0 THEN -((-x) \div y) ELSE x \div y
Mul(x, y) == IF Abs(x) <= 46000 /\ Abs(y) <= 46000 THEN Div(x * y, FIX) ELSE Div(Div(x, 10) * Div(y, 10), FIX \div 100)
RECURSIVE Power(_, _)
Power(x, n) == IF n = 0 THEN FIX ELSE IF n = 1 THEN x ELSE Mul(x, Power(x, n - 1))
\* polynomials: sequences of [c, m], m the exponents of the variables v
RECURSIVE Mono(_, _, _)
Mono(m, v, n) == IF n = 0 THEN FIX ELSE IF m[n] = 0 THEN Mono(m, v, n - 1) ELSE Mul(Power(v[n], m[n]), Mono(m, v, n - 1))
RECURSIVE PolyN(_, _, _)
PolyN(p, v, n) == IF n = 0 THEN 0 ELSE p[n].c * Mono(p[n].m, v, Len(v)) + PolyN(p, v, n - 1)
Poly(p, v) == PolyN(p, v, Len(p))
\* a component is a sum of products of polynomials
RECURSIVE Times(_, _, _)
Times(fs, v, n) == IF n = 1 THEN Poly(fs[1], v) ELSE Mul(Poly(fs[n], v), Times(fs, v, n - 1))
RECURSIVE SumOf(_, _, _)
SumOf(ps, v, n) == IF n = 0 THEN 0 ELSE Times(ps[n], v, Len(ps[n])) + SumOf(ps, v, n - 1)
Value(comp, v) == SumOf(comp, v, Len(comp))
\* row-major positions
RECURSIVE Stride(_, _)
Stride(shape, a) == IF a >= Len(shape) THEN 1 ELSE shape[a + 1] * Stride(shape, a + 1)
Index(shape, pos, a) == (((pos - 1) \div Stride(shape, a)) % shape[a]) + 1       \* index along axis a of flat position pos
RECURSIVE FlatN(_, _, _)
FlatN(shape, idx, n) == IF n = 0 THEN 0 ELSE (idx[n] - 1) * Stride(shape, n) + FlatN(shape, idx, n - 1)
Position(shape, idx) == 1 + FlatN(shape, idx, Len(shape))
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Join(Tail(s))
\* --- shapes and labels.  axes[a] = [name, kname, n, constant]; how = [grid, scale] per axis, scale = <<num, den>>
Ceil(p, q) == (p + q - 1) \div q
GridSize(n, s) == Ceil(n * s[1], s[2])
Label(ax, grid) == IF ax.constant THEN "constant" ELSE IF grid THEN ax.name ELSE ax.kname
AxisSize(ax, grid, s) == IF ax.constant THEN 1 ELSE GridSize(ax.n, s)
\* --- data: what the file holds at every position is what the owner of that position holds
Assembled(data, shape, comps, parts, tol) ==
    \A r \in DOMAIN parts : LET p == parts[r] ls == [a \in DOMAIN shape |-> Len(p.el[a])] n == Size(ls) N == Size(shape) IN
        \A k \in 1..comps : \A i \in 1..n :
            LET g == (k - 1) * N + Position(shape, [a \in DOMAIN shape |-> p.el[a][Index(ls, i, a)] + 1]) q == p.data[(k - 1) * n + i] IN
            Near(data[g][1], q[1], tol) /\ Near(data[g][2], q[2], tol)
RECURSIVE Held(_, _)
Held(parts, n) == IF n = 0 THEN 0 ELSE Size([a \in DOMAIN parts[n].el |-> Len(parts[n].el[a])]) + Held(parts, n - 1)
Covered(shape, parts) == Held(parts, Len(parts)) = Size(shape)
\* grid data is the denoted function at the recorded coordinates; coords[a][i] = variables of the i-th point along axis a
Denotes(data, shape, fn, coords, tol) ==
    \A k \in DOMAIN fn : \A i \in 1..Size(shape) :
        LET v == Join([a \in DOMAIN shape |-> coords[a][Index(shape, i, a)]]) d == data[(k - 1) * Size(shape) + i] IN
        Near(d[1], Value(fn[k], v), tol) /\ Near(d[2], 0, tol)
\* coefficients of modes the function does not contain vanish: orders[a] the mode numbers it contains along axis a ({} = unknown)
Supported(data, shape, comps, modes, orders) ==
    \A k \in 1..comps : \A i \in 1..Size(shape) : LET d == data[(k - 1) * Size(shape) + i] IN
        (Abs(d[1]) > 5 \/ Abs(d[2]) > 5) => \A a \in DOMAIN shape : orders[a] = <<>> \/ \E j \in DOMAIN orders[a] : orders[a][j] = modes[a][i]
=============================================================================
