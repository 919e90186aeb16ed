// (Higher-order definitions are never nested in themselves: the simulator does not support it.)
// Timestepping schemes, on fixed-point numbers with thirty decimals (Quint integers are unbounded).
// The coefficients are defined by what they mean (interpolation through the past times), not by closed formulas.
module Schemes {
  pure val ONE = 1000000000000000000000000000000
  pure def mul(x: int, y: int): int = (x * y) / ONE
  pure def div(x: int, y: int): int = (x * ONE) / y
  pure def frac(n: int, d: int): int = (n * ONE) / d
  pure def abs(x: int): int = if (x < 0) -x else x
  pure def sum(l: List[int]): int = l.foldl(0, (s, x) => s + x)
  pure def prod(l: List[int]): int = l.foldl(ONE, (s, x) => mul(s, x))
  pure def power(x: int, n: int): int = range(0, n).foldl(ONE, (s, _) => mul(s, x))
  pure def tab(n: int, f: (int) => int): List[int] = range(0, n).foldl([], (l, i) => l.append(f(i)))
  pure def min2(a: int, b: int): int = if (a < b) a else b

  // --- multistep: sum a_j M X(n-j) + b_j L X(n-j) = sum c_j F(n-j), ks = timesteps, latest first
  type Coeffs = { a: List[int], b: List[int], c: List[int] }
  // time of X(n-j) relative to the new time
  pure def node(ks: List[int], j: int): int = -sum(ks.slice(0, j))
  pure def others(n: int, i: int, j: int): List[int] = range(0, n).select(m => m != i and m != j)
  // derivative at node p of the interpolant through nodes 0..s: weight of node j
  pure def derivative(ks: List[int], s: int, p: int, j: int): int =
    if (j == p)
      others(s + 1, p, p).foldl(0, (x, m) => x + div(ONE, node(ks, p) - node(ks, m)))
    else
      div(others(s + 1, p, j).foldl(ONE, (x, m) => mul(x, div(node(ks, p) - node(ks, m), node(ks, j) - node(ks, m)))), node(ks, j) - node(ks, p))
  // extrapolation to the new time from nodes 1..s: weight of node j
  pure def extrapolate(ks: List[int], s: int, j: int): int =
    others(s + 1, 0, j).foldl(ONE, (x, m) => mul(x, div(-node(ks, m), node(ks, j) - node(ks, m))))
  pure def sbdf(ks: List[int], s: int): Coeffs = {
    a: tab(s + 1, j => derivative(ks, s, 0, j)), b: tab(s + 1, j => if (j == 0) ONE else 0), c: tab(s + 1, j => if (j == 0) 0 else extrapolate(ks, s, j)) }
  pure def cnab1(ks: List[int]): Coeffs = { a: [div(ONE, ks[0]), -div(ONE, ks[0])], b: [ONE / 2, ONE / 2], c: [0, ONE] }
  // mean over the step of the line through the last two values
  pure def ab2(ks: List[int]): List[int] = [0, ONE + div(ks[0], 2 * ks[1]), -div(ks[0], 2 * ks[1])]
  pure def coeffs(scheme: str, ks: List[int], done: int): Coeffs =
    if (scheme == "SBDF1") sbdf(ks, 1)
    else if (scheme == "SBDF2") sbdf(ks, min2(2, done + 1))
    else if (scheme == "SBDF3") sbdf(ks, min2(3, done + 1))
    else if (scheme == "SBDF4") sbdf(ks, min2(4, done + 1))
    else if (scheme == "CNAB1" or done == 0) cnab1(ks)
    else if (scheme == "CNAB2") { a: [div(ONE, ks[0]), -div(ONE, ks[0]), 0], b: [ONE / 2, ONE / 2, 0], c: ab2(ks) }
    else if (scheme == "MCNAB2") { a: [div(ONE, ks[0]), -div(ONE, ks[0]), 0],
                                   b: [(8 * ONE + div(ks[1], ks[0])) / 16, (7 * ONE - div(ks[1], ks[0])) / 16, ONE / 16], c: ab2(ks) }
    // leap-frog: slope at the middle time, implicit term averaged over the outer ones
    else { a: tab(3, j => derivative(ks, 2, 1, j)), b: [div(ks[1], 2 * ks[0]), (ONE - div(ks[1], ks[0])) / 2, ONE / 2], c: [0, ONE, 0] }
  pure def order(scheme: str, done: int): int =
    if (scheme == "SBDF1" or scheme == "CNAB1" or done == 0) 1
    else if (scheme == "SBDF3") min2(3, done + 1)
    else if (scheme == "SBDF4") min2(4, done + 1)
    else 2
  pure val MULTISTEP = Set("CNAB1", "SBDF1", "CNAB2", "MCNAB2", "SBDF2", "CNLF2", "SBDF3", "SBDF4")
  // order conditions: polynomials in time up to the order are advanced exactly
  pure def isClose(x: int, y: int): bool = abs(x - y) < 1000000000000
  pure def consistent(q: Coeffs, ks: List[int], p: int): bool = and {
    isClose(sum(q.a), 0), isClose(sum(q.b), ONE), isClose(sum(q.c), ONE),
    1.to(p).forall(r => and {
      isClose(sum(tab(q.a.length(), j => mul(q.a[j], power(node(ks, j), r)))), r * sum(tab(q.b.length(), j => mul(q.b[j], power(node(ks, j), r - 1))))),
      isClose(sum(tab(q.a.length(), j => mul(q.a[j], power(node(ks, j), r)))), r * sum(tab(q.c.length(), j => mul(q.c[j], power(node(ks, j), r - 1))))) }) }

  // --- Runge-Kutta: M X_i = M X_0 + k sum_j A_ij F_j - H_ij L X_j, X(n+1) = X_s
  type Tableau = { s: int, c: List[int], A: List[List[int]], H: List[List[int]] }
  // square root of one half
  pure val RH = 707106781186547524400844362105
  pure val G = ONE - RH
  pure val DL = ONE - div(ONE, 2 * G)
  pure def row(l: List[(int, int)]): List[int] = tab(l.length(), i => frac(l[i]._1, l[i]._2))
  pure def tableau(scheme: str): Tableau =
    if (scheme == "RK111") { s: 1, c: [0, ONE], A: [[0, 0], [ONE, 0]], H: [[0, 0], [0, ONE]] }
    else if (scheme == "RK222") { s: 2, c: [0, G, ONE], A: [[0, 0, 0], [G, 0, 0], [DL, ONE - DL, 0]], H: [[0, 0, 0], [0, G, 0], [0, ONE - G, G]] }
    else if (scheme == "RK443") { s: 4, c: row([(0, 1), (1, 2), (2, 3), (1, 2), (1, 1)]),
      A: [[0, 0, 0, 0, 0], row([(1, 2), (0, 1), (0, 1), (0, 1), (0, 1)]), row([(11, 18), (1, 18), (0, 1), (0, 1), (0, 1)]),
          row([(5, 6), (-5, 6), (1, 2), (0, 1), (0, 1)]), row([(1, 4), (7, 4), (3, 4), (-7, 4), (0, 1)])],
      H: [[0, 0, 0, 0, 0], row([(0, 1), (1, 2), (0, 1), (0, 1), (0, 1)]), row([(0, 1), (1, 6), (1, 2), (0, 1), (0, 1)]),
          row([(0, 1), (-1, 2), (1, 2), (1, 2), (0, 1)]), row([(0, 1), (3, 2), (-3, 2), (1, 2), (1, 2)])] }
    else if (scheme == "RKSMR") { s: 3, c: row([(0, 1), (8, 15), (2, 3), (1, 1)]),
      A: [[0, 0, 0, 0], row([(8, 15), (0, 1), (0, 1), (0, 1)]), row([(1, 4), (5, 12), (0, 1), (0, 1)]), row([(1, 4), (0, 1), (3, 4), (0, 1)])],
      H: [[0, 0, 0, 0], row([(29, 96), (37, 160), (0, 1), (0, 1)]), row([(29, 96), (25, 160), (5, 24), (0, 1)]), row([(29, 96), (25, 160), (9, 24), (1, 6)])] }
    else { s: 2, c: [0, ONE, ONE], A: [[0, 0, 0], [ONE, 0, 0], [ONE / 2, ONE / 2, 0]], H: [[0, 0, 0], [ONE / 2, ONE / 2, 0], [ONE / 2, 0, ONE / 2]] }
  pure val RUNGEKUTTA = Set("RK111", "RK222", "RK443", "RKSMR", "RKGFY")
  pure def rkOrder(scheme: str): (int, int) = // explicit, implicit
    if (scheme == "RK111") (1, 1) else if (scheme == "RK443") (3, 3) else if (scheme == "RKSMR") (3, 2) else (2, 2)
  pure def inner(w: List[int], v: List[int]): int = range(0, w.length()).foldl(0, (s, j) => s + mul(w[j], v[j]))
  pure def along(m: List[List[int]], v: List[int]): List[int] = range(0, m.length()).foldl([], (l, i) => l.append(range(0, v.length()).foldl(0, (s, k) => s + mul(m[i][k], v[k]))))
  pure def rkOk(scheme: str): bool =
    val t = tableau(scheme)
    val b = [t.A[t.s], t.H[t.s]]
    val X = [t.A, t.H]
    val o = rkOrder(scheme)
    val both = min2(o._1, o._2)
    and {
      t.c[t.s] == ONE,
      // stages are consistent, explicit and diagonally implicit
      0.to(t.s).forall(i => isClose(sum(t.A[i]), t.c[i]) and isClose(sum(t.H[i]), t.c[i])
                             and 0.to(t.s).forall(j => (j >= i implies t.A[i][j] == 0) and (j > i implies t.H[i][j] == 0))),
      Set(0, 1).forall(x => and {
        val p = if (x == 0) o._1 else o._2
        and { isClose(sum(b[x]), ONE),
          p >= 2 implies isClose(inner(b[x], t.c), ONE / 2),
          p >= 3 implies isClose(inner(b[x], tab(t.s + 1, j => mul(t.c[j], t.c[j]))), ONE / 3),
          Set(0, 1).forall(y => ((x == 0 and y == 0 and p >= 3) or both >= 3) implies isClose(inner(b[x], along(X[y], t.c)), ONE / 6)) } }) }

  // --- the two steps as maps
  // A problem is a list of 2x2 blocks M X' + L X = F(X, t); F is a polynomial.
  type Block = { M: List[List[int]], L: List[List[int]] }
  type Term = { c: int, e: List[int], t: int }
  type Problem = { blocks: List[Block], F: List[List[Term]] }
  pure def apply(m: List[List[int]], x: List[int], o: int): List[int] = [mul(m[0][0], x[o]) + mul(m[0][1], x[o + 1]), mul(m[1][0], x[o]) + mul(m[1][1], x[o + 1])]
  pure def over(P: Problem, f: (Block, int) => List[int]): List[int] = range(0, P.blocks.length()).foldl([], (l, i) => l.concat(f(P.blocks[i], 2 * i)))
  pure def MX(P: Problem, x: List[int]): List[int] = over(P, (b, o) => apply(b.M, x, o))
  pure def LX(P: Problem, x: List[int]): List[int] = over(P, (b, o) => apply(b.L, x, o))
  pure def FX(P: Problem, x: List[int], t: int): List[int] = range(0, P.F.length()).foldl([], (l, i) => l.append(
    P.F[i].foldl(0, (s, m) => s + mul(m.c, mul(power(t, m.t), range(0, m.e.length()).foldl(ONE, (y, v) => if (m.e[v] == 0) y else mul(y, power(x[v], m.e[v]))))))))
  // solution of (p M + q L) X = r by blocks
  pure def solve(P: Problem, p: int, q: int, r: List[int]): List[int] = over(P, (b, o) =>
    val m = [[mul(p, b.M[0][0]) + mul(q, b.L[0][0]), mul(p, b.M[0][1]) + mul(q, b.L[0][1])], [mul(p, b.M[1][0]) + mul(q, b.L[1][0]), mul(p, b.M[1][1]) + mul(q, b.L[1][1])]]
    val d = mul(m[0][0], m[1][1]) - mul(m[0][1], m[1][0])
    [div(mul(m[1][1], r[o]) - mul(m[0][1], r[o + 1]), d), div(mul(m[0][0], r[o + 1]) - mul(m[1][0], r[o]), d)])
  pure def addTo(u: List[int], s: int, v: List[int]): List[int] = tab(u.length(), i => u[i] + mul(s, v[i]))
  pure def zero(n: int): List[int] = tab(n, i => 0)
  // hist: records of (X, t) before each step, latest first (the current state at the front)
  type Point = { x: List[int], t: int }
  pure def multistep(P: Problem, scheme: str, hist: List[Point], ks: List[int], done: int): List[int] =
    val q = coeffs(scheme, ks, done)
    val n = hist[0].x.length()
    solve(P, q.a[0], q.b[0],
      range(1, q.a.length()).foldl(zero(n), (r, j) =>
        addTo(addTo(addTo(r, q.c[j], FX(P, hist[j - 1].x, hist[j - 1].t)), -q.a[j], MX(P, hist[j - 1].x)), -q.b[j], LX(P, hist[j - 1].x))))
  pure def rungekutta(P: Problem, scheme: str, x0: List[int], t0: int, k: int): List[int] =
    val T = tableau(scheme)
    val base = MX(P, x0)
    val st = range(1, T.s + 1).foldl([x0], (xs, i) =>
      xs.append(solve(P, ONE, mul(k, T.H[i][i]),
        range(0, i).foldl(base, (r, j) => addTo(addTo(r, mul(k, T.A[i][j]), FX(P, xs[j], t0 + mul(k, T.c[j]))), -mul(k, T.H[i][j]), LX(P, xs[j]))))))
    st[T.s]
}
