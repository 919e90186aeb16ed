// Design check of the schemes: order conditions for every sequence of timesteps from a set, and every tableau.
module SchemesTest {
  import Schemes.* from "./Schemes"
  pure val KS = Set(1, 3, 8, 50)
  pure def ks(a: int, b: int, c: int, d: int): List[int] = [frac(a, 16), frac(b, 16), frac(c, 16), frac(d, 16)]
  run orderTest = all {
    assert(MULTISTEP.forall(s => tuples(KS, KS, KS, KS).forall(q => 0.to(3).forall(done =>
      consistent(coeffs(s, ks(q._1, q._2, q._3, q._4), done), ks(q._1, q._2, q._3, q._4), order(s, done)))))),
    // constant timesteps give the classical formulas
    assert(val q = coeffs("SBDF2", ks(4, 4, 4, 4), 5) q.a == [6 * ONE, -8 * ONE, 2 * ONE] and q.c == [0, 2 * ONE, -ONE]),
    assert(val q = coeffs("SBDF4", ks(16, 16, 16, 16), 5) isClose(q.a[0], frac(25, 12)) and isClose(q.a[4], frac(1, 4)) and isClose(q.c[1], 4 * ONE)),
    assert(val q = coeffs("CNLF2", ks(16, 16, 16, 16), 5) q.a == [ONE / 2, 0, -ONE / 2] and q.b == [ONE / 2, 0, ONE / 2]),
    assert(val q = coeffs("MCNAB2", ks(16, 16, 16, 16), 5) q.b == [frac(9, 16), frac(3, 8), frac(1, 16)]),
  }
  run tableauTest = all { assert(isClose(mul(RH, RH), ONE / 2)), assert(RUNGEKUTTA.forall(s => rkOk(s))) }
  // a scheme of order p reproduces polynomial solutions of degree p whatever the timesteps
  pure def poly(p: int): Problem = { blocks: [{ M: [[ONE, 0], [0, ONE]], L: [[0, 0], [ONE, 0]] }],
    F: [[{ c: p * ONE, e: [0, 0], t: p - 1 }], [{ c: p * ONE, e: [0, 0], t: p - 1 }, { c: ONE, e: [0, 0], t: p }]] }
  pure def exact(p: int, t: int): List[int] = [power(t, p), power(t, p)]
  run polynomialTest = all {
    // first-order ramp is exact for p = 1
    assert(MULTISTEP.forall(s => KS.forall(k =>
      val x = multistep(poly(1), s, [{ x: exact(1, frac(3, 4)), t: frac(3, 4) }], [frac(k, 16)], 0) isClose(x[0], frac(12 + k, 16)))))
  }
}
