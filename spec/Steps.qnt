// Machine of an integrator: the state, its bounded history and the cached factorization.
// Steps read the history through a ring of slots; the declared history is kept beside it in full.
module Steps {
  import Schemes.* from "./Schemes"
  pure val KS = Set(frac(1, 16), frac(1, 8), frac(3, 8))
  pure def slots(s: str): int = if (s == "SBDF4") 4 else if (s == "SBDF3") 3 else if (Set("CNAB1", "SBDF1").contains(s)) 1 else if (RUNGEKUTTA.contains(s)) 1 else 2
  var scheme: str
  var cur: int               // identity of the current state
  var past: List[int]        // states stepped from, latest first
  var dts: List[int]         // their timesteps
  var ring: List[int]        // slots, latest first; -1 when never written
  var ringDt: List[int]
  var key: (int, int)        // parameters of the cached factorization
  var factored: (int, int)   // matrices it was built from
  var done: int
  var ident: int
  pure def lhs(s: str, ks: List[int], d: int): (int, int) = if (RUNGEKUTTA.contains(s)) (ONE, ks[0]) else val q = coeffs(s, ks, d) (q.a[0], q.b[0])
  pure def shift(l: List[int], x: int): List[int] = [x].concat(l.slice(0, l.length() - 1))
  action init = {
    nondet s = oneOf(MULTISTEP.union(RUNGEKUTTA))
    all { scheme' = s, cur' = 0, past' = [], dts' = [], ring' = tab(slots(s), i => -1), ringDt' = tab(slots(s), i => 0), key' = (0, 0), factored' = (0, 0), done' = 0, ident' = 1 }
  }
  // a step: the slots and timesteps rotate, the factorization is rebuilt when its parameters change
  action stepAny = {
    nondet k = oneOf(KS)
    val rd = shift(ringDt, k)
    val need = lhs(scheme, rd, done)
    all { scheme' = scheme, past' = [cur].concat(past), dts' = [k].concat(dts), ring' = shift(ring, cur), ringDt' = rd,
          key' = need, factored' = if (need == key) factored else need, done' = done + 1, cur' = ident, ident' = ident + 1 }
  }
  // the user replaces the state between steps: history is untouched
  action setState = all { scheme' = scheme, past' = past, dts' = dts, ring' = ring, ringDt' = ringDt, key' = key, factored' = factored, done' = done, cur' = ident, ident' = ident + 1 }
  action step = any { stepAny, setState }
  val used = min2(done, slots(scheme))
  val ringIsHistory = ring.slice(0, used) == past.slice(0, used) and ringDt.slice(0, used) == dts.slice(0, used)
  // the coefficients only refer to slots that were written, and equal those of the full history
  val reach = coeffs(scheme, dts, done - 1).a.length() - 1
  val inReach = done == 0 or RUNGEKUTTA.contains(scheme) or reach <= done
  val fresh = done == 0 or factored == lhs(scheme, dts, done - 1)
  val Inv = ringIsHistory and inReach and fresh
}
