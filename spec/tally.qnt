// What a whole run must preserve whatever its grid, order and treatment: in an
// infinite scattering medium the number of particles, their mean position and
// their mean square position obey closed equations
//   N' = -(sT - sS) N + s           X' = A - sT X          X = <x mu>
//   Q' = 2 X - (sT - sS) Q + s var  A' = -sT A + sS N/3 + s/3   A = <mu^2>
// (any rule of directions that integrates mu^2), which the Galerkin method
// keeps exactly when x^2 is in its space.  A trace is one physical problem run
// again and again with different grids, orders, directions and treatments.
module tally {
  import fx.* from "./fx"
  import grid.* from "./grid"

  type Sums = { n: int, x: int, q: int, a: int }
  type Way = { moving: bool, analytic: bool, cells: int, m: int, ang: int, lob: bool, integrator: str }
  var kind: str
  var x0: int
  var sigma: int
  var strength: int
  var sigT: int
  var sigS: int
  var tf: int
  var t0: int
  var way: Way
  var cfg: Cfg
  var total: Sums
  var left: Sums               // on the grid: what the analytic solution does not carry
  var tight: int
  var fine: bool               // smooth problem: fluxes of different ways agree
  var step_: int

  pure def variance(kind: str, x0: int, sigma: int): int = if (kind == "gaussIC" or kind == "gaussSrc") half(sq(sigma)) else quo(sq(x0), 3)
  pure def amount(kind: str, x0: int, sigma: int, strength: int): int =
    mul(strength, if (kind == "plane") S else if (kind == "gaussIC" or kind == "gaussSrc") mul(sigma, SQRTPI) else 2 * x0)
  pure def rates(y: Sums, sT: int, sS: int, s: int, var_: int): Sums = {
    n: s - mul(sT - sS, y.n), x: y.a - mul(sT, y.x), q: 2 * y.x - mul(sT - sS, y.q) + mul(s, var_),
    a: quo(mul(sS, y.n) + s, 3) - mul(sT, y.a)
  }
  pure def moved(y: Sums, d: Sums, h: int): Sums =
    { n: y.n + mul(h, d.n), x: y.x + mul(h, d.x), q: y.q + mul(h, d.q), a: y.a + mul(h, d.a) }
  pure def carry(y0: Sums, sT: int, sS: int, s: int, var_: int, span: int, steps: int): Sums = {
    val h = quo(span, steps)
    range(0, steps).foldl(y0, (y, _) => {
      val k1 = rates(y, sT, sS, s, var_)
      val k2 = rates(moved(y, k1, half(h)), sT, sS, s, var_)
      val k3 = rates(moved(y, k2, half(h)), sT, sS, s, var_)
      val k4 = rates(moved(y, k3, h), sT, sS, s, var_)
      moved(y, { n: k1.n + 2 * (k2.n + k3.n) + k4.n, x: k1.x + 2 * (k2.x + k3.x) + k4.x,
                 q: k1.q + 2 * (k2.q + k3.q) + k4.q, a: k1.a + 2 * (k2.a + k3.a) + k4.a }, quo(h, 6))
    })
  }
  pure val EMPTY: Sums = { n: 0, x: 0, q: 0, a: 0 }
  pure def isSource(kind: str): bool = kind == "squareSrc" or kind == "gaussSrc"
  pure def at(kind: str, x0: int, sigma: int, strength: int, sT: int, sS: int, t0: int, t: int): Sums = {
    val w = amount(kind, x0, sigma, strength)
    val v = variance(kind, x0, sigma)
    if (isSource(kind)) {
      val on = carry(EMPTY, sT, sS, w, v, imin(t, t0), 24)
      if (t > t0) carry(on, sT, sS, 0, v, t - t0, 24) else on
    } else carry({ n: w, x: 0, q: mul(w, v), a: quo(w, 3) }, sT, sS, 0, v, t, 32)
  }
  pure def minus(a: Sums, b: Sums): Sums = { n: a.n - b.n, x: a.x - b.x, q: a.q - b.q, a: a.a - b.a }
  pure def someWay(seed: int, kind: str, x0: int, unitMedium: bool): Way = {
    // the box of a point pulse on a fixed grid depends on its cells
    val mov = hash(seed, 1) % 2 == 0 or kind == "plane"
    // the front of a point pulse fills the grid only when it starts as a point
    val ana = if (kind == "plane") x0 < rat(1, 1000000) else unitMedium and hash(seed, 2) % 2 == 0
    val sq_ = kind == "squareIC" or kind == "squareSrc"
    val ang = 4 + 2 * (hash(seed, 3) % 3)
    { moving: mov, analytic: ana, cells: if (sq_) 4 * (1 + hash(seed, 4) % 2) else (if (kind == "plane") 2 else if (mov) 8 else 12) + 2 * (hash(seed, 4) % 3), m: 2 + hash(seed, 5) % 3,
      ang: ang, lob: hash(seed, 6) % 2 == 0, integrator: if (hash(seed, 7) % 2 == 0) "RK45" else "DOP853" }
  }
  // how closely: rules for projections, and cells that a front crosses on a fixed grid
  pure def closeness(kind: str, w: Way): int = {
    val smooth_ = kind == "gaussIC" or kind == "gaussSrc"
    if (w.analytic) (if (smooth_) rat(5, 1000) else if (kind == "plane") rat(1, 100000) else if (w.moving) rat(1, 1000) else rat(5, 100))
    else if (smooth_) (if (w.moving) rat(1, 1000) else rat(2, 1000)) else if (w.moving) rat(1, 100000) else rat(6, 100)
  }
  action show(k, a, g, b, sT, sS, tt, ts, w, i) = {
    val all_ = at(k, a, g, b, sT, sS, ts, tt)
    all {
      kind' = k, x0' = a, sigma' = g, strength' = b, sigT' = sT, sigS' = sS, tf' = tt, t0' = ts, way' = w,
      cfg' = { lay: k, n: w.cells, x0: a, v: S, tf: tt, t0: ts, pad: a + S, finite: false, width: 2 * a + 5 * S, moving: w.moving,
               thick: false, sphere: false, v0: 0, root: false, factor: S },
      total' = all_, left' = if (w.analytic) minus(all_, at(k, a, g, b, sT, 0, ts, tt)) else all_,
      tight' = closeness(k, w), fine' = (k == "gaussIC" or k == "gaussSrc"), step_' = i
    }
  }
  action init = {
    nondet seed = 1.to(1000000).oneOf()
    nondet k = Set("plane", "squareIC", "gaussIC", "squareSrc", "gaussSrc").oneOf()
    nondet unitMedium = Set(true, true, false).oneOf()
    val g = rndIn(seed, 1, rat(3, 10), rat(6, 10))
    val a = if (k == "plane") (if (unitMedium) rat(1, 100000000) else rat(1, 100)) else if (k == "gaussIC" or k == "gaussSrc") 5 * g else rndIn(seed, 2, rat(3, 10), S)
    val tt = rndIn(seed, 3, HALF, rat(3, 2))
    val sT = if (unitMedium) S else rndIn(seed, 4, rat(1, 4), 2 * S)
    show(k, a, g, rndIn(seed, 5, HALF, 3 * S), sT, mul(sT, rndIn(seed, 6, rat(2, 10), S)), tt,
         mul(tt, rndIn(seed, 7, rat(3, 10), rat(13, 10))), someWay(seed, k, a, unitMedium), 0)
  }
  action step = {
    nondet seed = 1.to(1000000).oneOf()
    show(kind, x0, sigma, strength, sigT, sigS, tf, t0, someWay(seed, kind, x0, sigT == S), step_ + 1)
  }

  // ---- properties -----------------------------------------------------------------
  // closed forms
  val number = {
    val w = amount(kind, x0, sigma, strength)
    val d = sigT - sigS
    not(isSource(kind)) implies abs(total.n - mul(w, exp(0 - mul(d, tf)))) <= rat(1, 1000000)
  }
  val spread = (not(isSource(kind)) and sigT == sigS) implies {
    val z = mul(sigT, tf)
    abs(total.q - mul(total.n, variance(kind, x0, sigma) + div(div(quo(2 * (z - S + exp(0 - z)), 3), sigT), sigT))) <= rat(1, 1000000)
  }
  val parts = left.n >= 0 - rat(1, 1000000000) and left.n <= total.n and left.q <= total.q + rat(1, 1000000000)
  val safe = legal(cfg) and number and spread and parts
}
