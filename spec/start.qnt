// The coefficients a run starts from.
module start {
  import fx.* from "./fx"
  import quadtab.* from "./quadtab"
  import grid.* from "./grid"
  import dg.* from "./dg"

  type Init = { kind: str, analytic: bool, beamed: bool, m: int, nq: int, ang: int, lob: bool, sigma: int, strength: int,
                energy: bool, e0: int }
  var cfg: Cfg
  var init0: Init
  var edges: List[int]
  var coefs: List[List[List[int]]]     // [direction (and energy)][cell][j]
  var number: int                      // of particles, in closed form
  var numberKnown: bool
  var tight: int
  var ok: List[bool]                   // no node next to a jump

  pure def dirs(p: Init): List[int] = if (p.lob) lobx(p.ang) else glx(p.ang)
  // half width of the box that stands for a point pulse
  pure def box(p: Init, c: Cfg, g: List[int]): int =
    if (c.lay == "plane" and not(c.moving) and c.n % 2 == 0) {
      if (c.sphere) g[1] - g[0] else imin(g[c.n / 2 + 1] - g[c.n / 2 - 1], g[c.n])
    } else c.x0
  // intensity of a direction: half of the scalar flux in the slab
  pure def density(p: Init, c: Cfg, g: List[int], x: int, mu: int): int =
    if (p.analytic) 0
    else if (c.sphere) {
      if (c.lay == "squareIC") { if (x > 0 and x <= c.x0) div(3 * p.strength, 8 * mul(PI, mul(c.x0, sq(c.x0)))) else 0 }
      else { val b = box(p, c, g)
        if (x > 0 and x <= b) div(p.strength, mul(b, sq(b))) else 0 }
    }
    else if (c.lay == "plane") { val b = box(p, c, g)
      if (x > -b and x <= b) div(p.strength, 4 * b) else 0 }
    else if (c.lay == "squareIC") { if (x > -c.x0 and x <= c.x0) half(p.strength) else 0 }
    else if (c.lay == "gaussIC") {
      val f = mul(p.strength, exp(0 - quo(sq(x) * S, sq(p.sigma))))
      if (p.beamed) (if (mu > 0) f else 0) else half(f)
    }
    else if (c.lay == "mms") half(exp(0 - half(sq(x))))
    else if (c.lay == "dipole") { val b = g[c.n / 2 + 1] - g[c.n / 2]
      div((if (x > 0 and x <= b) half(p.strength) else if (x > -b and x <= 0) 0 - half(p.strength) else 0), b) }
    else 0
  pure def nodeAt(p: Init, c: Cfg, k: int): int = if (c.sphere) cos(quo((2 * k + 1) * PI, 2 * p.nq)) else glx(p.nq)[k]
  pure def cell(p: Init, c: Cfg, g: List[int], k: int, mu: int): List[int] = {
    val a = g[k]
    val b = g[k + 1]
    if (c.sphere) {
      val z = tab(p.nq, i => nodeAt(p, c, i))
      val q = tab(p.nq, i => chebAll(p.m, z[i]))
      val f = tab(p.nq, i => density(p, c, g, atNode(z[i], a, b), mu))
      val r = div(mul(b - a, quo(PI, p.nq)), sqrt(mul(PI, b - a)))
      tab(p.m + 1, j => mul(mul(r, edgeRoot(j)), sum(tab(p.nq, i => mul(f[i], q[i][j])))))
    } else moments(p.m, p.nq, tab(p.nq, i => density(p, c, g, atNode(glx(p.nq)[i], a, b), mu)), b - a)
  }
  pure def project(p: Init, c: Cfg, g: List[int]): List[List[List[int]]] = {
    val mu = dirs(p)
    // without a preferred direction every direction starts alike
    val any_ = tab(c.n, k => cell(p, c, g, k, S))
    val base = tab(p.ang, l => if (p.beamed and mu[l] <= 0) tab(c.n, _ => tab(p.m + 1, _ => 0)) else any_)
    if (p.energy) base.append(tab(c.n, k => tab(p.m + 1, j => if (j == 0) mul(p.e0, sqrt(g[k + 1] - g[k])) else 0))) else base
  }
  // places where the condition jumps, away from the edges
  pure def jumps(p: Init, c: Cfg, g: List[int]): List[int] =
    if (p.analytic) List() else if (c.lay == "squareIC") List(c.x0, 0 - c.x0)
    else if (c.lay == "plane") List(box(p, c, g), 0 - box(p, c, g))
    else if (c.lay == "dipole") { val b = g[c.n / 2 + 1] - g[c.n / 2]
      List(b, 0 - b, 0) }
    else List()
  pure def known(p: Init, c: Cfg, g: List[int]): bool = p.analytic or (not(p.beamed and p.ang % 2 == 1) and not(c.sphere) and not(c.lay == "dipole") and not(c.lay == "mms" or c.lay == "gaussIC" and (p.nq < 10 or g[1] - g[0] > 3 * p.sigma))
    and not(c.lay == "squareIC" and not(c.moving) and c.finite))
  pure def theNumber(p: Init, c: Cfg, g: List[int]): int =
    if (p.analytic) 0
    else if (c.lay == "plane") p.strength
    else if (c.lay == "squareIC") mul(p.strength, 2 * c.x0)
    else if (c.lay == "gaussIC") mul(p.strength, mul(mul(p.sigma, SQRTPI), erf(div(g[c.n], p.sigma))))
    else 0

  action problem = {
    nondet seed = 1.to(1000000).oneOf()
    nondet pickk = Set("plane", "plane@", "squareIC", "squareIC#", "squareIC@", "squareIC@2", "gaussIC", "gaussIC#", "gaussIC##", "mms", "dipole",
                       "squareSrc", "gaussSrc", "boundary").oneOf()
    nondet m0 = 0.to(9).oneOf()
    val m = if (m0 == 9) 12 else m0
    nondet ang = Set(2, 3, 4, 5, 8, 12).oneOf()
    nondet lob = Set(true, false).oneOf()
    nondet nr = Set(1, 2, 3, 4, 5, 8, 11).oneOf()
    nondet mov = Set(true, false).oneOf()
    nondet ana = Set(true, false, false, false).oneOf()
    nondet en = Set(true, false, false).oneOf()
    nondet fin = Set(true, false).oneOf()
    val sph = pickk == "squareIC@" or pickk == "squareIC@2" or pickk == "plane@"
    val lay = if (pickk == "squareIC#" or pickk == "squareIC@" or pickk == "squareIC@2") "squareIC" else if (pickk == "plane@") "plane"
              else if (pickk == "gaussIC#" or pickk == "gaussIC##") "gaussIC" else pickk
    val square = lay == "squareIC" or lay == "squareSrc"
    val n = if (square and sph) 3 + nr else if (square) (if (nr > 8) 16 else if (nr > 5) 12 else if (nr > 2) 8 else 4)
            else if (lay == "boundary") 2 else if (lay == "dipole") 4 + 2 * (nr / 2)
            else if (lay == "plane" and not(mov)) 2 + 2 * (nr / 2) else nr
    val x0 = if (lay == "plane") rat(1, 100000) else rndIn(seed, 1, rat(2, 10), 2 * S)
    val tf = rndIn(seed, 2, S, 8 * S)
    val c = {
      lay: lay, n: n, x0: x0, v: rndIn(seed, 4, HALF, rat(3, 2)), tf: tf, t0: half(tf), pad: x0 + rat(3, 2),
      finite: fin and square, width: 2 * (x0 + rat(3, 2)) + rndIn(seed, 5, rat(5, 10), 3 * S),
      moving: if (lay == "dipole") false else mov, thick: false, sphere: sph,
      v0: if (lay == "boundary") mul(rnd(seed, 6), quo(x0 * S, 2 * tf)) else 0, root: false, factor: S
    }
    val p = {
      kind: lay, analytic: if (lay == "mms" or lay == "dipole") false else if (sph and lay == "plane") false else ana, beamed: pickk == "gaussIC##", m: m,
      nq: imax(m + 1, 4 + rndInt(seed, 7, 12)), ang: ang, lob: lob and ang > 2, sigma: rndIn(seed, 8, rat(3, 10), rat(3, 2)),
      strength: rndIn(seed, 9, HALF, 3 * S), energy: en and not(sph), e0: rndIn(seed, 10, 0, 2 * S)
    }
    val g = edgesAt(c, 0)
    val u = project(p, c, g)
    val js = jumps(p, c, g)
    all {
      cfg' = c, init0' = p, edges' = g, coefs' = u, number' = theNumber(p, c, g), numberKnown' = (known(p, c, g)),
      tight' = if (lay == "gaussIC") rat(1, 50) else rat(1, 1000000000),
      ok' = tab(n, k => range(0, p.nq).foldl(true, (r, i) => r and {
        val x = atNode(nodeAt(p, c, i), g[k], g[k + 1])
        js.indices().forall(q => abs(x - js[q]) > rat(1, 1000000000))
      }))
    }
  }
  action init = problem
  action step = problem

  // ---- properties --------------------------------------------------------------------
  pure val EPS: int = rat(1, 1000000000000)
  // radiation carried by the analytic solution is not on the grid as well
  val once = init0.analytic implies coefs.indices().forall(l => (init0.energy and l == init0.ang) or
    coefs[l].indices().forall(k => coefs[l][k].indices().forall(j => coefs[l][k][j] == 0)))
  // the number of particles on the grid: twice the mean over directions
  pure def total(p: Init, g: List[int], u: List[List[List[int]]]): int = {
    val w = if (p.lob) lobw(p.ang) else glw(p.ang)
    sum(tab(p.ang, l => mul(w[l], sum(tab(length(g) - 1, k => mul(sqrt(g[k + 1] - g[k]), u[l][k][0]))))))
  }
  val whole = (numberKnown and ok.indices().forall(k => ok[k])) implies
    abs(total(init0, edges, coefs) - number) <= mul(tight, S + abs(number))
  // a ball starts as a constant: only the lowest coefficient, with that value
  val flat = (cfg.sphere and cfg.lay == "squareIC" and not(init0.analytic) and cfg.moving) implies {
    val v = div(mul(coefs[0][0][0], S), sqrt(mul(PI, edges[1] - edges[0])))
    abs(v - div(3 * init0.strength, 8 * mul(PI, mul(cfg.x0, sq(cfg.x0))))) <= rat(1, 10000000000)
  }
  val safe = legal(cfg) and once and whole and flat
}
