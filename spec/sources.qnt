// What every source puts into every cell: projections of the prescribed
// emission, or of the uncollided radiation where that is known.
module sources {
  import fx.* from "./fx"
  import quadtab.* from "./quadtab"
  import grid.* from "./grid"
  import dg.* from "./dg"
  import free.* from "./free"

  type Emit = { kind: str, analytic: bool, m: int, nq: int, ang: int, lob: bool, sigS: int, free: Free }

  var cfg: Cfg
  var prob: Emit
  var t: int
  var edges: List[int]
  var out: List[List[List[int]]]   // [direction used][cell][j]
  var used: List[int]              // directions (only a manufactured source depends on them)
  var ok: List[bool]               // cells in which no node is near a jump
  var load: List[List[int]]        // derivative of an empty state (slab), its mass times that (sphere)
  var total: int                   // particles per unit time on the whole grid, in closed form
  var totalKnown: bool
  var tight: int                   // how closely the rule must reproduce the total

  // ---- what is emitted at a point --------------------------------------------
  pure def numeric(p: Emit, x: int, t: int, mu: int): int = {
    val f = p.free
    if (p.kind == "squareSrc") { if (abs(x) <= f.x0 and t < f.t0) f.strength else 0 }
    else if (p.kind == "gaussSrc") { if (t <= f.t0) mul(f.strength, bell(f, x)) else 0 }
    else if (p.kind == "mms") { if (abs(x) <= t + f.x0)
        0 - div(mul(S + mul(mul(S + t, x), mu), exp(-half(sq(x)))), sq(S + t)) else 0 }
    else 0
  }
  pure def density(p: Emit, x: int, t: int, mu: int): int =
    if (p.analytic) mul(p.sigS, uncollided(p.free, x, t)) else numeric(p, x, t, mu)
  pure def slabCell(p: Emit, a: int, b: int, t: int, mu: int): List[int] = {
    val z = glx(p.nq)
    moments(p.m, p.nq, tab(p.nq, k => density(p, atNode(z[k], a, b), t, mu)), b - a)
  }
  // a front of a plane pulse that travels with the outermost edges fills the grid
  pure def frontCell(p: Emit, a: int, b: int, t: int): List[int] =
    tab(p.m + 1, j => if (j > 0) 0 else mul(sqrt(b - a), mul(p.sigS, uncollided(p.free, 0, t))))
  // int r^2 q B_j dr in a shell by the Gauss-Chebyshev rule
  pure def chebNode(n: int, k: int): int = cos(quo((2 * k + 1) * PI, 2 * n))
  pure def shellCell(p: Emit, a: int, b: int, t: int): List[int] = {
    val z = tab(p.nq, k => chebNode(p.nq, k))
    val q = tab(p.nq, k => chebAll(p.m, z[k]))
    val f = tab(p.nq, k => {
      val r = atNode(z[k], a, b)
      mul(mul(sqrt(S - sq(z[k])), sq(r)), density(p, r, t, 0))
    })
    val c = div(mul(half(b - a), quo(PI, p.nq)), sqrt(mul(PI, b - a)))
    tab(p.m + 1, j => mul(mul(c, edgeRoot(j)), sum(tab(p.nq, k => mul(f[k], q[k][j])))))
  }
  pure def emits(p: Emit, c: Cfg, g: List[int], t: int, mu: int): List[List[int]] =
    tab(length(g) - 1, k =>
      if (c.sphere) shellCell(p, g[k], g[k + 1], t)
      else if (p.kind == "plane" and p.analytic and c.moving) frontCell(p, g[k], g[k + 1], t)
      else if (p.analytic or p.kind == "squareSrc" or p.kind == "gaussSrc" or p.kind == "mms") slabCell(p, g[k], g[k + 1], t, mu)
      else tab(p.m + 1, _ => 0))
  pure def cleanCell(p: Emit, c: Cfg, a: int, b: int, t: int): bool = {
    val e = rat(1, 10000000)
    tab(p.nq, k => atNode(if (c.sphere) chebNode(p.nq, k) else glx(p.nq)[k], a, b)).foldl(true, (r, x) => r and and {
      p.analytic implies clean(p.free, x, t, e),
      (not(p.analytic) and p.kind == "squareSrc") implies abs(abs(x) - p.free.x0) > e,
      (not(p.analytic) and p.kind == "mms") implies abs(abs(x) - t - p.free.x0) > e,
    })
  }
  // closed form of what the whole grid emits, when it is known
  pure def knownTotal(p: Emit, c: Cfg, g: List[int], t: int): bool = {
    val wide = g[length(g) - 1]
    if (c.sphere) false
    else if (p.analytic) p.kind == "plane" and c.moving
    else if (p.kind == "squareSrc") g.indices().exists(k => abs(abs(g[k]) - p.free.x0) < rat(1, 1000000000000)) and wide >= p.free.x0
    else p.kind == "gaussSrc" and p.nq >= 10 and not(g.indices().exists(k => k > 0 and g[k] - g[k - 1] > 6 * p.free.sigma))
  }
  pure def theTotal(p: Emit, c: Cfg, g: List[int], t: int): int = {
    val f = p.free
    val wide = g[length(g) - 1]
    if (p.analytic) mul(p.sigS, mul(2 * wide, uncollided(f, 0, t)))
    else if (p.kind == "squareSrc") (if (t < f.t0) mul(f.strength, 2 * f.x0) else 0)
    else if (p.kind == "gaussSrc") (if (t <= f.t0) mul(f.strength, mul(mul(f.sigma, SQRTPI), erf(div(wide, f.sigma)))) else 0)
    else 0
  }

  // ---- problems ---------------------------------------------------------------
  action problem = {
    nondet seed = 1.to(1000000).oneOf()
    nondet pickk = Set("plane", "squareIC", "squareIC@", "squareIC@2", "gaussIC", "squareSrc", "squareSrc2", "gaussSrc",
                       "gaussSrc2", "gaussSrc3", "boundary", "squareSrc#", "squareSrc#2", "gaussSrc#", "gaussSrc#2", "mms", "mms#", "gaussIC#").oneOf()
    nondet na = Set(2, 3, 4, 5, 8).oneOf()
    nondet lob = Set(true, false).oneOf()
    nondet mm = 0.to(6).oneOf()
    nondet mov = Set(true, false).oneOf()
    nondet nr = Set(1, 2, 3, 6).oneOf()
    val sph = pickk == "squareIC@" or pickk == "squareIC@2"
    val analytic = not(pickk == "squareSrc#" or pickk == "squareSrc#2" or pickk == "gaussSrc#" or pickk == "gaussSrc#2"
                       or pickk == "mms" or pickk == "mms#" or pickk == "gaussIC#")
    val kind = if (pickk == "squareIC@" or pickk == "squareIC@2") "squareIC"
               else if (pickk == "squareSrc2" or pickk == "squareSrc#" or pickk == "squareSrc#2") "squareSrc"
               else if (pickk == "gaussSrc2" or pickk == "gaussSrc3" or pickk == "gaussSrc#" or pickk == "gaussSrc#2") "gaussSrc"
               else if (pickk == "mms#") "mms" else if (pickk == "gaussIC#") "gaussIC" else pickk
    val src = kind == "squareSrc" or kind == "gaussSrc"
    val beams = na == 2 and src and analytic
    val slow = analytic and (kind == "gaussSrc" and not(beams) or kind == "boundary")
    val square = kind == "squareIC" or kind == "squareSrc"
    val n = if (sph) 3 + nr else if (square) (if (nr > 3) 8 else 4) else if (kind == "boundary") 2 else if (slow) 1 else nr
    val nq = if (slow) 3 else imax(mm + 2, 4 + rndInt(seed, 20, 10))
    val x0 = if (kind == "plane") rat(1, 10000000000) else rndIn(seed, 1, rat(2, 10), 2 * S)
    val tf = rndIn(seed, 2, S, 8 * S)
    val t0 = quo(tf * (2 * rndInt(seed, 3, 24) + 1), 50)
    val c = {
      lay: kind, n: n, x0: x0, v: if (kind == "plane" or kind == "mms") S else rndIn(seed, 4, HALF, rat(3, 2)), tf: tf, t0: t0,
      pad: x0 + rat(3, 2), finite: false, width: 2 * x0 + 5 * S, moving: mov, thick: false, sphere: sph,
      v0: if (kind == "boundary") mul(rnd(seed, 6), quo(x0 * S, 20 * tf)) else 0, root: false, factor: S
    }
    val ang = if (beams) 2 else if (src and analytic) imax(na, 4) else na
    val l = lob and ang > 2
    val p = {
      kind: kind, analytic: analytic, m: mm, nq: nq, ang: ang, lob: l, sigS: if (mov) S else rndIn(seed, 8, rat(1, 4), rat(3, 2)),
      free: {
        kind: kind, sphere: sph, beams: beams, x0: x0, t0: t0, sigma: rndIn(seed, 10, rat(3, 10), rat(3, 2)),
        strength: rndIn(seed, 11, HALF, 3 * S), v0: c.v0,
        mu: if (l) lobx(ang) else glx(ang), w: if (l) lobw(ang) else glw(ang)
      }
    }
    val time = rndIn(seed, 12, quo(tf, 20), tf)
    all { cfg' = c, prob' = p, showing(c, p, time) }
  }
  pure def mostly(p: Emit): List[int] = if (p.kind == "mms") p.free.mu else List(0)
  action showing(c, p, time) = {
    val g = edgesAt(c, time)
    val s = tab(length(mostly(p)), l => emits(p, c, g, time, mostly(p)[l]))
    val n = length(g) - 1
    all {
      t' = time, edges' = g, out' = s, used' = mostly(p), ok' = tab(n, k => cleanCell(p, c, g[k], g[k + 1], time)),
      load' = tab(n, k => s[0][k].foldl([], (r, x) => r.append(half(x)))),
      total' = theTotal(p, c, g, time), totalKnown' = (knownTotal(p, c, g, time)),
      tight' = if (p.kind == "gaussSrc") rat(1, 100) else rat(1, 1000000000)
    }
  }
  action later = {
    nondet k = 1.to(40).oneOf()
    val time = quo(cfg.tf * k, 40)
    // not exactly when the source is switched off
    val at = if (abs(time - cfg.t0) < rat(1, 100000)) time + rat(1, 1000) else time
    all { cfg' = cfg, prob' = prob, showing(cfg, prob, at) }
  }
  action init = problem
  action step = any { problem, later }

  // ---- properties -------------------------------------------------------------
  pure def emittedTotal(g: List[int], s: List[List[int]]): int =
    sum(tab(length(s), k => mul(sqrt(g[k + 1] - g[k]), s[k][0])))
  val whole = totalKnown implies abs(emittedTotal(edges, out[0]) - total) <= mul(tight, S + abs(total))
  val quiet = (not(prob.analytic) and prob.kind != "mms" and t > cfg.t0) implies
    out[0].indices().forall(k => out[0][k].indices().forall(j => out[0][k][j] == 0))
  val nothing = (not(prob.analytic) and prob.kind == "gaussIC") implies
    out[0].indices().forall(k => out[0][k].indices().forall(j => out[0][k][j] == 0))
  val positive = (prob.kind != "mms") implies out[0].indices().forall(k => out[0][k][0] >= 0)
  val even = (not(cfg.sphere) and prob.kind != "boundary" and prob.kind != "mms") implies
    abs(out[0][0][0] - out[0][length(out[0]) - 1][0]) <= rat(1, 1000000000000) + (if (ok.indices().forall(k => ok[k])) 0 else 100 * S)
  val safe = legal(cfg) and whole and quiet and nothing and positive and even
}
