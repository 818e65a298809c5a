// What is reported at points of a grid that carries coefficients.
module outputs {
  import fx.* from "./fx"
  import quadtab.* from "./quadtab"
  import dg.* from "./dg"
  import free.* from "./free"

  type View = { sphere: bool, m: int, ang: int, analytic: bool, energy: bool, free: Free, mu: List[int], w: List[int] }

  var view: View
  var t: int
  var edges: List[int]
  var U: List[List[List[int]]]          // [direction (and energy)][cell][j]
  var xs: List[int]
  // a point on an inner edge may be given the value of either neighbour
  var psiA: List[List[int]]
  var psiB: List[List[int]]
  var phiA: List[int]
  var phiB: List[int]
  var energyA: List[int]
  var energyB: List[int]
  var slopeA: List[int]                 // of the energy, slab
  var slopeB: List[int]
  var exits: List[List[int]]            // [end][direction]
  var exitPhi: List[int]
  var ok: List[bool]

  pure def shape(seed: int, n: int, sphere: bool): List[int] = {
    val a = if (sphere) 0 else mul(rnd(seed, 300), S) - S
    range(0, n).foldl([a], (l, k) => l.append(l[k] + rndIn(seed, 301 + k, rat(1, 50), rat(3, 2))))
  }
  // value of an expansion in cell k at x
  pure def value(v: View, u: List[int], a: int, b: int, x: int): int = {
    val z = zOf(x, a, b)
    if (v.sphere) {
      val p = chebAll(v.m, z)
      div(sum(tab(v.m + 1, j => mul(edgeRoot(j), mul(u[j], p[j])))), sqrt(mul(PI, b - a)))
    } else {
      val p = legendreAll(v.m, z)
      div(sum(tab(v.m + 1, j => mul(root(j), mul(u[j], p[j])))), sqrt(b - a))
    }
  }
  // cells a point belongs to: the one on its left and the one on its right
  pure def inside(g: List[int], x: int): bool = g[0] <= x and x <= g[length(g) - 1]
  pure def cellLeft(g: List[int], x: int): int =
    imin(length(g) - 2, imax(0, range(0, length(g)).foldl(0 - 1, (c, k) => if (g[k] < x) k else c)))
  pure def cellRight(g: List[int], x: int): int =
    imin(length(g) - 2, imax(0, range(0, length(g)).foldl(0 - 1, (c, k) => if (g[k] <= x) k else c)))
  pure def at(v: View, g: List[int], u: List[List[int]], x: int, left: bool): int =
    if (not(inside(g, x))) 0 else {
      val k = if (left) cellLeft(g, x) else cellRight(g, x)
      value(v, u[k], g[k], g[k + 1], x)
    }
  pure def rise(v: View, g: List[int], u: List[List[int]], x: int, left: bool): int =
    if (not(inside(g, x))) 0 else {
      val k = if (left) cellLeft(g, x) else cellRight(g, x)
      val h = g[k + 1] - g[k]
      val z = zOf(x, g[k], g[k + 1])
      div(2 * div(sum(tab(v.m + 1, j => mul(root(j), mul(u[k][j], dlegendre(j, z))))), sqrt(h)), h)
    }
  pure def extra(v: View, x: int, t: int): int = if (v.analytic) uncollided(v.free, x, t) else 0

  pure def points(seed: int, g: List[int], sphere: bool): List[int] = {
    val n = length(g) - 1
    val wide = g[n] - g[0]
    val base = tab(10, k => {
      val r = rndInt(seed, 40 + k, 10)
      if (r == 0) g[rndInt(seed, 60 + k, n + 1)]                                 // on an edge
      else if (r == 1 and not(sphere)) g[0] - rndIn(seed, 80 + k, rat(1, 100), S) // outside
      else if (r == 2) g[n] + rndIn(seed, 80 + k, rat(1, 100), S)
      else if (r == 3) g[0] + quo(wide, 1000000)                                  // next to the ends
      else if (r == 4) g[n] - quo(wide, 1000000)
      else g[0] + quo(wide * rndInt(seed, 100 + k, 1000), 1000)
    })
    // a repeated point
    base.append(base[rndInt(seed, 55, 10)])
  }

  action shown(v, g, time, seed) = {
    val n = length(g) - 1
    val rows = v.ang + (if (v.energy) 1 else 0)
    // now and then faint or bright radiation
    val z = rndInt(seed, 39999, 6)
    val u = tab(rows, l => tab(n, k => tab(v.m + 1, j => {
      val x = rnd(seed, 400 * l + 20 * k + j)
      if (z == 0) quo(x, 1000000000) else if (z == 1) 1000 * x else x
    })))
    val x = points(seed, g, v.sphere)
    val a = tab(v.ang, l => tab(11, i => at(v, g, u[l], x[i], true)))
    val b = tab(v.ang, l => tab(11, i => at(v, g, u[l], x[i], false)))
    val ex = tab(2, s => tab(v.ang, l => at(v, g, u[l], if (s == 0) g[0] else g[n], true)))
    all {
      view' = v, t' = time, edges' = g, U' = u, xs' = x, psiA' = a, psiB' = b,
      phiA' = tab(11, i => sum(tab(v.ang, l => mul(v.w[l], a[l][i]))) + extra(v, x[i], time)),
      phiB' = tab(11, i => sum(tab(v.ang, l => mul(v.w[l], b[l][i]))) + extra(v, x[i], time)),
      energyA' = if (v.energy) tab(11, i => at(v, g, u[v.ang], x[i], true)) else List(),
      energyB' = if (v.energy) tab(11, i => at(v, g, u[v.ang], x[i], false)) else List(),
      slopeA' = if (v.energy and not(v.sphere)) tab(11, i => rise(v, g, u[v.ang], x[i], true)) else List(),
      slopeB' = if (v.energy and not(v.sphere)) tab(11, i => rise(v, g, u[v.ang], x[i], false)) else List(),
      exits' = ex,
      exitPhi' = tab(2, s => sum(tab(v.ang, l => mul(v.w[l], ex[s][l]))) + extra(v, if (s == 0) g[0] else g[n], time)),
      ok' = tab(11, i => not(v.analytic) or v.sphere or clean(v.free, x[i], time, rat(1, 10000000)))
    }
  }
  action problem = {
    nondet seed = 1.to(1000000).oneOf()
    nondet sph = Set(true, false).oneOf()
    nondet ana = Set(true, false).oneOf()
    nondet kind = Set("plane", "squareIC", "squareSrc", "gaussIC").oneOf()
    nondet m = 0.to(9).oneOf()
    nondet ang = Set(2, 3, 4, 5, 8, 12).oneOf()
    nondet lob = Set(true, false).oneOf()
    nondet n = Set(1, 2, 3, 4, 5, 6, 9, 15).oneOf()
    nondet en = Set(true, false, false).oneOf()
    val k = if (sph) "squareIC" else kind
    val na = if (k == "squareSrc") imax(4, ang) else ang
    val l = lob and na > 2
    val v = {
      sphere: sph, m: m, ang: na, analytic: ana, energy: en,
      free: { kind: k, sphere: sph, beams: false, x0: rndIn(seed, 1, rat(2, 10), 2 * S), t0: rndIn(seed, 2, rat(2, 10), 5 * S),
              sigma: rndIn(seed, 3, rat(3, 10), rat(3, 2)), strength: rndIn(seed, 4, HALF, 3 * S), v0: 0, mu: List(), w: List() },
      mu: if (l) lobx(na) else glx(na), w: if (l) lobw(na) else glw(na)
    }
    shown(v, shape(seed, n, sph), rndIn(seed, 5, rat(5, 100), 7 * S), seed)
  }
  action again = {
    nondet seed = 1.to(1000000).oneOf()
    nondet n = Set(1, 2, 3, 4, 5, 6, 9, 15).oneOf()
    shown(view, shape(seed, n, view.sphere), rndIn(seed, 5, rat(5, 100), 7 * S), seed)
  }
  action init = problem
  action step = any { problem, again }

  // ---- properties ------------------------------------------------------------------
  pure val EPS: int = rat(1, 1000000000000)
  // a point has at most two candidate values, and only on inner edges
  val oneCell = xs.indices().forall(i =>
    edges.indices().exists(k => edges[k] == xs[i]) or psiA.indices().forall(l => psiA[l][i] == psiB[l][i]))
  val nothingOutside = xs.indices().forall(i => inside(edges, xs[i]) or psiA.indices().forall(l => psiA[l][i] == 0))
  // a repeated point is given the same value
  val repeatable = xs.indices().forall(i => xs.indices().forall(k => (xs[i] == xs[k]) implies (phiA[i] == phiA[k])))
  // integrating the reported flux over the grid gives the coefficients of order zero (slab)
  val integral = view.sphere or {
    val z = glx(5)
    val w = glw(5)
    range(0, length(edges) - 1).foldl(true, (r, k) => r and {
      val h = edges[k + 1] - edges[k]
      val s = half(mul(h, sum(tab(5, i => mul(w[i], value(view, U[0][k], edges[k], edges[k + 1], atNode(z[i], edges[k], edges[k + 1])))))))
      abs(s - mul(sqrt(h), U[0][k][0])) <= EPS
    })
  }
  val safe = oneCell and nothingOutside and repeatable and integral
}
