// Quadrature rules and the points a solution is evaluated at.
module rules {
  import fx.* from "./fx"
  import quadtab.* from "./quadtab"
  import grid.* from "./grid"
  import dg.* from "./dg"

  var name: str             // of the rule
  var n: int                   // its size
  var nodes: List[int]         // empty: size beyond the tables
  var weights: List[int]
  var degree: int              // of the polynomial tried
  var poly: List[int]          // its coefficients, plain integers
  var integral: int            // over [-1, 1] (Chebyshev: with weight 1/sqrt(1-x^2))
  var term: int                // degree of the orthogonal polynomial of the rule tried
  var termIntegral: int        // with the weight of the rule
  var cfg: Cfg
  var time: int
  var edges: List[int]
  var m: int
  var points: List[int]        // chosen on the grid

  pure def chebx(k: int): List[int] = tab(k, i => cos(quo((2 * i + 1) * PI, 2 * k)))
  pure def exact(rule: str, k: int): int =
    if (rule == "gauss_lobatto") 2 * k - 3 else 2 * k - 1
  // int x^p over [-1, 1]; with the Chebyshev weight pi (p-1)!!/p!!
  pure def power(rule: str, p: int): int =
    if (p % 2 == 1) 0
    else if (rule == "chebyshev") range(1, p / 2 + 1).foldl(PI, (v, i) => if (i <= p / 2) quo(v * (2 * i - 1), 2 * i) else v)
    else quo(2 * S, p + 1)
  pure def moment(rule: str, c: List[int]): int =
    range(0, length(c)).foldl(0, (s, p) => s + c[p] * power(rule, p))
  pure def tableX(rule: str, k: int): List[int] =
    if (rule == "chebyshev") (if (k <= 24) chebx(k) else List())
    else if (rule == "gauss_lobatto") (if (k <= 17 or k == 25 or k == 33) lobx(k) else List())
    else if (k <= 16 or k == 20 or k == 24 or k == 32) glx(k) else List()
  pure def tableW(rule: str, k: int): List[int] =
    if (rule == "chebyshev") (if (k <= 24) tab(k, _ => quo(PI, k)) else List())
    else if (rule == "gauss_lobatto") (if (k <= 17 or k == 25 or k == 33) lobw(k) else List())
    else if (k <= 16 or k == 20 or k == 24 or k == 32) glw(k) else List()
  pure def choose(c: Cfg, g: List[int], k: int): List[int] = {
    val z = if (c.sphere) tab(k, i => cos(quo((2 * (k - 1 - i) + 1) * PI, 2 * k))) else glx(k)
    range(0, c.n).foldl(List(), (l, j) => range(0, k).foldl(l, (q, i) => q.append(atNode(z[i], g[j], g[j + 1]))))
  }

  action ask = {
    nondet seed = 1.to(1000000).oneOf()
    nondet rule = Set("gauss_legendre", "gauss_lobatto", "gauss_lobatto", "chebyshev").oneOf()
    nondet small = 1.to(16).oneOf()
    nondet large = 17.to(80).oneOf()
    nondet huge = 81.to(512).oneOf()
    nondet beyond = 0.to(5).oneOf()
    nondet order = 0.to(8).oneOf()
    nondet lay = Set("squareSrc", "gaussIC", "gaussSrc", "plane").oneOf()
    nondet sph = Set(true, false).oneOf()
    nondet mov = Set(true, true, false).oneOf()
    nondet nr = 1.to(5).oneOf()
    val k0 = if (beyond == 0) huge else if (beyond < 3) large else small
    val k = if (rule == "gauss_lobatto") imax(k0, 2) else k0
    val square = lay == "squareSrc"
    val cells = if (square and sph) 3 + nr else if (square) (if (nr > 2) 8 else 4) else if (lay == "plane") 2 * nr else nr
    val x0 = rndIn(seed, 1, rat(2, 10), 2 * S)
    val tf = rndIn(seed, 2, S, 3 * S)
    val c = {
      lay: lay, n: cells, x0: x0, v: rndIn(seed, 4, HALF, rat(3, 2)), tf: tf, t0: half(tf), pad: x0 + rat(3, 2),
      finite: false, width: 2 * (x0 + rat(3, 2)) + 9 * S, moving: mov, thick: false, sphere: sph, v0: 0, root: false, factor: S
    }
    val t = quo(tf * rndInt(seed, 3, 26), 25)
    val g = edgesAt(c, t)
    // the degree: at most what the rule has to integrate, often exactly that
    val top = exact(rule, k)
    val d = imin(if (hash(seed, 5) % 2 == 0) top else rndInt(seed, 6, top + 1), 60)
    val co = tab(d + 1, i => if (i == d) 1 + hash(seed, 20) % 9 else (hash(seed, 21 + i) % 19) - 9)
    val e = if (hash(seed, 7) % 3 == 0) top else if (hash(seed, 7) % 3 == 1) imax(0, top - 1) else rndInt(seed, 8, top + 1)
    all {
      term' = e, termIntegral' = if (e > 0) 0 else if (rule == "chebyshev") PI else 2 * S,
      name' = rule, n' = k, nodes' = tableX(rule, k), weights' = tableW(rule, k), degree' = d, poly' = co,
      integral' = moment(rule, co), cfg' = c, time' = t, edges' = g, m' = order, points' = choose(c, g, imax(order, 1))
    }
  }
  action init = ask
  action step = ask

  // ---- properties --------------------------------------------------------------------
  pure val EPS: int = rat(1, 10000000000000)
  val known = length(nodes) > 0
  val up = if (name == "chebyshev") -1 else 1
  val insideRange = nodes.indices().forall(i => abs(nodes[i]) <= S and (i > 0 implies up * (nodes[i] - nodes[i - 1]) > 0))
  val symmetric = nodes.indices().forall(i => abs(nodes[i] + nodes[n - 1 - i]) <= EPS and abs(weights[i] - weights[n - 1 - i]) <= EPS)
  val positive = weights.indices().forall(i => weights[i] > 0)
  val whole = known implies abs(sum(weights) - (if (name == "chebyshev") PI else 2 * S)) <= EPS
  // the tables really have the stated degree
  pure def at(c: List[int], x: int): int = range(0, length(c)).foldl(0, (v, i) => mul(v, x) + c[length(c) - 1 - i] * S)
  val exactly = known implies abs(sum(tab(n, i => mul(weights[i], at(poly, nodes[i])))) - integral) <= 1000 * EPS
  // polynomials of the rule's own weight are orthogonal to one
  val orthogonal = (known and term <= 24) implies abs(sum(tab(n, i =>
    mul(weights[i], (if (name == "chebyshev") chebAll(term, nodes[i]) else legendreAll(term, nodes[i]))[term]))) - termIntegral) <= 1000 * EPS
  val sorted = points.indices().forall(i => i > 0 implies points[i] > points[i - 1])
  val covering = range(0, cfg.n).foldl(true, (ok, j) => ok and points.indices().exists(i =>
    points[i] > edges[j] and points[i] < edges[j + 1]))
  val within = points.indices().forall(i => points[i] > edges[0] and points[i] < edges[cfg.n])
  val safe = legal(cfg) and insideRange and symmetric and positive and whole and exactly and orthogonal and sorted and covering and within
}
