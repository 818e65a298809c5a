// What crosses the faces of every cell, for one direction.
//
// One step is one evaluation: a grid with moving edges, a state, a direction
// and a setting of the two ends of the domain.
module flux {
  import fx.* from "./fx"
  import quadtab.* from "./quadtab"
  import dg.* from "./dg"

  type Ends = { kind: str, left: bool, right: bool, strength: int, analytic: bool, t0: int }

  var sphere: bool
  var m: int
  var edges: List[int]
  var speeds: List[int]
  var mu: int
  var t: int
  var ends: Ends
  var nq: int                     // size of the rule that projects incoming radiation
  var u: List[List[int]]          // coefficients of every cell
  var mirror: List[int]           // coefficients of the mirrored direction in the first cell
  var isolated: bool              // nothing in the end cells and nothing comes in
  var lu: List[List[int]]         // exchange of every cell

  pure def manufactured(x: int, time: int): int = div(exp(-half(sq(x))), 2 * (time + S))
  pure def incoming(e: Ends, left: bool, md: int, q: int, g: List[int], time: int): int = {
    val n = length(g) - 1
    val h = if (left) g[1] - g[0] else g[n] - g[n - 1]
    val a = if (left) g[0] - h else g[n]
    if (e.kind == "mms") {
      val z = glx(q)
      ghost(md, q, tab(q, k => manufactured(atNode(z[k], a, a + h), time)), left)
    } else if (e.kind == "source" and not(e.analytic) and time <= e.t0 and (if (left) e.left else e.right)) e.strength
    else 0
  }
  pure def all_(sph: bool, md: int, g: List[int], v: List[int], d: int, w: List[List[int]],
                mir: List[int], e: Ends, q: int, time: int): List[List[int]] = {
    val a = incoming(e, true, md, q, g, time)
    val b = incoming(e, false, md, q, g, time)
    tab(length(g) - 1, k =>
      if (sph) exchangeSphere(md, g, v, k, d, w, mir)
      else exchange(md, g, v, k, d, w, a, b))
  }

  // now and then faint or bright radiation
  pure def sized(z: int, x: int): int = if (z == 0) quo(x, 1000000000) else if (z == 1) 1000 * x else x
  action pick = {
    nondet seed = 1.to(1000000).oneOf()
    nondet sph = Set(true, false, false).oneOf()
    nondet n = Set(1, 2, 3, 4, 7).oneOf()
    nondet md = Set(0, 1, 2, 3, 4, 6, 9).oneOf()
    nondet kind = Set("none", "source", "mms").oneOf()
    nondet onl = Set(true, false).oneOf()
    nondet onr = Set(true, false).oneOf()
    nondet ana = Set(0, 1, 2).oneOf()
    nondet late = Set(true, false).oneOf()
    nondet q = Set(8, 10, 12).oneOf()
    nondet iso = Set(true, false, false).oneOf()
    nondet riding_ = 0.to(4).oneOf()
    nondet glare = 0.to(4).oneOf()
    val a0 = if (sph) (if (rndInt(seed, 1, 2) == 0) 0 else rndIn(seed, 2, 0, 2 * S)) else rndIn(seed, 2, -3 * S, S)
    val g = range(0, n).foldl([a0], (l, k) => l.append(l[k] + rndIn(seed, 10 + k, rat(1, 20), rat(3, 2))))
    val d = rnd(seed, 3)
    // a face may move exactly with the particles
    val v = tab(n + 1, k => if (k == riding_) d else mul(rat(3, 2), rnd(seed, 30 + k)))
    val quiet = iso and n >= 3
    val e = if (sph or quiet) { kind: "none", left: false, right: false, strength: 0, analytic: false, t0: S }
            else { kind: kind, left: onl, right: onr, strength: rndIn(seed, 4, S, 3 * S),
                   analytic: kind == "source" and ana == 0, t0: S }
    val w = tab(n, k => tab(md + 1, j => if (quiet and (k == 0 or k == n - 1)) 0 else sized(glare, rnd(seed, 100 + 10 * k + j))))
    val mir = if (quiet) tab(md + 1, _ => 0) else tab(md + 1, j => sized(glare, rnd(seed, 200 + j)))
    val time = if (late) rat(3, 2) else rat(1 + rndInt(seed, 5, 9), 10)
    all {
      sphere' = sph, m' = md, edges' = g, speeds' = v, mu' = d, t' = time, ends' = e, nq' = q,
      u' = w, mirror' = mir, isolated' = quiet,
      lu' = all_(sph, md, g, v, d, w, mir, e, q, time)
    }
  }
  action init = pick
  action step = pick

  // ---- properties -----------------------------------------------------------
  pure val EPS: int = rat(1, 1000000000000)
  val cells = length(edges) - 1
  val ordered = range(0, cells).foldl(true, (ok, k) => ok and edges[k + 1] > edges[k])
  // what leaves the cells together is what crosses the two ends
  def outOf(k: int): int = mul(sqrt(if (sphere) mul(PI, edges[k + 1] - edges[k]) else edges[k + 1] - edges[k]), lu[k][0])
  val total = sum(tab(cells, k => outOf(k)))
  val conserved = isolated implies abs(total) <= EPS
  // nothing comes in from outside unless it is prescribed
  def rel(k: int): int = mu - speeds[k]
  val noInflow = (ends.kind == "none" and not(sphere)) implies and {
    rel(0) >= 0 and cells >= 2 implies abs(outOf(0) - mul(rel(1),
      if (rel(1) >= 0) traceR(u[0], edges[1] - edges[0]) else traceL(u[1], edges[2] - edges[1]))) <= EPS,
    rel(cells) <= 0 and cells >= 2 implies abs(outOf(cells - 1) + mul(rel(cells - 1),
      if (rel(cells - 1) >= 0) traceR(u[cells - 2], edges[cells - 1] - edges[cells - 2])
      else traceL(u[cells - 1], edges[cells] - edges[cells - 1]))) <= EPS
  }
  // a constant incoming intensity is represented exactly
  val constantIn = (ends.kind == "source" and not(ends.analytic) and t <= ends.t0 and ends.left)
    implies abs(ghost(m, nq, tab(nq, _ => ends.strength), true) - ends.strength) <= EPS
  // a face that moves with the particles lets nothing through
  val riding = range(0, cells).foldl(true, (ok, k) => ok and
    ((speeds[k] == mu and speeds[k + 1] == mu) implies lu[k] == tab(m + 1, _ => 0)))
  val safe = ordered and conserved and noInflow and constantIn and riding
}
