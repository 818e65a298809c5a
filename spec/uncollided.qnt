// The uncollided solution of every source, point by point, and in total.
module uncollided {
  import fx.* from "./fx"
  import quadtab.* from "./quadtab"
  import dg.* from "./dg"
  import free.* from "./free"

  var prob: Free
  var ang: int
  var t: int
  var xs: List[int]
  var phi: List[int]
  var mirror: List[int]
  var ok: List[bool]        // away from jumps
  var total: int            // number of uncollided particles
  var breaks: List[int]     // panels between places where the solution is not smooth

  pure def ordered(l: List[int]): List[int] = l.foldl([], (r, x) => {
    val before = r.select(y => y <= x)
    before.append(x).concat(r.slice(length(before), length(r)))
  })
  action pick = {
    nondet seed = 1.to(1000000).oneOf()
    nondet kind = Set("plane", "squareIC", "squareIC#", "gaussIC", "squareSrc", "squareSrc#", "squareSrc##", "gaussSrc", "gaussSrc#", "boundary").oneOf()
    nondet sph = Set(true, false).oneOf()
    nondet na = Set(2, 2, 4, 6, 8).oneOf()
    nondet lob = Set(true, false).oneOf()
    nondet wide = Set(true, false, false).oneOf()
    nondet old = Set(true, false, false).oneOf()
    val name = if (kind == "squareSrc#" or kind == "squareSrc##") "squareSrc" else if (kind == "gaussSrc#") "gaussSrc"
               else if (kind == "squareIC#") "squareIC" else kind
    val two = na == 2 and (name == "squareSrc" or name == "gaussSrc")
    val n = if (two) 2 else imax(na, 4)
    // long after the pulse, wide and narrow sources, sources that stay on
    val late = old and name != "gaussSrc" and name != "boundary"
    val x0 = if (late) rndIn(seed, 1, rat(5, 100), 6 * S) else rndIn(seed, 1, rat(2, 10), 2 * S)
    val t0 = if (late) rndIn(seed, 2, rat(1, 10), 9 * S) else rndIn(seed, 2, rat(3, 10), 3 * S)
    // about half of the times before the source is switched off
    val time = if (rndInt(seed, 3, 2) == 0) rndIn(seed, 4, quo(t0, 20), t0) else if (late) rndIn(seed, 4, rat(3, 100), 12 * S) else rndIn(seed, 4, rat(1, 10), rat(7, 2))
    val l = lob and n > 2
    val p = {
      kind: name, sphere: sph and name == "squareIC", beams: two, x0: x0, t0: t0,
      sigma: if (wide and two and name == "gaussSrc") rndIn(seed, 5, 6 * S, 9 * S) else rndIn(seed, 5, rat(3, 10), rat(3, 2)),
      strength: rndIn(seed, 6, HALF, 3 * S), v0: if (name == "boundary") quo(rnd(seed, 7), 20) else 0,
      mu: if (l) lobx(n) else glx(n), w: if (l) lobw(n) else glw(n)
    }
    val span = x0 + time + (if (name == "gaussIC" or name == "gaussSrc") 2 * p.sigma else 0)
    val slow = name == "gaussSrc" and not(two)
    val np = if (slow) 3 else if (name == "boundary") 4 else 8
    val pts = tab(np, k =>
      if (p.sphere) quo((span + S) * rndInt(seed, 20 + k, 100), 100)
      else if (name == "boundary") -x0 + quo((2 * x0) * rndInt(seed, 20 + k, 400), 400)
      else mul(rnd(seed, 20 + k), quo(6 * span, 5)))
    all {
      prob' = p, ang' = n, t' = time, xs' = pts, phi' = tab(np, k => uncollided(p, pts[k], time)),
      mirror' = tab(if (slow) 1 else if (p.sphere or name == "boundary") 0 else np, k => uncollided(p, -pts[k], time)),
      ok' = tab(np, k => clean(p, pts[k], time, rat(1, 1000000))),
      total' = if (name == "boundary") 0 else count(p, time),
      breaks' = if (name == "boundary" or p.sphere) [] else {
        val cuts = ordered(kinks_(p, time))
        List(0).concat(cuts).append(if (name == "gaussIC" or name == "gaussSrc") time + 7 * p.sigma + S else reach(p, time) + S)
      }
    }
  }
  action init = pick
  action step = pick

  // ---- properties -----------------------------------------------------------
  pure val EPS: int = rat(1, 1000000000000)
  val positive = phi.indices().forall(k => phi[k] >= -EPS)
  val symmetric = mirror.indices().forall(k => abs(phi[k] - mirror[k]) <= EPS)
  val local = phi.indices().forall(k => (abs(xs[k]) > reach(prob, t) + EPS) implies abs(phi[k]) <= EPS)
  // a source that is on everywhere cannot give more than one mean free time of it
  val bounded = (prob.kind == "squareSrc" or prob.kind == "gaussSrc") implies
    phi.indices().forall(k => phi[k] <= mul(prob.strength, S - exp(-t)) + EPS)
  val safe = positive and symmetric and local and bounded
}
