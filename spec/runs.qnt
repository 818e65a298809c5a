// A complete run: the initial coefficients of a problem are carried to each
// requested time by the evolution equation of the specification (classical
// Runge-Kutta steps), and what has to be reported there is read off.
//
//   problem  ->  advance (first time, sources still on)  ->  advance (final time)  ->  problem ...
//
// Problems follow each other, as runs do in one process.
module runs {
  import fx.* from "./fx"
  import quadtab.* from "./quadtab"
  import grid.* from "./grid"
  import dg.* from "./dg"
  import free.* from "./free"
  import evolve.* from "./evolve"
  import carry.* from "./carry"
  import sph.* from "./sph"
  import start as st from "./start"
  import sphere as sp from "./sphere"
  import outputs as op from "./outputs"

  type Answer = { t: int, edges: List[int], U: List[List[List[int]]], psiA: List[List[int]], psiB: List[List[int]],
                  phiA: List[int], phiB: List[int], exits: List[List[int]], exitPhi: List[int] }
  var cfg: Cfg
  var prob: Prob
  var free0: Free
  var analytic: bool
  var t: int
  var xs: List[int]
  var B: Moments                // kept between the transitions
  var U: Coefs
  var stage: int
  var answer: Answer
  var count0: int               // particles, slab without leaks: what balance demands now
  var closed: bool
  var smoothly: bool            // mirror symmetric problem

  // sources and entering radiation are on in the first part and off in the second
  pure def during(p: Prob, first: bool): Prob = {
    val end = if (first) 1000000 * S else 0 - S
    p.with("t0", end).with("ends", p.ends.with("t0", end))
  }

  pure def report(c: Cfg, p: Prob, ana: bool, fr: Free, time: int, x: List[int], u: List[List[List[int]]]): Answer = {
    val g = edgesAt(c, time)
    val v: op::View = { sphere: c.sphere, m: p.m, ang: p.ang, analytic: ana, energy: false, free: fr, mu: directions(p),
              w: tab(p.ang, l => 2 * weights(p)[l]) }
    val a = tab(p.ang, l => tab(length(x), i => op::at(v, g, u[l], x[i], true)))
    val b = tab(p.ang, l => tab(length(x), i => op::at(v, g, u[l], x[i], false)))
    val ex = tab(2, s => tab(p.ang, l => op::at(v, g, u[l], if (s == 0) g[0] else g[c.n], true)))
    { t: time, edges: g, U: u, psiA: a, psiB: b,
      phiA: tab(length(x), i => sum(tab(p.ang, l => mul(v.w[l], a[l][i]))) + op::extra(v, x[i], time)),
      phiB: tab(length(x), i => sum(tab(p.ang, l => mul(v.w[l], b[l][i]))) + op::extra(v, x[i], time)),
      exits: ex,
      exitPhi: tab(2, s => sum(tab(p.ang, l => mul(v.w[l], ex[s][l]))) + op::extra(v, if (s == 0) g[0] else g[c.n], time)) }
  }
  pure def contents(c: Cfg, p: Prob, g: List[int], u: List[List[List[int]]]): int = if (c.sphere) 0 else 2 * particles(p, g, u)

  pure val SUB: int = 24
  pure def isGauss0(lay: str): bool = lay == "gaussIC" or lay == "gaussSrc"
  action problem = {
    nondet seed = 1.to(1000000).oneOf()
    nondet lay = Set("plane", "gaussIC", "gaussIC!", "gaussSrc", "squareIC", "squareSrc", "squareSrc#", "mms", "boundary", "boundary#",
                     "squareIC@", "plane@").oneOf()
    nondet opac = Set("constant", "constant#", "constant##", "gaussian", "siewert1", "fake_sedov").oneOf()
    nondet m = 0.to(2).oneOf()
    nondet ang = Set(2, 3, 4).oneOf()
    nondet lob = Set(true, false).oneOf()
    nondet nr = 1.to(3).oneOf()
    nondet mov = Set(true, false).oneOf()
    nondet ms = 0.to(2).oneOf()
    nondet onl = Set(true, false).oneOf()
    nondet onr = Set(true, false).oneOf()
    nondet c1 = Set("equal", "mixed", "mixed#").oneOf()
    nondet fin = Set(true, false).oneOf()
    nondet dense = Set(true, false).oneOf()
    nondet reached = Set(true, false).oneOf()
    val sph = lay == "squareIC@" or lay == "plane@"
    val ana = lay == "gaussIC!"
    val name = if (lay == "squareSrc#") "squareSrc" else if (lay == "gaussIC!") "gaussIC" else if (lay == "boundary#") "boundary"
               else if (lay == "squareIC@") "squareIC" else if (lay == "plane@") "plane" else lay
    val isq = name == "squareSrc" or name == "squareIC"
    val n = if (sph and isq) 4 else if (sph) 2 else if (isq) 4 else if (name == "boundary" or name == "plane") 2 * imin(nr, 2) else nr
    val x0 = rndIn(seed, 1, rat(4, 10), S)
    val tf = rndIn(seed, 2, rat(3, 10), rat(6, 10))
    val t1 = mul(tf, rndIn(seed, 3, rat(4, 10), rat(7, 10)))
    val still = name == "plane" or (sph)
    val speed = if (name == "mms") S else rndIn(seed, 4, HALF, S)
    val walls = fin and isq and not(sph)
    // a moving grid meets the wall when the first part ends, or never
    val end = x0 + GAP + mul(speed, if (reached and name == "squareIC") t1 - rat(1, 1000000000000) else tf + HALF)
    val c = {
      lay: name, n: n, x0: x0, v: speed, tf: tf, t0: t1,
      pad: x0 + mul(speed, tf) + rat(2, 10), finite: walls, width: if (walls and name == "squareIC") 2 * end else 2 * x0 + 5 * S, moving: (mov or name == "mms") and not(still), thick: dense and isGauss0(name),
      sphere: sph, v0: if (name == "boundary") mul(rnd(seed, 6), quo(x0 * S, 4 * tf)) else 0, root: false, factor: S
    }
    val sigT = if (name == "mms" or ana) S else rndIn(seed, 7, rat(1, 4), rat(3, 2))
    // a standing jump of the opacity in the middle of a cell would lie on a node
    val o = if (name == "mms" or ana or sph or opac == "constant#" or opac == "constant##") "constant"
            else if (opac == "fake_sedov" and name != "boundary" and n % 2 == 1) "gaussian" else opac
    val mm = if (sph) imin(m, 1) else m
    val na = if (name == "mms" or (sph and ang == 3)) 4 else ang
    val p = {
      m: mm, ang: na, lob: lob and na > 2, sigT: sigT,
      sigS: if (name == "mms" or c1 == "equal") sigT else mul(sigT, rndIn(seed, 8, 0, S)),
      opac: o, ms: ms, v0: c.v0, nq: if (sph) 6 * mm + 1 else imax(2 * mm, mm + ms) + 1,
      src: if (name == "squareSrc") "square" else if (name == "gaussSrc") "gauss" else if (name == "mms") "mms" else "none",
      strength: if (name == "mms") S else rndIn(seed, 9, S, 3 * S), width: rndIn(seed, 10, rat(3, 10), S), x0: x0, t0: t1,
      ends: { kind: if (name == "mms") "mms" else if (name == "boundary") "source" else "none", left: onl, right: onr,
              strength: rndIn(seed, 11, S, 2 * S), analytic: false, t0: t1 }
    }
    val fr = { kind: name, sphere: sph, beams: false, x0: x0, t0: t1, sigma: p.width, strength: p.strength, v0: 0, mu: List(), w: List() }
    val i0 = { kind: name, analytic: ana, beamed: false, m: p.m, nq: p.nq, ang: p.ang, lob: p.lob, sigma: p.width, strength: p.strength,
               energy: false, e0: 0 }
    val g0 = edgesAt(c, 0)
    val u = if (name == "squareSrc" or name == "gaussSrc" or name == "boundary") tab(p.ang, _ => tab(n, _ => tab(p.m + 1, _ => 0)))
            else st::project(i0, c, g0)
    val ge = edgesAt(c, tf)
    val lo = if (sph) 0 else ge[0] - rat(1, 10)
    val x = tab(7, k => lo + quo((ge[n] + rat(1, 10) - lo) * rndInt(seed, 20 + k, 1000), 1000)).append(0).append(ge[0] + rat(1, 1000)).append(ge[n] - rat(1, 1000)).append(half(ge[0] + ge[1]))
    all {
      cfg' = c, prob' = p, free0' = fr, analytic' = ana, t' = 0, B' = if (sph) toMomentsS(g0, u) else toMoments(g0, u), U' = u, stage' = 0, xs' = x,
      answer' = report(c, p, ana, fr, 0, List(), u), count0' = contents(c, p, g0, u), closed' = false,
      smoothly' = (name != "boundary" and o == "constant" and not(sph))
    }
  }
  action advance = {
    val first = stage == 0
    val till = if (first) cfg.t0 else cfg.tf
    val p = during(prob, first)
    val g = edgesAt(cfg, till)
    // the wall stops the grid between the two parts
    val free_ = first and cfg.lay == "squareIC" and cfg.moving
    val b = carried(if (free_) cfg.with("finite", false) else cfg, p, analytic, free0, t, till, SUB, B)
    val u = if (cfg.sphere) toCoefsS(g, b) else toCoefs(g, b)
    all {
      cfg' = cfg, prob' = prob, free0' = free0, analytic' = analytic, t' = till, B' = b, U' = u, stage' = stage + 1, xs' = xs,
      answer' = report(cfg, prob, analytic, free0, till, xs, u), count0' = contents(cfg, prob, edgesAt(cfg, till), u),
      closed' = false, smoothly' = smoothly
    }
  }
  action init = problem
  action step = if (stage >= 2) problem else advance

  // ---- properties -------------------------------------------------------------------
  pure val EPS: int = rat(1, 10000000000)
  // a mirror symmetric problem stays mirror symmetric
  val symmetric = smoothly implies {
    val a = prob.ang
    U.indices().forall(l => U[l].indices().forall(k => U[l][k].indices().forall(j =>
      abs(U[l][k][j] - signAt(j) * U[a - 1 - l][cfg.n - 1 - k][j]) <= EPS)))
  }
  // nothing comes from nothing
  val absent = (prob.src == "none" and prob.ends.kind == "none" and not(analytic) and U.indices().forall(l => U[l].indices().forall(k => U[l][k].indices().forall(j => U[l][k][j] == 0))))
    implies answer.phiA.indices().forall(i => answer.phiA[i] == 0)
  // the manufactured solution is reproduced where the grid is (coarsely: few cells)
  val manufactured_ = (cfg.lay == "mms" and cfg.moving and prob.m == 2 and stage > 0) implies answer.phiA.indices().forall(i =>
    (op::inside(answer.edges, xs[i])) implies abs(answer.phiA[i] - 2 * manufactured(xs[i], t)) <= rat(5, 100))
  // the element formulation of evolve.qnt and sphere.qnt says the same as the moments
  val sameRate = {
    val g = edgesAt(cfg, t)
    val v = speedsAt(cfg, t)
    val q = if (stage == 0) during(prob, true) else during(prob, false)
    val d = change(cfg, q, false, free0, t, B)
    if (cfg.sphere) {
      val z: sp::Prob = { m: q.m, ang: q.ang, lob: q.lob, sigT: q.sigT, sigS: q.sigS, nq: q.nq }
      val ms = sp::massAll(z, g)
      val ld = sp::loads(z, g, v, U, ms, sp::turn(z, cfg.n, U))
      ld.indices().forall(l => ld[l].indices().forall(k => {
        val h = g[k + 1] - g[k]
        val mr = apply(massRate(q.m, g[k], g[k + 1], v[k], v[k + 1]), U[l][k])
        ld[l][k].indices().forall(i =>
          abs(div(mul(sqrt(mul(PI, h)), ld[l][k][i] + mr[i]), edgeRoot(i)) + div(mul(v[k + 1] - v[k], B[l][k][i]), 2 * h) - d[l][k][i]) <= EPS)
      }))
    } else {
      val e = rhsSlab(q, g, v, t, U)
      e.indices().forall(l => e[l].indices().forall(k => {
        val h = g[k + 1] - g[k]
        e[l][k].indices().forall(i =>
          abs(div(mul(e[l][k][i], sqrt(h)), root(i)) + div(mul(v[k + 1] - v[k], B[l][k][i]), 2 * h) - d[l][k][i]) <= EPS)
      }))
    }
  }
  val safe = sameRate and legal(cfg) and symmetric and absent and manufactured_
}
