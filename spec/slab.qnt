// The slab evolution equation: one step is one evaluation of the derivative at
// some time and state; the sequence of evaluations is arbitrary.
module slab {
  import fx.* from "./fx"
  import quadtab.* from "./quadtab"
  import grid.* from "./grid"
  import dg.* from "./dg"
  import evolve.* from "./evolve"

  var cfg: Cfg
  var prob: Prob
  var t: int
  var edges: List[int]
  var speeds: List[int]
  var V: List[List[List[int]]]
  var D: List[List[List[int]]]
  var w: List[int]      // weights of the directions
  var net: int          // rate of change of the number of particles

  pure def randomState(seed: int, p: Prob, n: int): List[List[List[int]]] = {
    // now and then faint or bright radiation: nothing may depend on its size
    val z = rndInt(seed, 39999, 6)
    tab(p.ang, l => tab(n, k => tab(p.m + 1, j => {
      val x = rnd(seed, 400 * l + 20 * k + j)
      if (z == 0) quo(x, 1000000000) else if (z == 1) 1000 * x else x
    })))
  }

  // Guards after a choice make the simulator search the choices, so every
  // choice is made legal instead: times next to a jump of the speeds move to 0.
  pure def steer(c: Cfg, time: int): int = if (smooth(c, time, rat(1, 100000))) time else 0

  action problem = {
    nondet seed = 1.to(1000000).oneOf()
    nondet lay = Set("plane", "gaussIC", "gaussSrc", "squareIC", "squareSrc", "squareSrc#", "mms", "boundary", "gaussSrc#").oneOf()
    nondet opac = Set("constant", "constant#", "constant##", "gaussian", "siewert1", "siewert2", "fake_sedov").oneOf()
    nondet m0 = 0.to(3).oneOf()
    nondet ang0 = Set(2, 3, 4, 5, 6).oneOf()
    nondet shape = 0.to(8).oneOf()
    nondet lob = Set(true, false).oneOf()
    nondet nr0 = 1.to(3).oneOf()
    nondet mov = Set(true, true, false).oneOf()
    nondet fin = Set(true, false).oneOf()
    nondet ms = 0.to(4).oneOf()
    nondet q = Set(12, 14, 16).oneOf()
    nondet onl = Set(true, false).oneOf()
    nondet onr = Set(true, false).oneOf()
    nondet sta = Set("equal", "absorbing", "mixed", "mixed#", "weak").oneOf()
    // now and then a high order, many directions or many cells
    val m = if (shape == 0) 4 + m0 else if (shape == 1 or shape == 2 or shape == 8) m0 / 2 else m0
    val ang = if (shape == 1) 6 + ang0 else if (shape == 0 or shape == 2 or shape == 8) 2 else ang0
    val nr = if (shape == 8) 31 + 3 * nr0 else if (shape == 2) 4 + 2 * nr0 else nr0
    val name = if (lay == "squareSrc#") "squareSrc" else if (lay == "gaussSrc#") "gaussSrc" else lay
    val o = if (opac == "constant#" or opac == "constant##") "constant" else opac
    val isq = name == "squareSrc" or name == "squareIC"
    val n = if (isq) (if (shape == 8) 48 else if (shape == 2) 8 else 4) else if (name == "boundary") (if (shape == 8) 34 else if (shape == 2) 6 else 2) else nr
    val x0 = rndIn(seed, 1, rat(2, 10), 2 * S)
    val tf = rndIn(seed, 2, rat(5, 10), 3 * S)
    val t0 = quo(tf * (2 * rndInt(seed, 3, 30) + 1), 50)
    val c = {
      lay: name, n: n, x0: x0, v: if (name == "mms") S else rndIn(seed, 4, HALF, rat(3, 2)), tf: tf, t0: t0,
      pad: x0 + rat(3, 2), finite: fin and isq, width: 2 * x0 + rndIn(seed, 5, 3 * S, 6 * S), moving: mov, thick: false,
      sphere: false, v0: if (name == "boundary") mul(rnd(seed, 6), quo(x0 * S, 2 * tf)) else 0, root: false, factor: S
    }
    val sigT = if (name == "mms") S else rndIn(seed, 7, rat(1, 4), 2 * S)
    val p = {
      m: m, ang: ang, lob: lob and ang > 2,
      sigT: sigT, sigS: if (name == "mms" or sta == "equal") sigT else if (sta == "absorbing") 0 else if (sta == "weak") quo(sigT, 100000) else mul(sigT, rndIn(seed, 8, 0, S)),
      opac: if (name == "mms") "constant" else o, ms: ms,
      v0: if (name == "boundary") c.v0 else 0, nq: q,
      src: if (name == "squareSrc") "square" else if (name == "gaussSrc") "gauss" else if (name == "mms") "mms" else "none",
      strength: if (name == "mms") S else rndIn(seed, 9, S, 3 * S), width: rndIn(seed, 10, rat(3, 10), S), x0: x0, t0: t0,
      ends: { kind: if (name == "mms") "mms" else if (name == "boundary") "source" else "none", left: onl, right: onr,
              strength: rndIn(seed, 11, S, 2 * S), analytic: false, t0: t0 }
    }
    val time = steer(c, quo(tf * rndInt(seed, 12, 26), 25))
    val g = edgesAt(c, time)
    val v = speedsAt(c, time)
    val u = randomState(seed, p, n)
    all {
      cfg' = c, prob' = p, t' = time, edges' = g, speeds' = v, V' = u, D' = rhsSlab(p, g, v, time, u),
      w' = weights(p), net' = budget(p, g, v, time, u)
    }
  }
  action init = problem
  action evaluate = {
    nondet seed = 1.to(1000000).oneOf()
    nondet k = 0.to(25).oneOf()
    nondet sparse = Set(0, 0, 1).oneOf()
    val time = steer(cfg, quo(cfg.tf * k, 25))
    val g = edgesAt(cfg, time)
    val v = speedsAt(cfg, time)
    val full = randomState(seed, prob, cfg.n)
    // sometimes only one direction of one cell holds radiation
    val u = if (sparse == 0) full
            else tab(prob.ang, l => tab(cfg.n, c => if (l == k % prob.ang and c == k % cfg.n) full[l][c] else tab(prob.m + 1, _ => 0)))
    all {
      cfg' = cfg, prob' = prob, t' = time, edges' = g, speeds' = v, V' = u, D' = rhsSlab(prob, g, v, time, u),
      w' = w, net' = budget(prob, g, v, time, u)
    }
  }
  action step = any { evaluate, problem }

  // ---- properties -----------------------------------------------------------
  pure val EPS: int = rat(1, 1000000000000)
  val balance = prob.opac == "constant" implies
    abs(rate(prob, edges, speeds, V, D) - net) <= EPS
  // without scattering directions do not see each other
  val uncoupled = (prob.sigS == 0 and prob.src == "none" and prob.ends.kind == "none") implies
    range(0, prob.ang).foldl(true, (ok, l) => ok and
      (V[l].indices().forall(k => V[l][k].indices().forall(j => V[l][k][j] == 0))
        implies D[l].indices().forall(k => D[l][k].indices().forall(j => D[l][k][j] == 0))))
  val wellPosed = legal(cfg) and smooth(cfg, t, rat(1, 100000)) and t != cfg.t0
  val safe = wellPosed and balance and uncoupled
}
