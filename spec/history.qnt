// What an integrator may do with the derivative: ask at any time, again, in
// the past, for any combination of states, and between other questions.
//
// The answer to (t, a V1 + b V2) is the formal sum
//   (1 - a - b) F(t, 0) + a F(t, V1) + b F(t, V2)
// of answers of objects nobody has asked before; nothing else may influence it.
module history {
  import fx.* from "./fx"
  import grid.* from "./grid"

  type Setting = { m: int, ang: int, lob: bool, sigT: int, sigS: int, opac: str, ms: int, nq: int, analytic: bool,
                   strength: int, width: int, left: bool, right: bool, inStrength: int, seed: int }
  type Answer = { t: int, zero: int, one: int, two: int }

  var cfg: Cfg
  var setting: Setting
  var ca: int
  var cb: int
  var answer: Answer
  var log: List[Answer]
  var silent: bool          // no radiation comes from anywhere but the state

  pure def steer(c: Cfg, time: int): int = if (smooth(c, time, rat(1, 100000))) time else quo(time, 2)
  pure def ask(t: int, x: int, y: int): Answer = { t: t, zero: S - x - y, one: x, two: y }

  action problem = {
    nondet seed = 1.to(1000000).oneOf()
    nondet sph = Set(true, false).oneOf()
    nondet laySlab = Set("plane", "gaussIC", "gaussSrc", "squareIC", "squareSrc", "squareSrc#", "mms", "boundary").oneOf()
    nondet laySph = Set("plane", "gaussIC", "gaussSrc", "squareIC", "squareIC#", "squareSrc").oneOf()
    nondet opac = Set("constant", "constant#", "gaussian", "siewert1", "fake_sedov", "fake_sedov#").oneOf()
    nondet m0 = 0.to(3).oneOf()
    nondet ang0 = Set(2, 4, 6).oneOf()
    nondet shape = 0.to(8).oneOf()
    nondet lob = Set(true, false).oneOf()
    nondet nr0 = 1.to(3).oneOf()
    nondet mov = Set(true, true, false).oneOf()
    nondet fin = Set(true, false).oneOf()
    nondet ana = Set(true, false).oneOf()
    nondet ms = 0.to(3).oneOf()
    // now and then a high order, many directions or many cells
    val m = if (shape == 0) 4 + m0 else m0
    val ang = if (shape == 1) 8 + ang0 else if (shape >= 6) ang0 + 1 else ang0
    val nr = if (shape == 8) 34 + nr0 else if (shape == 2) 7 + 4 * nr0 else nr0
    val name0 = if (sph) laySph else laySlab
    val name = if (name0 == "squareSrc#") "squareSrc" else if (name0 == "squareIC#") "squareIC" else name0
    val op = if (opac == "constant#") "constant" else if (opac == "fake_sedov#") "fake_sedov" else opac
    val isq = name == "squareSrc" or name == "squareIC"
    val n = if (isq) (if (sph) nr + 3 else if (shape == 8) 48 else if (shape == 2) 16 else 4) else if (name == "boundary") (if (shape == 8) 34 else if (shape == 2) 10 else 2) else nr
    val x0 = rndIn(seed, 1, rat(2, 10), 2 * S)
    val tf = rndIn(seed, 2, rat(5, 10), 3 * S)
    val t0 = quo(tf * (2 * rndInt(seed, 3, 30) + 1), 50)
    val c = {
      lay: name, n: n, x0: x0, v: if (name == "mms") S else rndIn(seed, 4, HALF, rat(3, 2)), tf: tf, t0: t0,
      pad: x0 + rat(3, 2), finite: fin and isq, width: 2 * (x0 + rat(3, 2)) + rndIn(seed, 5, S, 6 * S), moving: mov,
      thick: false, sphere: sph, v0: if (name == "boundary") mul(rnd(seed, 6), quo(x0 * S, 2 * tf)) else 0, root: false, factor: S
    }
    val sigT = if (name == "mms") S else rndIn(seed, 7, rat(1, 4), 2 * S)
    val q = {
      m: m, ang: ang, lob: lob and ang > 2, sigT: sigT, sigS: if (name == "mms") S else mul(sigT, rndIn(seed, 8, 0, S)),
      opac: if (name == "mms" or sph) "constant" else op, ms: ms, nq: 10,
      analytic: ana and name != "mms" and name != "boundary" and (not(sph) or name == "squareIC"),
      strength: rndIn(seed, 9, S, 3 * S), width: rndIn(seed, 10, rat(3, 10), S),
      left: rndInt(seed, 11, 2) == 0, right: rndInt(seed, 12, 2) == 0, inStrength: rndIn(seed, 13, S, 2 * S), seed: seed
    }
    val time = steer(c, quo(tf * (1 + rndInt(seed, 14, 25)), 25))
    val x = rnd(seed, 15)
    val y = rnd(seed, 16)
    all {
      cfg' = c, setting' = q, ca' = x, cb' = y, answer' = ask(time, x, y), log' = [ask(time, x, y)],
      silent' = (not(q.analytic) and (name == "plane" or name == "gaussIC" or name == "squareIC"))
    }
  }
  action init = problem
  // any time, any combination
  action request = {
    nondet k = 1.to(25).oneOf()
    nondet x = Set(0, S, -S, HALF, 3 * S).oneOf()
    nondet y = Set(0, S, -2 * S, HALF).oneOf()
    val time = steer(cfg, quo(cfg.tf * k, 25))
    all { ca' = x, cb' = y, answer' = ask(time, x, y), log' = log.append(ask(time, x, y)),
          cfg' = cfg, setting' = setting, silent' = silent }
  }
  // a question asked before
  action again = {
    nondet k = 0.to(59).oneOf()
    val q = log[k % length(log)]
    all { ca' = q.one, cb' = q.two, answer' = q, log' = log.append(q), cfg' = cfg, setting' = setting, silent' = silent }
  }
  // the previous state a little later or earlier
  action nudge = {
    nondet d = Set(-1, 1, 2).oneOf()
    val time = steer(cfg, imin(cfg.tf, imax(quo(cfg.tf, 100), answer.t + d * quo(cfg.tf, 1000))))
    all { ca' = ca, cb' = cb, answer' = ask(time, ca, cb), log' = log.append(ask(time, ca, cb)),
          cfg' = cfg, setting' = setting, silent' = silent }
  }
  action step = any { request, again, nudge }

  // ---- properties -----------------------------------------------------------
  val affine = answer.zero + answer.one + answer.two == S
  val sameQuestionSameAnswer = log.indices().forall(k =>
    (log[k].t == answer.t and log[k].one == ca and log[k].two == cb) implies log[k] == answer)
  val wellPosed = legal(cfg) and smooth(cfg, answer.t, rat(1, 1000000)) and answer.t > 0
  val safe = affine and sameQuestionSameAnswer and wellPosed
}
