// The deforming grid.
//
// State of the system: the problem the grid was made for (cfg), the time the
// solver asked for last (t), and what it is then told: where the edges are
// (edges) and how fast they move (speeds).  The integrator asks for times in
// any order (it rejects steps and goes back), so `step` allows any time of the
// run after any other.  edgesAt/speedsAt depend on nothing but the problem and
// the time; that the implementation, which keeps mutable state, agrees with
// them after every history is decided by replaying the traces.
module mesh {
  import fx.* from "./fx"
  import grid.* from "./grid"

  // ---- the machine ----------------------------------------------------------
  var cfg: Cfg
  var t: int
  var edges: List[int]
  var speeds: List[int]
  var wide: bool      // no jump of the speeds near this time

  action make = {
    nondet lay = Set("plane", "dipole", "mms", "gaussIC", "gaussSrc", "squareIC", "squareSrc", "boundary",
                     "squareIC#", "squareSrc#", "squareSrc##").oneOf()
    nondet n4 = Set(1, 2, 3, 4, 5, 8, 16).oneOf()
    nondet nr = Set(0, 1, 2, 3, 9).oneOf()
    nondet x0k = 2.to(40).oneOf()
    nondet vk = Set(10, 10, 10, 5, 20).oneOf()
    nondet tfk = 2.to(80).oneOf()
    nondet long = 0.to(5).oneOf()
    nondet tiny = Set(true, false).oneOf()
    nondet t0k = 1.to(13).oneOf()
    nondet padk = 1.to(10).oneOf()
    nondet wk = 1.to(120).oneOf()
    nondet fin = Set(true, false).oneOf()
    nondet mov = Set(true, true, true, false).oneOf()
    nondet thick = Set(0, 1, 2, 3).oneOf()
    nondet sph = Set(true, false).oneOf()
    nondet rt = Set(true, false, false).oneOf()
    nondet fk = 1.to(16).oneOf()
    nondet v0k = Set(0, 1, 5, -3).oneOf()
    val name = if (lay == "squareIC#") "squareIC"
               else if (lay == "squareSrc#" or lay == "squareSrc##") "squareSrc" else lay
    val sphere = sph and name != "dipole" and name != "boundary"
    val factor = rat(fk, 2)
    val isThick = thick == 0 and name != "boundary"
    // a sphere has no thick layout that follows the front
    val root = rt and not(sphere and isThick)
    val isq = name == "squareIC" or name == "squareSrc"
    val pulse = isThick and root and (name == "plane" or name == "dipole")
    val n = if ((isq or pulse) and not(sphere)) 4 * n4
            else if (name == "boundary") 2 * n4
            else if (isq) 2 + n4 + 2 * nr
            else n4 + 3 * nr
    // a pulse starts from (almost) a point
    val x0 = if (tiny and (name == "plane" or name == "dipole")) rat(x0k, 100000000000) else rat(x0k, 10)
    val tf = if (long == 0) rat(tfk * 3, 2) else rat(tfk, 10)
    val width = 2 * x0 + 2 * GAP + rat(wk + 1, 10)
    val room = half(width) - x0
    val c = {
      lay: name, n: n, x0: x0, v: rat(vk, 10), tf: tf, t0: quo(tf * t0k, 10),
      pad: x0 + rat(11, 100) + quo((room - rat(11, 100)) * (padk - 1), 10), finite: fin and isq, width: width, moving: mov,
      thick: isThick, sphere: sphere,
      v0: if (name == "boundary") div(v0k * quo(x0, 6), tf) else 0, root: root, factor: factor
    }
    all {
      cfg' = c, t' = 0, edges' = edgesAt(c, 0), speeds' = speedsAt(c, 0), wide' = nearby(c, 0)
    }
  }
  action init = make

  action move = {
    nondet k = 0.to(48).oneOf()
    val u0 = quo(cfg.tf * k, 48)
    // Guards after a choice make the simulator search the choices: a time next
    // to a jump of the speeds is replaced by zero instead.
    val u = if (smooth(cfg, u0, rat(1, 1000000)) or u0 == cfg.t0) u0 else 0
    all {
      t' = u, edges' = edgesAt(cfg, u), speeds' = speedsAt(cfg, u), cfg' = cfg, wide' = nearby(cfg, u)
    }
  }
  // the solver asks for the same time again
  action again = all { t' = t, edges' = edges, speeds' = speeds, cfg' = cfg, wide' = wide }
  action step = any { move, move, move, again }

  // ---- properties -----------------------------------------------------------
  val ordered = range(0, cfg.n).foldl(true, (ok, k) => ok and edges[k + 1] > edges[k])
  val centred = cfg.sphere implies (edges[0] <= 1000 and edges[0] >= -1000)
  val mirrored = (not(cfg.sphere) and cfg.lay != "dipole" and cfg.lay != "boundary") implies
    range(0, cfg.n + 1).foldl(true, (ok, k) => ok and abs(edges[k] + edges[cfg.n - k]) <= (if (tracked(cfg) or cfg.x0 < rat(1, 1000)) rat(1, 1000000000) else 10000000))
  val insideWall = walled(cfg) and not(cfg.lay == "squareIC" and not(cfg.moving))
    implies edges[cfg.n] <= half(cfg.width) + 1000000
  // radiation that starts in the source region stays on the grid
  val front = edges[cfg.n]
  val covers = and {
    (not(isBoundary(cfg)) and not(cfg.finite) and cfg.moving) implies
      front + 1000000 >= cfg.x0 + mul(cfg.v, t),
    (not(isBoundary(cfg)) and not(cfg.finite) and not(cfg.moving) and not(cfg.thick and isGauss(cfg))) implies
      front + 1000000 >= cfg.x0 + mul(cfg.v, cfg.tf),
    (cfg.lay == "squareIC" and cfg.finite and cfg.moving) implies
      front + 1000000 >= imin(half(cfg.width), cfg.x0 + mul(cfg.v, t))
  }
  // the speed is the derivative of the position
  val DT = rat(1, 1000000)
  val derivative = (cfg.moving and t + DT <= cfg.tf and smooth(cfg, t, 2 * DT) and (rooted(cfg) implies t > rat(1, 20))) implies {
    val later = edgesAt(cfg, t + DT)
    range(0, cfg.n + 1).foldl(true, (ok, k) => ok and
      abs(later[k] - edges[k] - mul(speeds[k], DT)) <= rat(1, 100000000) )
  }
  val still = not(cfg.moving) implies (speeds == tab(cfg.n + 1, _ => 0) and edges == edgesAt(cfg, cfg.tf))
  val evenAtEnd = (cfg.lay == "squareSrc" and cfg.finite and cfg.t0 < cfg.tf and cfg.moving and not(cfg.root) and t == cfg.tf
                   and stopTime(cfg, t) > cfg.tf) implies
    range(0, cfg.n + 1).foldl(true, (ok, k) => ok and abs(edges[k] - uniform(cfg, cfg.pad)[k]) <= 1000000000)
  val safe = legal(cfg) and ordered and centred and mirrored and insideWall and covers and derivative and still and evenAtEnd
}
