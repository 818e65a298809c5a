// Where the edges of the deforming grid are, and how fast they move: functions
// of the problem and the time alone.
module grid {
  import fx.* from "./fx"
  import quadtab.* from "./quadtab"


  type Cfg = {
    lay: str,      // which problem: plane dipole mms gaussIC gaussSrc squareIC squareSrc boundary
    n: int,        // cells
    x0: int, v: int, tf: int, t0: int, pad: int,
    finite: bool, width: int,
    moving: bool, thick: bool, sphere: bool,
    v0: int,       // speed of the density jump (boundary problems)
    root: bool, factor: int   // edges of square problems follow a diffusion front: factor * sqrt(t)
  }

  pure def isSquare(c: Cfg): bool = c.lay == "squareIC" or c.lay == "squareSrc"
  pure def isGauss(c: Cfg): bool = c.lay == "gaussIC" or c.lay == "gaussSrc"
  pure def isBoundary(c: Cfg): bool = c.lay == "boundary"

  // ---- layout at time zero ------------------------------------------------
  pure val GAP: int = rat(1, 100)         // initial width of the two outer groups, slab
  pure val GAPS: int = rat(1, 100000)     // initial width of the outer group, sphere
  pure def uniform(c: Cfg, right: int): List[int] =
    linspace(if (c.sphere) 0 else -right, right, c.n)

  pure def squareSlab(c: Cfg): List[int] = {
    val inner = lobx(c.n / 2 + 1)
    val outer = lobx(c.n / 4 + 1)
    val side = tab(length(outer), k => c.x0 + mul(GAP, half(outer[k] + S)))
    // the outer nodes are symmetric, so the left group is the mirror image
    val left = tab(length(outer), k => -side[length(outer) - 1 - k])
    val mid = scale(c.x0, inner)
    left.slice(0, c.n / 4).concat(mid.slice(0, c.n / 2)).concat(side)
  }
  // the layout of thick problems that follow the front: two groups on the sides of the source
  pure def tracked(c: Cfg): bool = c.thick and c.root and (isSquare(c) or ((c.lay == "plane" or c.lay == "dipole") and c.moving))
  pure val FINE: int = rat(1, 1000000000000)
  pure def squareFine(c: Cfg): List[int] =
    linspace(-c.x0 - FINE, -c.x0, c.n / 4).slice(0, c.n / 4).concat(linspace(-c.x0, c.x0, c.n / 2).slice(0, c.n / 2))
      .concat(linspace(c.x0, c.x0 + FINE, c.n / 4))
  // edges that move with the square root of the time
  pure def rooted(c: Cfg): bool = c.root and c.lay == "squareSrc" and c.finite
  pure def inside(c: Cfg): int = c.n / 2 + 1
  pure def squareSphere(c: Cfg): List[int] =
    linspace(0, c.x0, inside(c)).concat(
      linspace(c.x0, c.x0 + GAPS, c.n - inside(c)).slice(1, c.n - inside(c) + 1))

  pure def layout(c: Cfg): List[int] =
    if (tracked(c)) squareFine(c)
    else if (isSquare(c) and not(c.thick)) { if (c.sphere) squareSphere(c) else squareSlab(c) }
    else if (c.lay == "dipole") uniform(c, c.x0).foldl([], (l, x) => l.append(x + rat(1, 100)))
    else uniform(c, c.x0)

  // ---- speed of every edge while it moves uniformly -----------------------
  pure def shockEnd(c: Cfg): List[int] = {
    val stop = if (c.moving) -mul(c.tf, c.v0) else 0
    linspace(-c.x0, stop, c.n / 2).slice(0, c.n / 2).concat(linspace(stop, c.x0, c.n / 2))
  }
  pure def uniformSpeed(c: Cfg): List[int] =
    if (tracked(c) or (isSquare(c) and not(c.thick))) {
      val e = layout(c)
      val wide = e[c.n] - c.x0
      tab(c.n + 1, k =>
        if (e[k] > c.x0) mul(c.v, div(e[k] - c.x0, wide))
        else if (e[k] < -c.x0) mul(c.v, div(e[k] + c.x0, wide))
        else 0)
    } else if (isBoundary(c)) {
      val e = layout(c)
      val f = shockEnd(c)
      tab(c.n + 1, k => div(f[k] - e[k], c.tf))
    } else if (c.thick and isGauss(c) and not(c.moving)) tab(c.n + 1, _ => 0)
    else {
      val e = uniform(c, c.x0)
      tab(c.n + 1, k => mul(c.v, div(e[k], c.x0)))
    }

  // ---- arrival of the outermost edge at the wall --------------------------
  pure val NEVER: int = 1000000000 * S
  pure def timeToWall(c: Cfg, pos: int, speed: int, acc: int): int = {
    val room = half(c.width) - pos
    val disc = sq(speed) + 2 * mul(acc, room)
    if (room <= 0) 0
    else if (disc < 0) NEVER
    else {
      val d = speed + sqrt(disc)
      if (d <= 0) NEVER else div(2 * room, d)
    }
  }

  // the two phases of a finite square source: uniform until the source is
  // switched off, then accelerated so that the grid is even at the final time
  pure def phase(c: Cfg, t: int): { pos: List[int], speed: List[int], acc: List[int], start: int } = {
    val e = layout(c)
    val s = uniformSpeed(c)
    val zero = tab(c.n + 1, _ => 0)
    val early = timeToWall(c, e[c.n], s[c.n], 0)
    if (c.lay == "squareSrc" and not(c.root) and t > c.t0 and early > c.t0) {
      val p = tab(c.n + 1, k => e[k] + mul(s[k], c.t0))
      val goal = uniform(c, c.pad)
      val T = c.tf - c.t0
      val a = tab(c.n + 1, k => div(2 * (goal[k] - p[k] - mul(s[k], T)), sq(T)))
      { pos: p, speed: s, acc: a, start: c.t0 }
    } else { pos: e, speed: s, acc: zero, start: 0 }
  }
  pure def walled(c: Cfg): bool = c.finite and isSquare(c)
  // how far the front is: the square root is cut off at the start
  pure val EARLY: int = rat(1, 10000000000)
  pure def rootOf(t: int): int = sqrt(imax(t, EARLY))
  pure def rootStop(c: Cfg): int = {
    val room = half(c.width) - layout(c)[c.n]
    val d = mul(uniformSpeed(c)[c.n], c.factor)
    if (room <= 0) 0 else if (d <= 0) NEVER else div(room, d)
  }
  pure def stopTime(c: Cfg, t: int): int = if (not(walled(c))) NEVER else if (rooted(c)) sq(imin(rootStop(c), 1000000 * S)) else {
    val q = phase(c, t)
    q.start + timeToWall(c, q.pos[c.n], q.speed[c.n], q.acc[c.n])
  }

  pure def movingEdges(c: Cfg, t: int): List[int] = if (rooted(c)) {
    val r = imin(rootOf(t), rootStop(c))
    tab(c.n + 1, k => layout(c)[k] + mul(mul(uniformSpeed(c)[k], c.factor), r))
  } else {
    val q = if (walled(c)) phase(c, t)
            else { pos: layout(c), speed: uniformSpeed(c), acc: tab(c.n + 1, _ => 0), start: 0 }
    val s = imin(t, stopTime(c, t)) - q.start
    tab(c.n + 1, k => q.pos[k] + mul(q.speed[k], s) + half(mul(q.acc[k], sq(s))))
  }
  pure def movingSpeeds(c: Cfg, t: int): List[int] = if (rooted(c)) {
    if (rootOf(t) >= rootStop(c)) tab(c.n + 1, _ => 0)
    else tab(c.n + 1, k => div(mul(uniformSpeed(c)[k], c.factor), 2 * rootOf(t)))
  } else {
    val q = if (walled(c)) phase(c, t)
            else { pos: layout(c), speed: uniformSpeed(c), acc: tab(c.n + 1, _ => 0), start: 0 }
    if (t >= stopTime(c, t)) tab(c.n + 1, _ => 0)
    else tab(c.n + 1, k => q.speed[k] + mul(q.acc[k], t - q.start))
  }

  // ---- what the solver is told --------------------------------------------
  pure def edgesAt(c: Cfg, t: int): List[int] =
    if (c.moving) movingEdges(c, t)
    else if (c.lay == "squareIC" and c.finite) uniform(c, half(c.width))
    else movingEdges(c, c.tf)
  pure def speedsAt(c: Cfg, t: int): List[int] =
    if (c.moving) movingSpeeds(c, t) else tab(c.n + 1, _ => 0)

  // times at which the speed jumps: the end of the uniform phase and the wall
  pure def kinks(c: Cfg): List[int] =
    if (not(walled(c))) [] else if (rooted(c)) [stopTime(c, 0)] else [c.t0, stopTime(c, 0), stopTime(c, c.tf)]
  pure def smooth(c: Cfg, t: int, margin: int): bool =
    kinks(c).indices().forall(k => abs(t - kinks(c)[k]) > margin)

  pure def nearby(c: Cfg, t: int): bool = t + rat(1, 1000) < c.tf and smooth(c, t, rat(1, 10000)) and
    (rooted(c) implies t > rat(1, 100))

  // the problems that exist: boundary driven and dipole problems are slabs,
  // the slab layout of square problems needs a multiple of four cells
  pure def legal(c: Cfg): bool = and {
    (c.lay == "dipole" or c.lay == "boundary") implies not(c.sphere),
    c.lay == "boundary" implies (not(c.thick) and c.n % 2 == 0 and mul(c.v0, c.tf) < c.x0),
    isSquare(c) and not(c.sphere) implies c.n % 4 == 0,
    tracked(c) implies (not(c.sphere) and c.n % 4 == 0),
    isSquare(c) and c.sphere implies c.n >= 3,
    isSquare(c) implies c.width > 2 * c.x0 + 2 * GAP + rat(1, 10),
    c.lay == "squareSrc" and c.finite implies and {
      c.pad > c.x0 + rat(1, 10), 2 * c.pad <= c.width },
  }
}
