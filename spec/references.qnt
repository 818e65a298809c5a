// The solutions drawn next to boundary driven runs: unit radiation that enters
// at the left wall and is attenuated along its way by the opacity of the run.
module references {
  import fx.* from "./fx"
  import quadtab.* from "./quadtab"
  import dg.* from "./dg"
  import free.* from "./free"

  type Medium = { kind: str, wall: int, v0: int, t0: int }
  var med: Medium
  var t: int
  var mu: List[int]
  var w: List[int]
  var xs: List[int]
  var psi: List[List[int]]     // by direction and point
  var phi: List[int]
  var ok: List[bool]           // away from the fronts
  var curve: int              // points of the drawn curve
  var exits: { at: List[int], left: List[int], right: List[int] }   // tabulated exit distributions
  var leaving: List[List[int]] // what leaves the run, by direction and end
  var history: List[List[int]] // and its total at the evaluation times
  var at: List[int]            // which of them the points are

  pure val OFF: Free = { kind: "boundary", sphere: false, beams: false, x0: 5 * S, t0: 0, sigma: S, strength: S, v0: 0, mu: [], w: [] }
  // optical depth between the wall and x of radiation that is at x at time t
  pure def between(m: Medium, x: int, time: int, u: int): int =
    if (m.kind == "front") depth(OFF.with("x0", m.wall).with("v0", m.v0), x, time - div(x + m.wall, u), u)
    else if (m.kind == "plain") div(x + m.wall, u)
    else {
      val z = glx(24)
      val c = glw(24)
      val mid = half(x - m.wall)
      div(List({ a: -m.wall, b: mid }, { a: mid, b: x }).foldl(0, (r, q) => r + mul(half(q.b - q.a), sum(tab(24, k => {
        val s = panel(q.a, q.b, z[k])
        // a bell that travels with v0, seen when the radiation is there
        val y = s - (if (m.v0 == 0) 0 else mul(m.v0, time - div(x - s, u)))
        mul(c[k], exp(-quo(sq(y) * S, 8 * S)))
      })))), u)
    }
  // the radiation in direction u
  pure def incoming(m: Medium, x: int, time: int, u: int): int =
    if (u <= 0) 0
    else {
      val enter = time - div(x + m.wall, u)
      if (m.kind != "steady" and m.kind != "plain" and (enter < 0 or (m.kind == "front" and enter > m.t0))) 0 else exp(-between(m, x, time, u))
    }
  pure def away(m: Medium, x: int, time: int, u: int, margin: int): bool =
    u <= 0 or m.kind == "steady" or m.kind == "plain" or {
      val enter = time - div(x + m.wall, u)
      abs(enter) > margin and (m.kind != "front" or abs(enter - m.t0) > margin)
    }

  // Exit distributions of a slab of thickness 5 with unit radiation entering on
  // the left and a scattering ratio exp(-x/s), s = 1 and infinity (Garcia and
  // Siewert).  The digits are those of the integral equation
  // phi = E2 + 1/2 int c(y) phi(y) E1(|x-y|) dy solved with graded product rules.
  pure val MUS: List[int] = List(rat(5, 100), rat(1, 10), rat(2, 10), rat(3, 10), rat(4, 10), rat(5, 10), rat(6, 10), rat(7, 10), rat(8, 10), rat(9, 10), S)
  pure val LEFT1: List[int] = List(5896639, 5311199, 4432796, 3803062, 3329644, 2960902, 2665635, 2423895, 2222348, 2051743, 1905465)
  pure val RIGHT1: List[int] = List(60749, 69252, 96423, 162339, 438580, 1693724, 5734651, 15128178, 32436929, 59603567, 97712321)
  pure val LEFT2: List[int] = List(8977975, 8878361, 8695811, 8522993, 8355032, 8189957, 8026761, 7864927, 7704294, 7544962, 7387212)
  pure val RIGHT2: List[int] = List(1022025, 1121639, 1304189, 1477007, 1644968, 1810043, 1973239, 2135073, 2295706, 2455038, 2612788)
  pure def exitsOf(kind: str): { at: List[int], left: List[int], right: List[int] } =
    if (kind == "siewert1") { at: MUS, left: LEFT1.foldl(List(), (l, v) => l.append(rat(v, 10000000))), right: RIGHT1.foldl(List(), (l, v) => l.append(rat(v, 10000000000))) }
    else if (kind == "siewert2") { at: MUS, left: LEFT2.foldl(List(), (l, v) => l.append(rat(v, 10000000))), right: RIGHT2.foldl(List(), (l, v) => l.append(rat(v, 10000000))) }
    else { at: List(), left: List(), right: List() }

  action pick = {
    nondet seed = 1.to(1000000).oneOf()
    nondet kind = Set("front", "steady", "bell", "plain", "siewert1", "siewert2").oneOf()
    nondet n = Set(2, 3, 4, 5, 6).oneOf()
    nondet lob = Set(true, false).oneOf()
    val l = lob and n > 2
    // the two travelling ones start at -5, the steady one at the wall of the run
    val here = kind == "steady" or kind == "plain"
    val wall = if (here) rndIn(seed, 1, HALF, 6 * S) else 5 * S
    val m = { kind: kind, wall: wall, v0: if (kind == "front") quo(rndIn(seed, 2, -(S / 10), S), 10) else if (kind == "bell") -quo(S, 4) else 0,
              t0: rndIn(seed, 3, HALF, 8 * S) }
    val time = rndIn(seed, 4, HALF, 14 * S)
    // the curve of the plain medium is that of the radiation straight ahead
    val mus = if (kind == "plain") List(S) else if (l) lobx(n) else glx(n)
    val ws = if (kind == "plain") List(S) else if (l) lobw(n) else glw(n)
    val pts = 50
    // ends of the grid of the run
    val lo = if (here) -wall else -wall + quo(rndInt(seed, 5, 100) * S, 1000)
    val hi = lo + quo(2 * wall * (50 + rndInt(seed, 6, 50)), 100)
    val pick_ = tab(4, k => rndInt(seed, 10 + k, pts))
    val points = tab(4, k => lo + quo((hi - lo) * pick_[k], pts - 1))
    val flux = tab(length(mus), a => tab(4, k => incoming(m, points[k], time, mus[a])))
    all {
      med' = m, t' = time, mu' = mus, w' = ws, xs' = points, at' = pick_, curve' = pts, psi' = flux,
      phi' = tab(4, k => sum(tab(length(mus), a => mul(ws[a], flux[a][k])))),
      exits' = exitsOf(kind), leaving' = tab(length(mus), i => rndVec(seed + 7 * i, 2)), history' = tab(3, i => rndVec(seed + 11 * i + 3, 2)),
      ok' = tab(4, k => tab(length(mus), a => away(m, points[k], time, mus[a], rat(1, 1000000))).foldl(true, (r, b) => r and b))
    }
  }
  action init = pick
  action step = pick

  // ---- properties -----------------------------------------------------------
  pure val EPS: int = rat(1, 1000000000000)
  val bounded = psi.indices().forall(a => psi[a].indices().forall(k => psi[a][k] >= 0 and psi[a][k] <= S + EPS))
  // nothing travels against its direction
  val forward = psi.indices().forall(a => mu[a] <= 0 implies psi[a].indices().forall(k => psi[a][k] == 0))
  // the steady one only decreases along the way
  val fading = (med.kind == "steady" or med.kind == "plain") implies psi.indices().forall(a => xs.indices().forall(i => xs.indices().forall(j =>
    xs[i] < xs[j] implies psi[a][i] >= psi[a][j] - EPS)))
  val total = phi.indices().forall(k => phi[k] <= 2 * S + EPS)
  // what is not absorbed leaves: without absorption every direction balances
  val balanced = med.kind == "siewert2" implies exits.at.indices().forall(i => close(exits.left[i] + exits.right[i], S, rat(3, 10000000)))
  val steeper = exits.at.indices().forall(i => i == 0 or (exits.left[i] < exits.left[i - 1] and exits.right[i] > exits.right[i - 1]))
  val safe = balanced and steeper and bounded and forward and fading and total
}
