// Radiation that has not yet collided, for a unit meet section: every source
// seen along the characteristics of the streaming operator.
module free {
  import fx.* from "./fx"
  import quadtab.* from "./quadtab"
  import dg.* from "./dg"

  type Free = { kind: str, sphere: bool, beams: bool, x0: int, t0: int, sigma: int, strength: int, v0: int, mu: List[int], w: List[int] }

  pure def overlap(a: int, b: int, c: int, d: int): int = imax(0, imin(b, d) - imax(a, c))
  // int_a^b e^-s ds and int_a^b e^-s / s ds
  pure def decay(a: int, b: int): int = if (b <= a) 0 else exp(-a) - exp(-b)
  pure def logDecay(a: int, b: int): int = if (b <= a) 0 else expi(-b) - expi(-a)
  // Gauss rule on panels
  pure def panel(a: int, b: int, z: int): int = half(mul(z, b - a) + a + b)

  // a source that radiates equally in all directions, square profile; s = age
  // of the radiation: (e^-s / 2s) * |[x-s, x+s] n [-x0, x0]|
  pure def squareAges(p: Free, x: int, lo: int, hi: int): int = {
    val ax = abs(x)
    val p1 = abs(p.x0 - ax)
    val p2 = p.x0 + ax
    val near_ = if (ax < p.x0) decay(lo, imin(hi, p1)) else 0
    val a = imax(lo, p1)
    val b = imin(hi, p2)
    val c = p.x0 - ax
    val mid = if (b <= a) 0 else half(decay(a, b) + (if (c == 0) 0 else mul(c, logDecay(a, b))))
    val far = mul(p.x0, logDecay(imax(lo, p2), hi))
    near_ + mid + far
  }
  // gaussian profile at age s
  pure def gaussAge(p: Free, x: int, s: int): int =
    if (s == 0) bell(p, x) else div(mul(mul(p.sigma, half(sqrt(PI))), mul(exp(-s), erf(div(x + s, p.sigma)) - erf(div(x - s, p.sigma)))), 2 * s)
  pure def bell(p: Free, x: int): int = exp(-quo(sq(x) * S, sq(p.sigma)))

  pure val R3: int = sqrt(3 * S)
  // two beams: ages at which the point sees the interval
  pure def beamSquare(p: Free, x: int, lo: int, hi: int): int =
    half(List(x, -x).foldl(0, (r, y) => r + decay(imax(lo, mul(R3, y - p.x0)), imin(hi, mul(R3, y + p.x0)))))
  pure def beamGauss(p: Free, x: int, lo: int, hi: int): int = {
    val z = glx(24)
    val w = glw(24)
    mul(quo(hi - lo, 4), sum(tab(24, k => {
      val s = panel(lo, hi, z[k])
      val d = div(s, R3)
      mul(w[k], mul(exp(-s), bell(p, x - d) + bell(p, x + d)))
    })))
  }
  pure def gaussAges(p: Free, x: int, lo: int, hi: int): int = {
    val z = glx(24)
    val w = glw(24)
    val mid = half(lo + hi)
    half(sum(tab(24, k => mul(w[k],
      mul(mid - lo, gaussAge(p, x, panel(lo, mid, z[k]))) + mul(hi - mid, gaussAge(p, x, panel(mid, hi, z[k])))))))
  }

  // radiation that enters at -x0 and crosses a density jump travelling with -v0
  pure def depth(p: Free, x: int, te: int, mu: int): int = {
    val X = -p.x0
    // position of the jump when the radiation meets it: s + v0 (te + (s + x0)/mu) = 0
    val meet = -div(mul(p.v0, mul(te, mu) - X), mu + p.v0)
    val mid = imin(x, imax(X, meet))
    val z = glx(20)
    val w = glw(20)
    val dense = mul(half(x - mid), sum(tab(20, k => {
      val s = panel(mid, x, z[k])
      val y = s + mul(p.v0, te + div(s - X, mu))
      mul(w[k], exp(-quo(sq(y + S), 4)))
    })))
    div(quo(mid - X, 5) + dense, mu)
  }
  pure def entered(p: Free, x: int, t: int): int =
    sum(tab(length(p.mu), k => if (p.mu[k] <= 0) 0 else {
      val te = t - div(x + p.x0, p.mu[k])
      if (te < 0 or te > p.t0) 0 else mul(p.w[k], exp(-depth(p, x, te, p.mu[k])))
    }))

  pure def unit(p: Free, x: int, t: int): int = {
    val lo = imax(0, t - p.t0)
    if (p.sphere) {
      // a ball of radius x0, one particle in total
      val c = if (t == 0 or x == 0) (if (x + t < p.x0) -S else S)
              else imin(S, imax(-S, div(sq(t) + sq(x) - sq(p.x0), 2 * mul(x, t))))
      div(mul(half(S - c), exp(-t)), quo(4 * mul(PI, mul(p.x0, sq(p.x0))), 3))
    } else if (p.kind == "plane") (if (abs(x) <= t) div(exp(-t), 2 * t) else 0)
    else if (p.kind == "squareIC" and t == 0) (if (abs(x) <= p.x0) S else 0)
    else if (p.kind == "squareIC") div(mul(exp(-t), overlap(x - t, x + t, -p.x0, p.x0)), 2 * t)
    else if (p.kind == "gaussIC") gaussAge(p, x, t)
    else if (p.kind == "squareSrc") (if (p.beams) beamSquare(p, x, lo, t) else squareAges(p, x, lo, t))
    else if (p.kind == "gaussSrc") (if (p.beams) beamGauss(p, x, lo, t) else gaussAges(p, x, lo, t))
    else entered(p, x, t)
  }
  pure def uncollided(p: Free, x: int, t: int): int = mul(p.strength, unit(p, x, t))

  // no jump of the solution within a margin of the point
  pure def clean(p: Free, x: int, t: int, margin: int): bool =
    if (p.sphere) abs(abs(x - t) - p.x0) > margin and abs(x + t - p.x0) > margin
    else if (p.kind == "plane") abs(abs(x) - t) > margin
    else if (p.kind == "boundary") p.mu.indices().forall(k => p.mu[k] <= 0 or {
      val te = t - div(x + p.x0, p.mu[k])
      abs(te) > margin and abs(te - p.t0) > margin and abs(p.mu[k] + p.v0) > margin
    })
    else true

  // how far it can have come
  pure def reach(p: Free, t: int): int =
    if (p.kind == "plane") t
    else if (p.kind == "squareIC" or p.sphere) p.x0 + t
    else if (p.kind == "squareSrc") p.x0 + (if (p.beams) div(t, R3) else t)
    else 1000 * S

  // number of uncollided particles
  pure def emitted_(p: Free): int =
    if (p.sphere or p.kind == "plane") S
    else if (p.kind == "squareIC" or p.kind == "squareSrc") 2 * p.x0
    else mul(p.sigma, sqrt(PI))
  pure def count(p: Free, t: int): int =
    mul(mul(p.strength, emitted_(p)),
      if (p.sphere or p.kind == "plane" or p.kind == "squareIC" or p.kind == "gaussIC") exp(-t)
      else decay(imax(0, t - p.t0), t))
  // places where the solution is not smooth
  pure def kinks_(p: Free, t: int): List[int] =
    if (p.kind == "plane") [t]
    else if (p.kind == "squareIC") [abs(t - p.x0), t + p.x0]
    else if (p.kind == "squareSrc") {
      val s = if (p.beams) R3 else S
      val d = imax(0, t - p.t0)
      [abs(p.x0 - div(d, s)), p.x0, p.x0 + div(d, s), abs(p.x0 - div(t, s)), p.x0 + div(t, s)]
    }
    else [p.sigma, 2 * p.sigma, 3 * p.sigma, t, t + 2 * p.sigma]
}
