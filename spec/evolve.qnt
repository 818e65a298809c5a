// The right-hand side of the slab equations for a whole state.
module evolve {
  import fx.* from "./fx"
  import quadtab.* from "./quadtab"
  import grid.* from "./grid"
  import dg.* from "./dg"

  type Ends = { kind: str, left: bool, right: bool, strength: int, analytic: bool, t0: int }
  type Prob = {
    m: int, ang: int, lob: bool,        // order, directions, Gauss-Lobatto directions
    sigT: int, sigS: int, opac: str, ms: int, v0: int,
    nq: int,                            // size of the rule for sources and cross sections
    src: str, strength: int, width: int, x0: int, t0: int,
    ends: Ends
  }

  pure def directions(p: Prob): List[int] = if (p.lob) lobx(p.ang) else glx(p.ang)
  pure def weights(p: Prob): List[int] = {
    val w = if (p.lob) lobw(p.ang) else glw(p.ang)
    w.foldl([], (l, x) => l.append(half(x)))
  }

  // ---- sources that are not treated analytically ---------------------------
  pure def manufactured(x: int, t: int): int = div(exp(-half(sq(x))), 2 * (t + S))
  pure def emission(p: Prob, x: int, t: int, mu: int): int =
    if (p.src == "square") { if (abs(x) <= p.x0 and t < p.t0) p.strength else 0 }
    else if (p.src == "gauss") { if (t <= p.t0) mul(p.strength, exp(-quo(sq(x) * S, sq(p.width)))) else 0 }
    else if (p.src == "mms") {
      // makes exp(-x^2/2)/(2(1+t)) a solution when scattering balances absorption
      if (abs(x) <= t + p.x0)
        -div(mul(S + mul(mul(S + t, x), mu), exp(-half(sq(x)))), sq(S + t))
      else 0
    } else 0
  pure def emitted(p: Prob, a: int, b: int, t: int, mu: int): List[int] =
    if (p.src == "none") tab(p.m + 1, _ => 0)
    else {
      val z = glx(p.nq)
      moments(p.m, p.nq, tab(p.nq, k => emission(p, atNode(z[k], a, b), t, mu)), b - a)
    }

  // ---- radiation that enters at an end --------------------------------------
  pure def incoming(p: Prob, left: bool, g: List[int], t: int): int = {
    val e = p.ends
    val n = length(g) - 1
    val h = if (left) g[1] - g[0] else g[n] - g[n - 1]
    val a = if (left) g[0] - h else g[n]
    if (e.kind == "mms") {
      val z = glx(p.nq)
      ghost(p.m, p.nq, tab(p.nq, k => manufactured(atNode(z[k], a, a + h), t)), left)
    } else if (e.kind == "source" and not(e.analytic) and t <= e.t0 and (if (left) e.left else e.right)) e.strength
    else 0
  }

  // ---- the derivative of every coefficient ----------------------------------
  // V[angle][cell][j]
  pure def rhsSlab(p: Prob, g: List[int], v: List[int], t: int, V: List[List[List[int]]]): List[List[List[int]]] = {
    val n = length(g) - 1
    val mu = directions(p)
    val w = weights(p)
    val inL = incoming(p, true, g, t)
    val inR = incoming(p, false, g, t)
    val st = tab(n, k => stream(p.m, g[k], g[k + 1]))
    val dr = tab(n, k => drift(p.m, g[k], g[k + 1], v[k], v[k + 1]))
    val sg = tab(n, k => sigmaCoef(p.opac, p.ms, p.nq, g[k], g[k + 1], t, p.v0))
    val scat = tab(n, k => {
      val phi = tab(p.m + 1, j => sum(tab(p.ang, l => mul(w[l], V[l][k][j]))))
      scale(p.sigS, if (p.opac == "constant") phi else weighted(sg[k], phi, g[k + 1] - g[k]))
    })
    val iso = tab(n, k => emitted(p, g[k], g[k + 1], t, 0))
    tab(p.ang, l => tab(n, k => {
      val u = V[l][k]
      val lost = scale(p.sigT, if (p.opac == "constant") u else weighted(sg[k], u, g[k + 1] - g[k]))
      val q = if (p.src == "mms") emitted(p, g[k], g[k + 1], t, mu[l]) else iso[k]
      val a = apply(st[k], u)
      val b = apply(dr[k], u)
      val x = exchange(p.m, g, v, k, mu[l], V[l], inL, inR)
      tab(p.m + 1, i => mul(mu[l], a[i]) + b[i] - x[i] - lost[i] + scat[k][i] + half(q[i]))
    }))
  }

  // number of particles on the grid and its rate of change
  pure def particles(p: Prob, g: List[int], V: List[List[List[int]]]): int = {
    val w = weights(p)
    sum(tab(p.ang, l => mul(w[l], sum(tab(length(g) - 1, k => mul(sqrt(g[k + 1] - g[k]), V[l][k][0]))))))
  }
  pure def rate(p: Prob, g: List[int], v: List[int], V: List[List[List[int]]], D: List[List[List[int]]]): int = {
    val w = weights(p)
    sum(tab(p.ang, l => mul(w[l], sum(tab(length(g) - 1, k => {
      val r = sqrt(g[k + 1] - g[k])
      mul(r, D[l][k][0]) + div(mul(v[k + 1] - v[k], V[l][k][0]), 2 * r)
    })))))
  }
  // what the ends, the collisions and the source account for
  pure def budget(p: Prob, g: List[int], v: List[int], t: int, V: List[List[List[int]]]): int = {
    val n = length(g) - 1
    val mu = directions(p)
    val w = weights(p)
    val inL = incoming(p, true, g, t)
    val inR = incoming(p, false, g, t)
    val ends = sum(tab(p.ang, l => mul(w[l],
      upwind(mu[l] - v[0], inL, traceL(V[l][0], g[1] - g[0]))
      - upwind(mu[l] - v[n], traceR(V[l][n - 1], g[n] - g[n - 1]), inR))))
    val made = sum(tab(n, k => mul(sqrt(g[k + 1] - g[k]),
      half(sum(tab(p.ang, l => mul(w[l], emitted(p, g[k], g[k + 1], t, mu[l])[0])))))))
    ends + made - mul(p.sigT - p.sigS, particles(p, g, V))
  }
}
