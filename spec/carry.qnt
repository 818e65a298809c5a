// Carrying a problem through time.  The state is kept as the moments
//   b[direction][cell][i] = int_cell psi P_i dx     (slab)
//   b[direction][cell][i] = int_cell r^2 psi T_i dr (sphere)
// for which the moving cell balance is conservative:
//   d b_i/dt = int psi (mu d/dx + d/dt) P_i - [P_i (mu - v) psi] - sigT b_i + sigS phi_i + q_i/2
// so that none of the closed forms of evolve.qnt and sphere.qnt is needed; both
// formulations are compared in runs.qnt.
module carry {
  import fx.* from "./fx"
  import quadtab.* from "./quadtab"
  import grid.* from "./grid"
  import dg.* from "./dg"
  import sph.* from "./sph"
  import free.* from "./free"
  import evolve.* from "./evolve"

  type Moments = List[List[List[int]]]
  type Coefs = List[List[List[int]]]

  // ---- slab ----------------------------------------------------------------------
  pure def toMoments(g: List[int], u: Coefs): Moments =
    tab(length(u), l => tab(length(g) - 1, k => {
      val r = sqrt(g[k + 1] - g[k])
      tab(length(u[l][k]), j => div(mul(u[l][k][j], r), root(j)))
    }))
  pure def toCoefs(g: List[int], b: Moments): Coefs =
    tab(length(b), l => tab(length(g) - 1, k => {
      val r = sqrt(g[k + 1] - g[k])
      tab(length(b[l][k]), j => div(mul(b[l][k][j], root(j)), r))
    }))
  // int P_j P_i' dz and int z P_j P_i' dz
  pure def slope0(i: int, j: int): int = if (i > j and (i + j) % 2 == 1) 2 else 0
  pure def slope1(i: int, j: int): int =
    if (i == j) rat(2 * i, 2 * i + 1) else if (i > j and (i - j) % 2 == 0) 2 * S else 0
  pure def alternating(a: List[int]): int = a.indices().fold(0, (s, j) => s + signAt(j) * a[j])
  // moments of f by the n point Gauss rule on a cell of width h, f given at the nodes
  pure def measured(m: int, n: int, f: List[int], h: int): List[int] = {
    val z = glx(n)
    val w = glw(n)
    val wf = tab(n, k => mul(w[k], f[k]))
    val p = tab(n, k => legendreAll(m, z[k]))
    tab(m + 1, i => half(mul(h, sum(tab(n, k => mul(wf[k], p[k][i]))))))
  }
  pure def given(p: Prob, ana: bool, fr: Free, x: int, t: int, mu: int): int =
    if (ana) mul(p.sigS, uncollided(fr, x, t)) else emission(p, x, t, mu)
  // the cross section acts on an expansion through its own expansion of order ms
  pure def absorbed(p: Prob, a: List[int], lo: int, hi: int, t: int): List[int] = {
    val h = hi - lo
    val zn = glx(p.nq)
    val wn = glw(p.nq)
    val sv = tab(p.nq, k => mul(wn[k], sigmaAt(p.opac, atNode(zn[k], lo, hi), t, p.v0)))
    val pn = tab(p.nq, k => legendreAll(p.ms, zn[k]))
    val c = tab(p.ms + 1, r => quo((2 * r + 1) * sum(tab(p.nq, k => mul(sv[k], pn[k][r]))), 2))
    val n = p.m + quo(p.ms, 2) + 2
    val z = glx(n)
    val q = tab(n, k => legendreAll(imax(p.m, p.ms), z[k]))
    measured(p.m, n, tab(n, k => mul(sum(tab(p.ms + 1, r => mul(c[r], q[k][r]))), sum(tab(p.m + 1, j => mul(a[j], q[k][j]))))), h)
  }
  pure def changeSlab(c: Cfg, p: Prob, ana: bool, fr: Free, t: int, b: Moments): Moments = {
    val g = edgesAt(c, t)
    val v = speedsAt(c, t)
    val mu = directions(p)
    val w = weights(p)
    val m = p.m
    val inL = incoming(p, true, g, t)
    val inR = incoming(p, false, g, t)
    val plain = p.opac == "constant"
    val silent = p.src == "none" and not(ana)
    val mean = tab(c.n, k => tab(m + 1, j => sum(tab(p.ang, l => mul(w[l], b[l][k][j])))))
    val gain = tab(c.n, k => scale(p.sigS, if (plain) mean[k] else
      absorbed(p, tab(m + 1, j => div((2 * j + 1) * mean[k][j], g[k + 1] - g[k])), g[k], g[k + 1], t)))
    val iso = tab(c.n, k => if (silent or p.src == "mms") tab(m + 1, _ => 0) else
      measured(m, p.nq, tab(p.nq, i => given(p, ana, fr, atNode(glx(p.nq)[i], g[k], g[k + 1]), t, 0)), g[k + 1] - g[k]))
    tab(p.ang, l => {
      val a = tab(c.n, k => tab(m + 1, j => div((2 * j + 1) * b[l][k][j], g[k + 1] - g[k])))
      val f = tab(c.n + 1, k => upwind(mu[l] - v[k], if (k == 0) inL else sum(a[k - 1]), if (k == c.n) inR else alternating(a[k])))
      tab(c.n, k => {
        val lost = scale(p.sigT, if (plain) b[l][k] else absorbed(p, a[k], g[k], g[k + 1], t))
        val own = if (p.src != "mms") iso[k] else
          measured(m, p.nq, tab(p.nq, i => emission(p, atNode(glx(p.nq)[i], g[k], g[k + 1]), t, mu[l])), g[k + 1] - g[k])
        val c0 = mu[l] - half(v[k] + v[k + 1])
        val c1 = half(v[k + 1] - v[k])
        tab(m + 1, i => sum(tab(i + 1, j => slope0(i, j) * mul(c0, a[k][j]) - mul(slope1(i, j), mul(c1, a[k][j]))))
          - f[k + 1] + signAt(i) * f[k] - lost[i] + gain[k][i] + half(own[i]))
      })
    })
  }

  // ---- sphere ----------------------------------------------------------------------
  // a symmetric positive definite system, by elimination
  pure def solved(a: List[List[int]], b: List[int]): List[int] = {
    val n = length(b)
    val rows = tab(n, i => a[i].append(b[i]))
    val up = range(0, n).foldl(rows, (m, k) => tab(n, i => if (i <= k) m[i] else {
      val f = div(m[i][k], m[k][k])
      tab(n + 1, j => m[i][j] - mul(f, m[k][j]))
    }))
    range(0, n).foldl(b, (x, q) => {
      val i = n - 1 - q
      val s = sum(tab(n, j => if (j > i) mul(up[i][j], x[j]) else 0))
      x.replaceAt(i, div(up[i][n] - s, up[i][i]))
    })
  }
  // int r^p L_i R_j dr over a shell, values at Gauss nodes
  pure def shellGram(m: int, n: int, h: int, f: List[int], left: List[List[int]], right: List[List[int]]): List[List[int]] = {
    val w = glw(n)
    val wf = tab(n, k => half(mul(h, mul(w[k], f[k]))))
    tab(m + 1, i => tab(m + 1, j => sum(tab(n, k => mul(mul(wf[k], left[k][i]), right[k][j])))))
  }
  pure def shellMass(m: int, a: int, b: int): List[List[int]] = {
    val n = m + 3
    val z = glx(n)
    val q = tab(n, k => chebAll(m, z[k]))
    shellGram(m, n, b - a, tab(n, k => sq(atNode(z[k], a, b))), q, q)
  }
  // the basis of the code is e_j T_j / sqrt(pi h)
  pure def toMomentsS(g: List[int], u: Coefs): Moments =
    tab(length(u), l => tab(length(g) - 1, k => {
      val r = sqrt(mul(PI, g[k + 1] - g[k]))
      apply(shellMass(length(u[l][k]) - 1, g[k], g[k + 1]), tab(length(u[l][k]), j => div(mul(edgeRoot(j), u[l][k][j]), r)))
    }))
  pure def toCoefsS(g: List[int], b: Moments): Coefs =
    tab(length(b), l => tab(length(g) - 1, k => {
      val r = sqrt(mul(PI, g[k + 1] - g[k]))
      val a = solved(shellMass(length(b[l][k]) - 1, g[k], g[k + 1]), b[l][k])
      tab(length(a), j => div(mul(a[j], r), edgeRoot(j)))
    }))
  pure def changeSphere(c: Cfg, p: Prob, ana: bool, fr: Free, t: int, b: Moments): Moments = {
    val g = edgesAt(c, t)
    val v = speedsAt(c, t)
    val mu = directions(p)
    val w = weights(p)
    val m = p.m
    val n = m + 3
    val z = glx(n)
    val T = tab(n, k => chebAll(m, z[k]))
    val dT = tab(n, k => dchebAll(m, z[k]))
    val r = tab(c.n, k => tab(n, i => atNode(z[i], g[k], g[k + 1])))
    val ms = tab(c.n, k => shellGram(m, n, g[k + 1] - g[k], tab(n, i => sq(r[k][i])), T, T))
    val cv = tab(c.n, k => shellGram(m, n, g[k + 1] - g[k], r[k], T, T))
    // with d/dr of the local coordinate 2/h, and its rate at a fixed radius
    val st = tab(c.n, k => shellGram(m, n, 2 * S, tab(n, i => sq(r[k][i])), dT, T))
    val dr = tab(c.n, k => shellGram(m, n, S, tab(n, i => mul(sq(r[k][i]), 0 - v[k] - v[k + 1] - mul(z[i], v[k + 1] - v[k]))), dT, T))
    val a = tab(p.ang, l => tab(c.n, k => solved(ms[k], b[l][k])))
    val mean = tab(c.n, k => tab(m + 1, j => sum(tab(p.ang, l => mul(w[l], b[l][k][j])))))
    val turned_ = tab(c.n, k => tab(m + 1, j => redistributed(mu, tab(p.ang, l => a[l][k][j]))))
    val own = tab(c.n, k => if (not(ana)) tab(m + 1, _ => 0) else {
      val y = tab(p.nq, i => cos(quo((2 * i + 1) * PI, 2 * p.nq)))
      val Q = tab(p.nq, i => chebAll(m, y[i]))
      val f = tab(p.nq, i => {
        val x = atNode(y[i], g[k], g[k + 1])
        mul(mul(sqrt(S - sq(y[i])), sq(x)), mul(p.sigS, uncollided(fr, x, t)))
      })
      tab(m + 1, j => mul(mul(half(g[k + 1] - g[k]), quo(PI, p.nq)), sum(tab(p.nq, i => mul(f[i], Q[i][j])))))
    })
    tab(p.ang, l => {
      val f = tab(c.n + 1, k => mul(sq(g[k]), upwind(mu[l] - v[k],
        if (k == 0) alternating(a[p.ang - 1 - l][0]) else sum(a[l][k - 1]), if (k == c.n) 0 else alternating(a[l][k]))))
      tab(c.n, k => {
        val x = apply(st[k], a[l][k])
        val y = apply(dr[k], a[l][k])
        val q = apply(cv[k], tab(m + 1, j => turned_[k][j][l]))
        tab(m + 1, i => mul(mu[l], x[i]) + y[i] - f[k + 1] + signAt(i) * f[k] - q[i]
          - mul(p.sigT, b[l][k][i]) + mul(p.sigS, mean[k][i]) + half(own[k][i]))
      })
    })
  }

  // ---- time ------------------------------------------------------------------------
  pure def change(c: Cfg, p: Prob, ana: bool, fr: Free, t: int, b: Moments): Moments =
    if (c.sphere) changeSphere(c, p, ana, fr, t, b) else changeSlab(c, p, ana, fr, t, b)
  pure def shifted(u: Moments, d: Moments, h: int): Moments =
    tab(length(u), l => tab(length(u[l]), k => tab(length(u[l][k]), j => u[l][k][j] + mul(h, d[l][k][j]))))
  pure def rk4(c: Cfg, p: Prob, ana: bool, fr: Free, lo: int, h: int, u: Moments): Moments = {
    val k1 = change(c, p, ana, fr, lo, u)
    val k2 = change(c, p, ana, fr, lo + half(h), shifted(u, k1, half(h)))
    val k3 = change(c, p, ana, fr, lo + half(h), shifted(u, k2, half(h)))
    val k4 = change(c, p, ana, fr, lo + h, shifted(u, k3, h))
    tab(length(u), l => tab(length(u[l]), k => tab(length(u[l][k]), j =>
      u[l][k][j] + quo(mul(h, k1[l][k][j] + 2 * k2[l][k][j] + 2 * k3[l][k][j] + k4[l][k][j]), 6))))
  }
  // steps that grow: cells are narrow at the start
  pure def tick(n: int, graded: bool, a: int, b: int, i: int): int =
    if (graded) a + quo((b - a) * i * i, n * n) else a + quo((b - a) * i, n)
  pure def carried(c: Cfg, p: Prob, ana: bool, fr: Free, a: int, b: int, n: int, u: Moments): Moments =
    range(0, n).foldl(u, (r, i) => {
      val lo = tick(n, a == 0, a, b, i)
      val hi = tick(n, a == 0, a, b, i + 1)
      rk4(c, p, ana, fr, lo, hi - lo, r)
    })
}
