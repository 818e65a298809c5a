// Element matrices of a spherical shell [a, b] with moving ends: integrals of
// the basis B_n = e_n T_n(z)/sqrt(pi h), e_0 = 1, e_n = sqrt 2, by Gauss rules
// that are exact for them.
module sph {
  import fx.* from "./fx"
  import quadtab.* from "./quadtab"
  import dg.* from "./dg"

  // z nodes, weights, T_i at the nodes, T_i' at the nodes, radii
  type Nodes = { n: int, w: List[int], z: List[int], p: List[List[int]], d: List[List[int]], r: List[int] }
  // T_n' = n U_(n-1); U_(k+1) = 2 z U_k - U_(k-1)
  pure def dchebAll(m: int, z: int): List[int] = {
    val u = range(0, imax(m, 1)).foldl([], (l, k) =>
      l.append(if (k == 0) S else if (k == 1) 2 * z else 2 * mul(z, l[k - 1]) - l[k - 2]))
    tab(m + 1, n => if (n == 0) 0 else n * u[n - 1])
  }
  pure def nodes(m: int, a: int, b: int): Nodes = {
    val n = m + 3
    val z = glx(n)
    { n: n, w: glw(n), z: z, p: tab(n, k => chebAll(m, z[k])), d: tab(n, k => dchebAll(m, z[k])),
      r: tab(n, k => atNode(z[k], a, b)) }
  }
  pure def ee(i: int, j: int): int = mul(edgeRoot(i), edgeRoot(j))
  // sum over nodes of weight * f_k * left_i * right_j, times e_i e_j
  pure def gram(m: int, q: Nodes, f: List[int], left: List[List[int]], right: List[List[int]]): List[List[int]] = {
    val wf = tab(q.n, k => mul(q.w[k], f[k]))
    val lf = tab(q.n, k => tab(m + 1, i => mul(wf[k], left[k][i])))
    tab(m + 1, i => tab(m + 1, j => mul(ee(i, j), sum(tab(q.n, k => mul(lf[k][i], right[k][j]))))))
  }
  pure def scaled(c: int, a: List[List[int]]): List[List[int]] = tab(length(a), i => scale(c, a[i]))
  pure def added(a: List[List[int]], b: List[List[int]]): List[List[int]] = tab(length(a), i => addl(a[i], b[i]))
  pure val HALFPI: int = div(S, 2 * PI)      // 1/(2 pi)

  // int r^2 B_i B_j dr
  pure def mass(m: int, a: int, b: int): List[List[int]] = {
    val q = nodes(m, a, b)
    scaled(HALFPI, gram(m, q, tab(q.n, k => sq(q.r[k])), q.p, q.p))
  }
  // int r B_i B_j dr
  pure def curvature(m: int, a: int, b: int): List[List[int]] = {
    val q = nodes(m, a, b)
    scaled(HALFPI, gram(m, q, q.r, q.p, q.p))
  }
  // int r^2 B_j dB_i/dr dr
  pure def streamSphere(m: int, a: int, b: int): List[List[int]] = {
    val q = nodes(m, a, b)
    scaled(div(S, mul(PI, b - a)), gram(m, q, tab(q.n, k => sq(q.r[k])), q.d, q.p))
  }
  // int r^2 B_j dB_i/dt dr, at fixed radius
  pure def driftSphere(m: int, a: int, b: int, da: int, db: int): List[List[int]] = {
    val q = nodes(m, a, b)
    val h = b - a
    val r2 = tab(q.n, k => sq(q.r[k]))
    val zt = tab(q.n, k => div(-(da + db) - mul(q.z[k], db - da), h))
    val moved = gram(m, q, tab(q.n, k => mul(r2[k], zt[k])), q.d, q.p)
    val wider = gram(m, q, r2, q.p, q.p)
    added(scaled(HALFPI, moved), scaled(-mul(HALFPI, div(db - da, 2 * h)), wider))
  }
  // d/dt int r^2 B_i B_j dr over the moving shell
  pure def massRate(m: int, a: int, b: int, da: int, db: int): List[List[int]] = {
    val q = nodes(m, a, b)
    // velocity of the point with local coordinate z
    scaled(HALFPI, gram(m, q, tab(q.n, k => mul(q.r[k], mul(q.z[k], db - da) + da + db)), q.p, q.p))
  }
  // int r^2 q B_j dr for q given at the nodes of an n point rule
  pure def momentsSphere(m: int, n: int, f: List[int], a: int, b: int): List[int] = {
    val z = glx(n)
    val w = glw(n)
    val p = tab(n, k => chebAll(m, z[k]))
    val c = half(div(b - a, sqrt(mul(PI, b - a))))
    tab(m + 1, j => mul(mul(c, edgeRoot(j)),
      sum(tab(n, k => mul(mul(mul(w[k], sq(atNode(z[k], a, b))), f[k]), p[k][j])))))
  }

  // ---- angular redistribution ------------------------------------------------
  // (1 - mu^2) psi is exchanged between neighbouring directions at the midpoints
  // and vanishes at mu = -1 and mu = 1
  pure def faces(mu: List[int]): List[int] =
    tab(length(mu) + 1, l => if (l == 0) -S else if (l == length(mu)) S else half(mu[l - 1] + mu[l]))
  pure def redistributed(mu: List[int], psi: List[int]): List[int] = {
    val n = length(mu)
    val f = faces(mu)
    val flow = tab(n + 1, l => if (l == 0 or l == n) 0 else mul(S - sq(f[l]), half(psi[l - 1] + psi[l])))
    tab(n, l => div(flow[l + 1] - flow[l], f[l + 1] - f[l]))
  }
}
