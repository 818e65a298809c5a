// One evaluation of the evolution equation on a deforming grid.
//
// Every term is the definition of the method, not the closed form the
// implementation uses: the volume terms are integrals of the basis functions
// and of their space and time derivatives, evaluated with Gauss rules that are
// exact for them.
module dg {
  import fx.* from "./fx"
  import quadtab.* from "./quadtab"

  // ---- slab basis: B_n = sqrt((2n+1)/h) P_n(z) on [a, b] ---------------------
  pure def zOf(x: int, a: int, b: int): int = div(2 * x - a - b, b - a)
  pure def atNode(z: int, a: int, b: int): int = half(mul(z, b - a) + a + b)
  pure def root(n: int): int = sqrt(fxi(2 * n + 1))
  pure def signAt(n: int): int = if (n % 2 == 0) 1 else -1
  pure def basis(n: int, x: int, a: int, b: int): int =
    div(mul(root(n), legendre(n, zOf(x, a, b))), sqrt(b - a))
  // value of an expansion at the right or left end of a cell of width h
  pure def traceR(u: List[int], h: int): int =
    div(sum(tab(length(u), j => mul(root(j), u[j]))), sqrt(h))
  pure def traceL(u: List[int], h: int): int =
    div(sum(tab(length(u), j => signAt(j) * mul(root(j), u[j]))), sqrt(h))
  // moments of a function given at the nodes of the n point Gauss rule
  pure def moments(m: int, n: int, f: List[int], h: int): List[int] = {
    val z = glx(n)
    val w = glw(n)
    val p = tab(n, k => legendreAll(m, z[k]))
    val c = half(sqrt(h))
    tab(m + 1, j => mul(mul(c, root(j)), sum(tab(n, k => mul(mul(w[k], f[k]), p[k][j])))))
  }

  // ---- volume terms of a slab cell with moving ends ------------------------
  // stream[i][j] = int B_j dB_i/dx dx,  drift[i][j] = int B_j dB_i/dt dx
  pure def stream(m: int, a: int, b: int): List[List[int]] = {
    val n = m + 2
    val z = glx(n)
    val w = glw(n)
    val p = tab(n, k => legendreAll(m, z[k]))
    val d = tab(n, k => tab(m + 1, i => dlegendre(i, z[k])))
    tab(m + 1, i => tab(m + 1, j =>
      div(mul(mul(root(i), root(j)), sum(tab(n, k => mul(w[k], mul(d[k][i], p[k][j]))))), b - a)))
  }
  pure def drift(m: int, a: int, b: int, da: int, db: int): List[List[int]] = {
    val n = m + 2
    val z = glx(n)
    val w = glw(n)
    val p = tab(n, k => legendreAll(m, z[k]))
    val d = tab(n, k => tab(m + 1, i => dlegendre(i, z[k])))
    val h = b - a
    // at a fixed position the local coordinate and the width change
    val zt = tab(n, k => div(-(da + db) - mul(z[k], db - da), h))
    val ht = div(db - da, 2 * h)
    tab(m + 1, i => tab(m + 1, j => {
      val s = sum(tab(n, k => mul(w[k], mul(p[k][j], mul(d[k][i], zt[k]) - mul(p[k][i], ht)))))
      half(mul(mul(root(i), root(j)), s))
    }))
  }
  pure def apply(m: List[List[int]], u: List[int]): List[int] = tab(length(m), i => dot(m[i], u))

  // ---- cross section --------------------------------------------------------
  pure def sigmaAt(kind: str, x: int, t: int, v0: int): int =
    if (kind == "constant") S
    else if (kind == "gaussian") exp(-quo(sq(x), 8))
    else if (kind == "siewert1") exp(-x - rat(5, 2))
    else if (kind == "siewert2") exp(-quo(x, 100000000000))
    else { // a density jump that travels to the left
      val y = x + mul(v0, t)
      (if (y >= 0) exp(-quo(sq(y + S), 4)) else 0) + (if (y <= 0) rat(1, 5) else 0)
    }
  // coefficients of the cross section of a cell, order ms, by the n point rule
  pure def sigmaCoef(kind: str, ms: int, n: int, a: int, b: int, t: int, v0: int): List[int] = {
    val z = glx(n)
    moments(ms, n, tab(n, k => sigmaAt(kind, atNode(z[k], a, b), t, v0)), b - a)
  }
  // int sigma_h u_h B_i dx, sigma_h the expansion of the cross section
  pure def weighted(c: List[int], u: List[int], h: int): List[int] = {
    val m = length(u) - 1
    val ms = length(c) - 1
    val n = m + quo(ms, 2) + 2
    val z = glx(n)
    val q = tab(n, k => legendreAll(imax(m, ms), z[k]))
    val f = tab(n, k => mul(
      sum(tab(ms + 1, r => mul(mul(c[r], root(r)), q[k][r]))),
      sum(tab(m + 1, j => mul(mul(u[j], root(j)), q[k][j])))))
    scale(div(S, h), moments(m, n, f, h))
  }

  // ---- exchange across the faces of a cell ----------------------------------
  // psi values on the two sides of each face; speeds relative to the face
  pure def upwind(rel: int, before: int, after: int): int = if (rel >= 0) mul(rel, before) else mul(rel, after)
  // incoming(m): projection of a function on the cell beyond the end, at the face
  pure def ghost(m: int, n: int, f: List[int], left: bool): int =
    // the projection of f on a cell of width one evaluated at its right (left) end
    { val u = moments(m, n, f, S)
      if (left) traceR(u, S) else traceL(u, S) }

  // u[k]: coefficients of cell k; inL, inR: intensities beyond the two ends
  pure def exchange(m: int, e: List[int], de: List[int], k: int, mu: int, u: List[List[int]],
                    inL: int, inR: int): List[int] = {
    val n = length(e) - 1
    val h = e[k + 1] - e[k]
    val before = if (k > 0) traceR(u[k - 1], e[k] - e[k - 1]) else inL
    val after = if (k + 1 < n) traceL(u[k + 1], e[k + 2] - e[k + 1]) else inR
    val fL = upwind(mu - de[k], before, traceL(u[k], h))
    val fR = upwind(mu - de[k + 1], traceR(u[k], h), after)
    val r = sqrt(h)
    tab(m + 1, i => div(mul(root(i), fR - signAt(i) * fL), r))
  }
  // the same in a sphere: faces have area r^2, basis sqrt(2/pi h) T_n
  pure def edgeRoot(i: int): int = if (i == 0) S else SQRT2
  pure def sphR(u: List[int], h: int): int =
    div(sum(tab(length(u), j => mul(edgeRoot(j), u[j]))), sqrt(mul(PI, h)))
  pure def sphL(u: List[int], h: int): int =
    div(sum(tab(length(u), j => signAt(j) * mul(edgeRoot(j), u[j]))), sqrt(mul(PI, h)))
  pure def exchangeSphere(m: int, e: List[int], de: List[int], k: int, mu: int, u: List[List[int]],
                          centre: List[int]): List[int] = {
    val n = length(e) - 1
    val h = e[k + 1] - e[k]
    val before = if (k > 0) sphR(u[k - 1], e[k] - e[k - 1]) else sphL(centre, h)
    val after = if (k + 1 < n) sphL(u[k + 1], e[k + 2] - e[k + 1]) else 0
    val fL = mul(sq(e[k]), upwind(mu - de[k], before, sphL(u[k], h)))
    val fR = mul(sq(e[k + 1]), upwind(mu - de[k + 1], sphR(u[k], h), after))
    val r = sqrt(mul(PI, h))
    tab(m + 1, i => div(mul(edgeRoot(i), fR - signAt(i) * fL), r))
  }
}
