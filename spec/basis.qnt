// The functions a cell is described with.
module basis {
  import fx.* from "./fx"
  import quadtab.* from "./quadtab"
  import dg.* from "./dg"

  var cell: { a: int, b: int }
  var order: int
  var at: List[int]
  var plain: List[List[int]]     // [n][point]: P_n
  var slab: List[List[int]]      // B_n = sqrt((2n+1)/h) P_n(z)
  var slope: List[List[int]]     // dB_n/dx
  var ball: List[List[int]]      // e_n T_n(z)/sqrt(pi h)
  var cheby: List[List[int]]     // T_n at the points themselves
  var weight: List[int]          // h / sqrt((x-a)(b-x)), inside only
  var inside: List[bool]

  action ask = {
    nondet seed = 1.to(1000000).oneOf()
    nondet n = 0.to(12).oneOf()
    nondet unit = Set(true, false, false).oneOf()
    val a = if (unit) 0 - S else rndIn(seed, 1, -3 * S, 3 * S)
    val b = if (unit) S else a + rndIn(seed, 2, rat(1, 50), 3 * S)
    val h = b - a
    val x = List(a, b, half(a + b), a + quo(h, 3), rndIn(seed, 3, a, b), rndIn(seed, 4, a, b), a - quo(h, 10), b + quo(h, 5))
    val z = tab(8, i => zOf(x[i], a, b))
    val p = tab(8, i => legendreAll(n, z[i]))
    val t = tab(8, i => chebAll(n, z[i]))
    val q = tab(8, i => legendreAll(n, quo(x[i], 4)))
    val c = tab(8, i => chebAll(n, quo(x[i], 4)))
    val insd = tab(8, i => x[i] > a + quo(h, 1000) and x[i] < b - quo(h, 1000))
    all {
      cell' = { a: a, b: b }, order' = n, at' = x, inside' = insd,
      plain' = tab(n + 1, k => tab(8, i => q[i][k])),
      slab' = tab(n + 1, k => tab(8, i => div(mul(root(k), p[i][k]), sqrt(h)))),
      slope' = tab(n + 1, k => tab(8, i => div(mul(div(mul(root(k), dlegendre(k, z[i])), sqrt(h)), 2 * S), h))),
      ball' = tab(n + 1, k => tab(8, i => div(mul(edgeRoot(k), t[i][k]), sqrt(mul(PI, h))))),
      cheby' = tab(n + 1, k => tab(8, i => c[i][k])),
      weight' = tab(8, i => if (insd[i]) div(h, sqrt(mul(x[i] - a, b - x[i]))) else 0)
    }
  }
  action init = ask
  action step = ask

  // ---- properties --------------------------------------------------------------------
  pure val EPS: int = rat(1, 10000000000)
  val h = cell.b - cell.a
  // orthonormal on the cell, by a rule exact for the products
  val orthonormal = {
    val n = 14
    val vals = tab(n, q => tab(order + 1, k => div(mul(root(k), legendreAll(order, glx(n)[q])[k]), sqrt(h))))
    slab.indices().forall(i => slab.indices().forall(j =>
      abs(half(mul(h, sum(tab(n, q => mul(glw(n)[q], mul(vals[q][i], vals[q][j])))))) - (if (i == j) S else 0)) <= EPS))
  }
  // orthonormal with the Chebyshev weight: nodes cos((2i+1)pi/2n), weights pi/n
  val chebWeighted = {
    val n = order + 1
    val z = tab(n, q => cos(quo((2 * q + 1) * PI, 2 * n)))
    val vals = tab(n, q => chebAll(order, z[q]))
    ball.indices().forall(i => ball.indices().forall(j =>
      abs(mul(ee2(i, j), quo(sum(tab(n, q => mul(vals[q][i], vals[q][j]))), n)) - (if (i == j) S else 0)) <= EPS))
  }
  pure def ee2(i: int, j: int): int = mul(edgeRoot(i), edgeRoot(j))
  // the slopes are those of the functions: a function grows by the integral of its slope
  val rising = slab.indices().forall(k => {
    val grow = mul(mul(root(k), sum(tab(14, q => mul(glw(14)[q], dlegendre(k, glx(14)[q]))))), S)
    abs(div(grow, sqrt(h)) - (slab[k][1] - slab[k][0])) <= mul(EPS, S + abs(slab[k][1]))
  })
  val ends = slab.indices().forall(k => abs(slab[k][1] - div(root(k), sqrt(h))) <= mul(EPS, S + abs(slab[k][1])) and
    abs(slab[k][0] - signAt(k) * slab[k][1]) <= mul(EPS, S + abs(slab[k][1])))
  val safe = orthonormal and chebWeighted and rising and ends
}
