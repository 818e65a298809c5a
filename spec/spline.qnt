// Interpolation: natural cubic splines, tables, and the linear solver.
module spline {
  import fx.* from "./fx"

  var kind: str                  // "spline" "table" "system" "swap"
  var xs: List[int]
  var ys: List[int]
  var at: List[int]
  var vals: List[int]
  var slopes: List[int]          // of the spline, at `at`
  var curved: List[int]          // second derivatives at the knots
  var matrix: List[List[int]]    // plain integers
  var answer: List[int]
  var rhs: List[int]
  var det: int
  var moves: List[(int, int)]

  // ---- natural spline: second derivatives by elimination of the tridiagonal system ----
  pure def bends(x: List[int], y: List[int]): List[int] = {
    val n = length(x) - 1
    if (n < 2) tab(n + 1, _ => 0) else {
      val hs = tab(n, i => x[i + 1] - x[i])
      val ds = tab(n, i => div(y[i + 1] - y[i], hs[i]))
      // forward sweep over the inner knots: (factor, value)
      val f = range(1, n).foldl(List((0, 0)), (l, i) => {
        val last = l[length(l) - 1]
        val p = 2 * (hs[i - 1] + hs[i]) - mul(hs[i - 1], last._1)
        l.append((div(hs[i], p), div(6 * (ds[i] - ds[i - 1]) - mul(hs[i - 1], last._2), p)))
      })
      // backward: list of second derivatives from the right
      val back = range(0, n - 1).foldl(List(0), (l, k) => {
        val i = n - 1 - k
        l.append(f[i]._2 - mul(f[i]._1, l[length(l) - 1]))
      })
      tab(n + 1, i => if (i == 0 or i == n) 0 else back[n - i])
    }
  }
  pure def interval(x: List[int], v: int): int = {
    val n = length(x) - 1
    imin(n - 1, range(1, imax(n, 1)).foldl(0, (k, i) => if (i < n and v > x[i]) i else k))
  }
  pure def value(x: List[int], y: List[int], m: List[int], i: int, v: int): int = {
    val w = x[i + 1] - x[i]
    val p = div(x[i + 1] - v, w)
    val q = div(v - x[i], w)
    mul(p, y[i]) + mul(q, y[i + 1]) + quo(mul(sq(w), mul(mul(sq(p), p) - p, m[i]) + mul(mul(sq(q), q) - q, m[i + 1])), 6)
  }
  pure def slope(x: List[int], y: List[int], m: List[int], i: int, v: int): int = {
    val w = x[i + 1] - x[i]
    val p = div(x[i + 1] - v, w)
    val q = div(v - x[i], w)
    div(y[i + 1] - y[i], w) + quo(mul(w, mul(3 * sq(q) - S, m[i + 1]) - mul(3 * sq(p) - S, m[i])), 6)
  }
  // ---- a table read linearly; before the first entry the line to the origin -------------
  pure def linear(x: List[int], y: List[int], v: int): int = {
    val n = length(x)
    if (v < x[0]) mul(div(v, x[0]), y[0])
    else {
      val i = range(1, n).foldl(1, (k, j) => if (v >= x[j]) imin(j + 1, n - 1) else k)
      y[i - 1] + mul(div(v - x[i - 1], x[i] - x[i - 1]), y[i] - y[i - 1])
    }
  }
  // ---- determinants of integer matrices, fraction free ----------------------------------
  pure def swapped(a: List[List[int]], i: int, j: int): List[List[int]] =
    tab(length(a), k => if (k == i) a[j] else if (k == j) a[i] else a[k])
  type Elim = { a: List[List[int]], prev: int, sgn: int }
  pure def determinant(a0: List[List[int]]): int = {
    val n = length(a0)
    val e = range(0, n).foldl({ a: a0, prev: 1, sgn: 1 }, (s, k) => {
      val row = range(k, n).foldl(-1, (r, i) => if (r < 0 and s.a[i][k] != 0) i else r)
      if (s.sgn == 0 or row < 0) { a: s.a, prev: 1, sgn: 0 } else {
        val b = if (row == k) s.a else swapped(s.a, row, k)
        val c = tab(n, i => tab(n, j => if (i > k and j > k) quo(b[i][j] * b[k][k] - b[i][k] * b[k][j], s.prev) else b[i][j]))
        { a: c, prev: c[k][k], sgn: if (row == k) s.sgn else 0 - s.sgn }
      }
    })
    e.sgn * e.prev
  }
  pure def times(a: List[List[int]], x: List[int]): List[int] =
    tab(length(a), i => range(0, length(x)).foldl(0, (s, j) => s + a[i][j] * x[j]))

  // ---- what is asked ----------------------------------------------------------------------
  pure def knots(seed: int, n: int): List[int] = {
    val start = rndIn(seed, 1, -2 * S, 2 * S)
    range(1, imax(n, 1)).foldl(List(start), (l, i) => {
      // spacings of very different sizes now and then
      val w = rndIn(seed, 1010 + i, rat(1, 10), S)
      val z = hash(seed, 2010 + i) % 8
      l.append(l[length(l) - 1] + (if (z == 0) quo(w, 3) else if (z == 1) 3 * w else w))
    })
  }
  pure def data(seed: int, x: List[int]): List[int] = {
    val k = hash(seed, 2) % 4
    val c = rnd(seed, 3)
    val d = rnd(seed, 4)
    tab(length(x), i => if (k == 0) c + mul(d, x[i]) else 3 * rnd(seed, 4040 + i))
  }
  action blank = all { matrix' = List(), answer' = List(), rhs' = List(), det' = 0, moves' = List() }
  action askSpline(seed: int, n: int): bool = {
    val x = knots(seed, n)
    val y = data(seed, x)
    val m = bends(x, y)
    val pts = tab(n + 6, i => if (i < n) x[i] else rndIn(seed, 3080 + i, x[0], x[n - 1]))
    all {
      kind' = "spline", xs' = x, ys' = y, at' = pts, curved' = m, blank,
      vals' = tab(length(pts), i => value(x, y, m, interval(x, pts[i]), pts[i])),
      slopes' = tab(length(pts), i => slope(x, y, m, interval(x, pts[i]), pts[i]))
    }
  }
  action askTable(seed: int, n: int): bool = {
    val x0 = knots(seed, n + 1)
    val x = tab(n + 1, i => x0[i] - x0[0] + rndIn(seed, 5, rat(1, 10), S))
    val y = data(seed, x)
    val pts = tab(n + 7, i => if (i < n + 1) x[i] else rndIn(seed, 3080 + i, 0, x[n] + S))
    all {
      kind' = "table", xs' = x, ys' = y, at' = pts, curved' = List(), slopes' = List(), blank,
      vals' = tab(length(pts), i => linear(x, y, pts[i]))
    }
  }
  action askSystem(seed: int, n: int): bool = {
    val a = tab(n, i => tab(n, j => if (hash(seed, 200000 + 100 * i + j) % 4 == 0) 0 else (hash(seed, 500000 + 100 * i + j) % 19) - 9))
    // make it solvable, sometimes with a zero pivot
    val dominant = tab(n, i => tab(n, j => if ((i + hash(seed, 400)) % n == j) a[i][j] + 30 + 8 * n else a[i][j]))
    val x = tab(n, i => (hash(seed, 300000 + i) % 41) - 20)
    all {
      kind' = "system", xs' = List(), ys' = List(), at' = List(), curved' = List(), slopes' = List(), vals' = List(), moves' = List(),
      matrix' = dominant, answer' = x, rhs' = times(dominant, x), det' = determinant(dominant)
    }
  }
  action askSwap(seed: int, n: int): bool = {
    val a = tab(n, i => tab(n, j => 100 * i + j))
    val ms = tab(4, i => (hash(seed, 2 * i) % n, hash(seed, 2 * i + 1) % n))
    all {
      kind' = "swap", xs' = List(), ys' = List(), at' = List(), curved' = List(), slopes' = List(), vals' = List(), rhs' = List(),
      answer' = List(), det' = 0, moves' = ms, matrix' = ms.foldl(a, (m, p) => swapped(m, p._1, p._2))
    }
  }
  action ask = {
    nondet seed = 1.to(1000000).oneOf()
    nondet n = Set(2, 3, 4, 5, 6, 7, 8, 13, 30).oneOf()
    nondet q = 0.to(5).oneOf()
    any {
      askSpline(seed, n), askSpline(seed + 1, n), askTable(seed, n), askSystem(seed, n), askSwap(seed, n)
    }
  }
  action init = ask
  action step = ask

  // ---- properties --------------------------------------------------------------------
  pure val EPS: int = rat(1, 1000000000000)
  val isSpline = kind == "spline"
  val through = isSpline implies xs.indices().forall(i => abs(vals[i] - ys[i]) <= EPS)
  val smooth = isSpline implies xs.indices().forall(i => (i > 0 and i + 1 < length(xs)) implies
    abs(slope(xs, ys, curved, i - 1, xs[i]) - slope(xs, ys, curved, i, xs[i])) <= EPS * 1000)
  val natural = isSpline implies (curved[0] == 0 and curved[length(xs) - 1] == 0)
  // straight data give straight lines
  pure def straight(x: List[int], y: List[int]): bool = x.indices().forall(i => i < 2 or
    abs(mul(y[i] - y[0], x[1] - x[0]) - mul(y[1] - y[0], x[i] - x[0])) <= EPS)
  val lines = (isSpline and length(xs) > 2 and straight(xs, ys)) implies curved.indices().forall(i => abs(curved[i]) <= EPS * 1000)
  val tabled = kind == "table" implies xs.indices().forall(i => abs(vals[i] - ys[i]) <= EPS)
  val solvable = kind == "system" implies det != 0
  val permuted = kind == "swap" implies
    matrix.indices().forall(i => matrix.indices().exists(k => matrix[k][0] == 100 * i))
  val safe = through and smooth and natural and lines and tabled and solvable and permuted
}
