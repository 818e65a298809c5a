// Fixed-point real arithmetic on unbounded integers: the number r is the
// integer round(r * S), S = 10^24.  Every oracle of the specification is
// computed with these operations, so that the reference values live in the
// specification and not in a test harness.
module fx {
  pure val S: int = 1000000000000000000000000
  pure val ONE: int = S
  pure val HALF: int = S / 2
  pure val PI: int = 3141592653589793238462643
  pure val EULER: int = 577215664901532860606512

  pure def abs(a: int): int = if (a < 0) -a else a
  pure def imin(a: int, b: int): int = if (a < b) a else b
  pure def imax(a: int, b: int): int = if (a > b) a else b
  pure def sgn(a: int): int = if (a < 0) -1 else if (a > 0) 1 else 0
  // division rounding towards zero, on every back end
  pure def quo(a: int, b: int): int = sgn(a) * sgn(b) * (abs(a) / abs(b))

  pure def mul(a: int, b: int): int = quo(a * b, S)
  pure def div(a: int, b: int): int = quo(a * S, b)
  pure def fxi(n: int): int = n * S
  pure def rat(n: int, d: int): int = quo(n * S, d)
  pure def sq(a: int): int = mul(a, a)
  pure def half(a: int): int = quo(a, 2)
  pure def powi(a: int, n: int): int = range(0, n).foldl(S, (r, _) => mul(r, a))

  pure def close(a: int, b: int, tol: int): bool = abs(a - b) <= tol
  // |a - b| <= eps * (1 + |a| + |b|), eps in fixed point
  pure def near(a: int, b: int, eps: int): bool = abs(a - b) <= mul(eps, S + abs(a) + abs(b))

  pure def sum(l: List[int]): int = l.foldl(0, (a, b) => a + b)
  pure def dot(a: List[int], b: List[int]): int =
    a.indices().fold(0, (s, i) => s + mul(a[i], b[i]))
  // The evaluator keeps one register per parameter, so an operator that calls
  // its argument must not touch its own parameters afterwards: tab hands f to
  // a built-in and only then lists the result (tab may be nested in tab).
  pure def listed(n: int, m: int -> a): List[a] =
    range(0, n).foldl([], (l, i) => l.append(m.get(i)))
  pure def tab(n: int, f: (int) => a): List[a] = listed(n, 0.to(n - 1).mapBy(f))
  pure def scale(c: int, l: List[int]): List[int] = l.foldl([], (r, x) => r.append(mul(c, x)))
  pure def addl(a: List[int], b: List[int]): List[int] = tab(length(a), i => a[i] + b[i])
  pure def subl(a: List[int], b: List[int]): List[int] = tab(length(a), i => a[i] - b[i])
  pure def negl(a: List[int]): List[int] = a.foldl([], (r, x) => r.append(-x))

  // floor of the square root of a non negative integer (Newton from above)
  pure def isqrt(n: int): int = if (n <= 0) 0 else {
    // a power of two above the root
    val top = range(0, 320).foldl(1, (p, _) => if (p * p > n) p else 2 * p)
    range(0, 12).foldl(top, (x, _) => {
      val y = (x + n / x) / 2
      if (y < x) y else x
    })
  }
  pure def sqrt(a: int): int = isqrt(a * S)

  pure val SQRT2: int = sqrt(2 * S)
  pure val SQRT3: int = sqrt(3 * S)
  pure val SQRTPI: int = sqrt(PI)

  // e^a: halve the argument until it is small, Taylor series, square back
  pure def exp(a: int): int = if (a < -60 * S) 0 else {
    val r = quo(a, 1024)
    val s = range(1, 24).foldl((S, S), (p, k) => {
      val term = quo(mul(p._1, r), k)
      (term, p._2 + term)
    })
    range(0, 10).foldl(s._2, (v, _) => mul(v, v))
  }
  // natural logarithm, Newton on exp
  pure def ln(a: int): int = range(0, 40).foldl(0, (y, _) => {
    val d = 2 * quo((a - exp(y)) * S, a + exp(y))
    if (d == 0) y else y + d
  })
  // cosine, Taylor series
  pure def cos(a: int): int = {
    val a2 = sq(a)
    range(1, 40).foldl((S, S), (p, k) => {
      val term = 0 - quo(mul(p._1, a2), (2 * k - 1) * (2 * k))
      (term, p._2 + term)
    })._2
  }
  // error function: a series with terms of one sign, divided by e^(x^2)
  pure def erf(a: int): int = {
    val x = abs(a)
    val v = if (x > 7 * S) S else {
      val x2 = 2 * sq(x)
      val s = range(1, 400).foldl((x, x), (p, k) => if (p._1 == 0) p else {
        val term = quo(mul(p._1, x2), 2 * k + 1)
        (term, p._2 + term)
      })
      quo(2 * div(s._2, exp(sq(x))) * S, SQRTPI)
    }
    sgn(a) * v
  }
  // exponential integral Ei(a), a < 0
  pure def expi(a: int): int = if (a < -36 * S) 0 else {
    val s = range(1, 140).foldl((S, 0), (p, k) => {
      val term = quo(mul(p._1, a), k)
      (term, p._2 + quo(term, k))
    })
    EULER + ln(-a) + s._2
  }

  // Legendre polynomials P_0 .. P_n at z
  pure def legendreAll(n: int, z: int): List[int] =
    range(1, imax(n, 1)).foldl(if (n == 0) [S] else [S, z], (l, k) =>
      l.append(quo((2 * k + 1) * mul(z, l[k]) - k * l[k - 1], k + 1)))
  pure def legendre(n: int, z: int): int = legendreAll(n, z)[n]
  // derivative of P_n at z: P'_{k+1} = P'_{k-1} + (2k+1) P_k
  pure def dlegendre(n: int, z: int): int = {
    val p = legendreAll(n, z)
    range(0, n).foldl(0, (s, k) => if ((n - 1 - k) % 2 == 0) s + (2 * k + 1) * p[k] else s)
  }
  pure def chebAll(n: int, z: int): List[int] =
    range(1, imax(n, 1)).foldl(if (n == 0) [S] else [S, z], (l, k) =>
      l.append(2 * mul(z, l[k]) - l[k - 1]))
  pure def cheb(n: int, z: int): int = chebAll(n, z)[n]

  // a repeatable stream of numbers in [-1, 1] with 4 decimals, keyed by a seed
  pure def hash(seed: int, i: int): int = {
    val p = 9007199254740881
    val a = ((seed * 6364136223846793 + (i + 1) * 1442695040888963) % p)
    val b = (a * a + 3037000493) % p
    val c = (b * b + 3 * a + i * 7 + 11) % p
    c / 4096
  }
  pure def rnd(seed: int, i: int): int = rat((hash(seed, i) % 20001) - 10000, 10000)
  pure def rndIn(seed: int, i: int, lo: int, hi: int): int =
    lo + quo((hi - lo) * (hash(seed, i) % 10001), 10000)
  pure def rndVec(seed: int, n: int): List[int] = tab(n, i => rnd(seed, i))
  pure def rndInt(seed: int, i: int, n: int): int = hash(seed, i) % n
  pure def linspace(a: int, b: int, n: int): List[int] = tab(n + 1, k => a + quo((b - a) * k, n))
}
