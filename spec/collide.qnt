// Collisions, cell by cell: a history of grids, times and states seen by one
// set of opacity and scattering objects.
module collide {
  import fx.* from "./fx"
  import quadtab.* from "./quadtab"
  import dg.* from "./dg"

  type Medium = { opac: str, m: int, ms: int, nq: int, ang: int, lob: bool, n: int, sigT: int, sigS: int, v0: int, fixed: bool }

  var medium: Medium
  var t: int
  var edges: List[int]
  var order: List[int]                  // in which cells are asked for
  var V: List[List[List[int]]]          // [direction][cell][j]
  var absorbed: List[List[List[int]]]
  var scattered: List[List[int]]        // [cell][j]
  var dark: int                         // a cell that holds nothing (-1: none)

  pure def dirWeights(q: Medium): List[int] = {
    val w = if (q.lob) lobw(q.ang) else glw(q.ang)
    w.foldl([], (l, x) => l.append(half(x)))
  }
  // the local cross section of a cell, as an expansion
  pure def sec(q: Medium, g: List[int], k: int, t: int): List[int] =
    sigmaCoef(q.opac, q.ms, q.nq, g[k], g[k + 1], t, q.v0)
  pure def absorb(q: Medium, g: List[int], k: int, t: int, u: List[int]): List[int] =
    scale(q.sigT, if (q.opac == "constant") u else weighted(sec(q, g, k, t), u, g[k + 1] - g[k]))
  pure def scatter(q: Medium, g: List[int], k: int, t: int, u: List[List[List[int]]]): List[int] = {
    val w = dirWeights(q)
    val mean = tab(q.m + 1, j => sum(tab(q.ang, l => mul(w[l], u[l][k][j]))))
    scale(q.sigS, if (q.opac == "constant") mean else weighted(sec(q, g, k, t), mean, g[k + 1] - g[k]))
  }

  // cells of different widths; some edges may stay where they were
  pure def shape(seed: int, n: int): List[int] = {
    val a = mul(rnd(seed, 300), 2 * S)
    range(0, n).foldl([a], (l, k) => l.append(l[k] + rndIn(seed, 301 + k, rat(1, 20), rat(3, 2))))
  }
  // a grid that differs from g only between two of its edges, or everywhere
  pure def reshape(seed: int, g: List[int], how: int): List[int] = {
    val n = length(g) - 1
    if (how == 0) g
    else if (how == 1) shape(seed, n)
    else if (how == 2) tab(n + 1, k => if (k == n) g[k] + rat(1, 2) else g[k])      // the last edge moves
    else if (how == 3) tab(n + 1, k => if (k == 0) g[k] - rat(1, 3) else g[k])      // the first edge moves
    else if (how == 4) { val i = rndInt(seed, 9, n + 1)                             // one edge moves
      tab(n + 1, k => if (k == i) (if (k == 0) g[k] - rat(1, 5) else half(g[k] + (if (k < n) g[k + 1] else g[k] + S))) else g[k]) }
    else tab(n + 1, k => g[k] + rat(1, 4))                                          // all of them, rigidly
  }
  pure def randomState(seed: int, q: Medium, hole: int): List[List[List[int]]] = {
    // now and then faint or bright radiation: nothing may depend on its size
    val z = rndInt(seed, 39999, 6)
    tab(q.ang, l => tab(q.n, k => tab(q.m + 1, j => {
      val x = rnd(seed, 400 * l + 20 * k + j)
      if (k == hole) 0 else if (z == 0) quo(x, 1000000000) else if (z == 1) 1000 * x else x
    })))
  }
  pure def shuffle(seed: int, n: int): List[int] = {
    val s = rndInt(seed, 77, n)
    if (seed % 2 == 0) tab(n, k => (k + s) % n) else tab(n, k => (n - 1 - k + s) % n)
  }
  action asked(q, g, time, seed, hole) = {
    val u = randomState(seed, q, hole)
    all {
      medium' = q, t' = time, edges' = g, order' = shuffle(seed, q.n), V' = u,
      absorbed' = tab(q.ang, l => tab(q.n, k => absorb(q, g, k, time, u[l][k]))),
      scattered' = tab(q.n, k => scatter(q, g, k, time, u)), dark' = hole
    }
  }
  action problem = {
    nondet seed = 1.to(1000000).oneOf()
    nondet opac = Set("constant", "gaussian", "siewert1", "siewert2", "fake_sedov", "fake_sedov#", "gaussian#").oneOf()
    nondet m = 0.to(7).oneOf()
    nondet ms = 0.to(7).oneOf()
    nondet ang = Set(2, 3, 4, 5, 6, 8).oneOf()
    nondet lob = Set(true, false).oneOf()
    nondet n = Set(1, 2, 3, 4, 7).oneOf()
    val q = {
      opac: if (opac == "fake_sedov#") "fake_sedov" else if (opac == "gaussian#") "gaussian" else opac,
      m: m, ms: ms, nq: imin(16, m + ms + 2 + rndInt(seed, 1, 3)), ang: ang, lob: lob and ang > 2, n: n, sigT: rndIn(seed, 2, rat(1, 4), 2 * S),
      sigS: if (rndInt(seed, 3, 3) == 0) 0 else rndIn(seed, 4, rat(1, 10), 2 * S), v0: rnd(seed, 5), fixed: false
    }
    asked(q, shape(seed, n), if (rndInt(seed, 6, 3) == 0) 0 else rndIn(seed, 6, 0, 8 * S), seed, 0 - 1)
  }
  action again = {
    nondet seed = 1.to(1000000).oneOf()
    nondet how = 0.to(6).oneOf()
    nondet sameTime = Set(true, false, false).oneOf()
    nondet h = (-1).to(6).oneOf()
    asked(medium, reshape(seed, edges, how), if (sameTime) t else rndIn(seed, 6, 0, 8 * S), seed, if (h < medium.n) h else 0 - 1)
  }
  action init = problem
  action step = again

  // ---- properties ---------------------------------------------------------------
  pure val EPS: int = rat(1, 1000000000000)
  pure def nil(l: List[int]): bool = l.indices().forall(i => l[i] == 0)
  // an empty cell neither absorbs nor scatters, whatever its neighbours hold
  val local = dark >= 0 implies (nil(scattered[dark]) and absorbed.indices().forall(l => nil(absorbed[l][dark])))
  // what is removed, summed over directions, relates to what is scattered by the ratio of the cross sections
  val ratio = range(0, medium.n).foldl(true, (ok, k) => ok and range(0, medium.m + 1).foldl(true, (r, j) => r and
    abs(mul(medium.sigS, sum(tab(medium.ang, l => mul(dirWeights(medium)[l], absorbed[l][k][j])))) - mul(medium.sigT, scattered[k][j])) <= EPS))
  val ordered_ = range(0, medium.n).foldl(true, (ok, k) => ok and edges[k] < edges[k + 1])
  val safe = local and ratio and ordered_
}
