// The element matrices of a cell, and the coefficient files behind them.
module matrices {
  import fx.* from "./fx"
  import quadtab.* from "./quadtab"
  import dg.* from "./dg"
  import sph.* from "./sph"

  type Cell = { a: int, b: int, da: int, db: int }
  // coefficient tables, as stored: [i][j] lists of integers and denominators
  type Table = { coef: List[List[List[int]]], denom: List[List[int]] }
  var sphere: bool
  var m: int
  var cell: Cell
  var massM: List[List[int]]      // int r^2 B_i B_j
  var curvM: List[List[int]]      // int r B_i B_j
  var streamM: List[List[int]]    // int (r^2) B_j dB_i/dx
  var driftM: List[List[int]]     // int (r^2) B_j dB_i/dt
  var rateM: List[List[int]]      // d/dt int r^2 B_i B_j over the cell
  var filed: int                   // order of the tables in the files, 0: none in this state
  var massF: Table
  var jF: Table
  var lF: Table

  pure val NONE: Table = { coef: List(), denom: List() }
  pure def zero(n: int): List[List[int]] = tab(n, _ => tab(n, _ => 0))
  pure def someCell(seed: int, sph: bool): Cell = {
    val w = if (hash(seed, 3) % 4 == 0) rndIn(seed, 4, rat(1, 100), rat(1, 10)) else rndIn(seed, 4, rat(1, 10), 3 * S)
    val a = if (sph) (if (hash(seed, 5) % 3 == 0) 0 else rndIn(seed, 6, rat(1, 50), 4 * S)) else rndIn(seed, 6, -4 * S, 4 * S)
    val k = hash(seed, 7) % 5
    val da = if (k == 0) 0 else rnd(seed, 8)
    { a: a, b: a + w, da: da, db: if (k == 0) 0 else if (k == 1) da else if (k == 2) 0 - da else rnd(seed, 9) }
  }
  pure def someTable(seed: int, k: int, width: (int, int) => int): Table = {
    coef: tab(k, i => tab(k, j => tab(width(i, j), q => (hash(seed, 100 * i + 10 * j + q) % 4001) - 2000))),
    denom: tab(k, i => tab(k, j => 1 + hash(seed, 5000 + 100 * i + j) % 997))
  }
  pure def even(i: int, j: int): bool = (i + j) % 2 == 0

  action look = all {
    nondet seed = 1.to(1000000).oneOf()
    nondet files = Set(1, 0, 0).oneOf()
    val c = someCell(seed, sphere)
    val k = if (files == 1) 1 + hash(seed, 77) % 9 else 0
    all {
      cell' = c,
      massM' = if (sphere) mass(m, c.a, c.b) else zero(m + 1),
      curvM' = if (sphere) curvature(m, c.a, c.b) else zero(m + 1),
      streamM' = if (sphere) streamSphere(m, c.a, c.b) else stream(m, c.a, c.b),
      driftM' = if (sphere) driftSphere(m, c.a, c.b, c.da, c.db) else drift(m, c.a, c.b, c.da, c.db),
      rateM' = if (sphere) massRate(m, c.a, c.b, c.da, c.db) else zero(m + 1),
      filed' = k,
      massF' = if (k == 0) NONE else someTable(seed, k, (i, j) => if (even(i, j)) 3 else 2),
      jF' = if (k == 0) NONE else someTable(seed + 1, k, (i, j) => 2),
      lF' = if (k == 0) NONE else someTable(seed + 2, k, (i, j) => if (even(i, j)) 2 else 3)
    }
  }
  action init = {
    nondet sp = Set(true, true, false).oneOf()
    nondet order = 0.to(9).oneOf()
    all {
      sphere' = sp, m' = order, cell' = { a: 0, b: S, da: 0, db: 0 },
      massM' = zero(0), curvM' = zero(0), streamM' = zero(0), driftM' = zero(0), rateM' = zero(0), filed' = 0,
      massF' = NONE, jF' = NONE, lF' = NONE
    }
  }
  action step = all { sphere' = sphere, m' = m, look }

  // ---- properties --------------------------------------------------------------------
  val started = massM.length() > 0
  pure def agree(a: List[List[int]], b: List[List[int]], scl: int): bool =
    a.indices().forall(i => a[i].indices().forall(j => abs(a[i][j] - b[i][j]) <= mul(rat(1, 1000000000000), S + scl)))
  pure def flipped(a: List[List[int]]): List[List[int]] = tab(length(a), i => tab(length(a), j => a[j][i]))
  // products of the basis at the ends of a cell of width h
  pure def endR(n: int, sp: bool, h: int): List[List[int]] = tab(n, i => tab(n, j =>
    if (sp) div(ee(i, j), mul(PI, h)) else div(mul(root(i), root(j)), h)))
  pure def endL(n: int, sp: bool, h: int): List[List[int]] = tab(n, i => tab(n, j =>
    (if (even(i, j)) 1 else -1) * (if (sp) div(ee(i, j), mul(PI, h)) else div(mul(root(i), root(j)), h))))
  val h = cell.b - cell.a
  val r2a = if (sphere) sq(cell.a) else S
  val r2b = if (sphere) sq(cell.b) else S
  // by parts: int (r^2 B_i B_j)' dr is the difference of the ends
  val byParts = started implies {
    val ends = added(scaled(r2b, endR(m + 1, sphere, h)), scaled(0 - r2a, endL(m + 1, sphere, h)))
    agree(added(streamM, flipped(streamM)), added(ends, scaled(-2 * S, curvM)), div(20 * S, h))
  }
  // Reynolds: the mass of a moving cell changes by the drift of its basis and through its ends
  val transport = started implies {
    val ends = added(scaled(mul(r2b, cell.db), endR(m + 1, sphere, h)), scaled(0 - mul(r2a, cell.da), endL(m + 1, sphere, h)))
    agree(rateM, added(added(driftM, flipped(driftM)), ends), div(20 * S, h))
  }
  val symmetric = started implies agree(massM, flipped(massM), 0) and agree(curvM, flipped(curvM), 0)
  // shells of positive width weigh something in every mode
  val positive = (started and sphere) implies massM.indices().forall(i => massM[i][i] > 0)
  // a slab expansion gains nothing in a mode from a higher one
  val triangular = (started and not(sphere)) implies streamM.indices().forall(i => streamM.indices().forall(j =>
    j >= i implies abs(streamM[i][j]) <= rat(1, 100000000000)))
  val safe = byParts and transport and symmetric and positive and triangular
}
