// Comparison with benchmarks.  A file holds tables (position, flux, uncollided
// flux) by source and time; a study with the comparison switched on records,
// for each of its runs, the root mean square difference between what the run
// returned and the table of its source and time, and prints how fast the
// differences fall with the number of cells.
module bench {
  import fx.* from "./fx"

  // a table samples two cubics on [0, end]: interpolation of third order is exact
  type Table = { source: str, t: int, end: int, n: int, a: List[int], b: List[int] }
  // the three columns (position, radiation, material) of a transfer problem
  type Columns = { t: int, x: List[int], phi: List[int], e: List[int] }
  type Run = { xs: List[int], phi: List[int], e: List[int], spent: int }
  type Study = { source: str, kinds: List[int], t: int, c: int, sigT: int, scaled: bool, thermal: str, x0: int, sigma: int,
                 byCells: bool, cells: List[int], ms: List[int], angles: List[int], repeats: int, analytic: bool, moving: bool }
  // a table of a study: what distinguishes it, and its rows (what was varied,
  // errors of the radiation, directions, times spent, what was kept, errors of the material)
  type Filed = { key: str, t: int, ang: int, m: int, byCells: bool, analytic: bool, moving: bool, rows: List[List[int]] }

  var file: List[Table]
  var columns: Columns
  var study: Study
  var runs: List[Run]          // what the runs return, in the order they are made
  var errors: List[int]        // of the radiation, one per entry of the lists
  var energies: List[int]      // of the material
  var orders: List[int]        // printed for the radiation, one per run but the first of a repetition
  var orders2: List[int]       // and for the material
  var times: List[int]         // average time spent, one per entry
  var book: List[Filed]        // tables of studies, oldest first
  var filedNow: bool           // the last study was put there
  var asked: List[int]         // positions the table itself is asked for
  var answers: List[List[int]] // flux and uncollided flux there

  pure def poly(a: List[int], x: int): int = range(0, length(a)).foldl(0, (r, i) => mul(r, x) + a[length(a) - 1 - i])
  pure def valueOf(t: Table, c: List[int], x: int): int = if (x > t.end) 0 else poly(c, x)
  pure def find(f: List[Table], source: str, t: int): Table = f.select(q => q.source == source and q.t == t)[0]
  pure def rms(a: List[int], b: List[int]): int = sqrt(quo(sum(tab(length(a), i => sq(a[i] - b[i]))), length(a)))
  pure def orderOf(e1: int, n1: int, e2: int, n2: int): int = div(ln(e1) - ln(e2), ln(fxi(n2)) - ln(fxi(n1)))

  // ---- the tables a study uses --------------------------------------------------------
  pure def radiation(s: Study): str =
    if (s.thermal != "two directions") s.source
    else if (s.source == "gaussian_source") (if (s.sigma == fxi(300)) "P1_gaussian_rad_thick" else "P1_gaussian_rad")
    else (if (s.x0 == fxi(400)) "P1_su_olson_rad_thick" else "P1_su_olson_rad")
  pure def material(s: Study): str =
    if (s.source == "gaussian_source") (if (s.sigma == fxi(300)) "P1_gaussian_mat_thick" else "P1_gaussian_mat")
    else (if (s.x0 == fxi(400)) "P1_su_olson_mat_thick" else "P1_su_olson_mat")
  pure def timeOf(s: Study): int = if (s.scaled) mul(s.t, s.c) else s.t
  // a table for complete scattering, used for a ratio c
  pure def against(s: Study, t: Table, x: int): int =
    if (s.scaled) mul(mul(s.c, exp(-mul(S - s.c, s.t))), valueOf(t, t.a, mul(s.c, abs(x)))) else valueOf(t, t.a, abs(x))
  pure def errorOf(s: Study, f: List[Table], q: Columns, r: Run): int =
    if (s.thermal == "columns") rms(r.phi, q.phi)
    else {
      val b = find(f, radiation(s), timeOf(s))
      // (the ratio scales transport only)
      rms(r.phi, r.xs.foldl(List(), (l, x) => l.append(if (s.thermal == "none") against(s, b, x) else valueOf(b, b.a, abs(x)))))
    }
  pure def energyOf(s: Study, f: List[Table], q: Columns, r: Run): int =
    if (s.thermal == "none") 0
    else if (s.thermal == "columns") rms(r.e, q.e)
    else {
      val b = find(f, material(s), timeOf(s))
      rms(r.e, r.xs.foldl(List(), (l, x) => l.append(valueOf(b, b.a, abs(x)))))
    }
  // orders between neighbouring entries, of every repetition
  pure def ordersOf(s: Study, e: List[int]): List[int] =
    if (not(s.byCells)) List() else range(0, length(e)).foldl(List(), (l, i) => {
      val p = i % length(s.cells)
      if (p == 0) l else l.append(orderOf(e[i - 1], s.cells[p - 1], e[i], s.cells[p]))
    })

  pure def averages(s: Study, r: List[Run]): List[int] = tab(length(s.cells), i =>
    quo(range(0, s.repeats).foldl(0, (a, k) => a + r[k * length(s.cells) + i].spent), s.repeats))
  // ---- tables of studies ----------------------------------------------------------------
  pure def filedName(s: Study): str =
    if (s.thermal == "two directions" and s.source == "gaussian_source" and s.sigma == fxi(300)) "gaussian_s_thick"
    else if (s.thermal == "two directions" and s.x0 == fxi(400)) "su_olson_thick"
    else if (s.source == "square_source") "square_s" else if (s.source == "gaussian_source") "gaussian_s" else s.source
  // tables are kept for a few times
  pure def isFiled(s: Study): bool =
    if (s.thermal == "none") (s.t == S or s.t == 5 * S or s.t == 10 * S or (s.byCells and s.t == rat(5, 4)))
    else s.thermal == "two directions" and s.t % S == 0
  // studies of cells are told apart by their order
  pure def tableFor(s: Study, err: List[int], spent: List[int], ene: List[int]): Filed = {
    key: filedName(s), t: s.t, ang: if (s.thermal == "none") 0 else s.angles[0], m: if (s.byCells) s.ms[0] else 0, byCells: s.byCells,
    analytic: s.analytic, moving: s.moving,
    rows: List(if (s.byCells) whole(s.cells) else whole(s.ms), err, whole(s.angles), spent, if (s.byCells) whole(s.ms) else whole(s.cells), ene)
  }
  pure def whole(l: List[int]): List[int] = l.foldl(List(), (r, x) => r.append(fxi(x)))
  pure def samePlace(a: Filed, b: Filed): bool = a.with("rows", b.rows) == b
  pure def into(l: List[Filed], f: Filed): List[Filed] = l.select(x => not(samePlace(x, f))).append(f)

  // ---- drawing --------------------------------------------------------------------------
  pure val SOURCES: List[str] = List("plane_IC", "square_IC", "square_source", "gaussian_IC", "MMS", "gaussian_source")
  pure val PAIRS: List[str] = List("P1_su_olson_rad", "P1_su_olson_mat", "P1_gaussian_rad", "P1_gaussian_mat", "P1_gaussian_rad_thick",
                                   "P1_gaussian_mat_thick", "P1_su_olson_rad_thick", "P1_su_olson_mat_thick")
  pure def tableOf(seed: int, k: int, source: str, t: int): Table = {
    source: source, t: t, end: rndIn(seed, 50 * k, S, 6 * S), n: 5 + rndInt(seed, 50 * k + 1, 12),
    a: tab(4, i => quo(rnd(seed, 50 * k + 2 + i), 1 + i)), b: tab(4, i => quo(rnd(seed, 50 * k + 10 + i), 1 + i))
  }
  // symmetric positions as a run returns them, or a chosen list
  pure def positions(seed: int, k: int, way: int): List[int] =
    if (way == 0) {
      val r = rndIn(seed, k, S, 8 * S)
      linspace(-r, r, 4 + rndInt(seed, k + 1, 8))
    }
    else if (way == 1) tab(3 + rndInt(seed, k + 1, 6), i => rndIn(seed, k + 2 + i, -8 * S, 8 * S))
    else tab(4 + rndInt(seed, k + 1, 6), i => quo(rndIn(seed, k + 2, S, 8 * S) * (i + 1), 9))

  action drawn_(before: List[Filed]): bool = {
    nondet seed = 1.to(1000000).oneOf()
    nondet kind = Set("none", "none", "columns", "two directions", "scaled").oneOf()
    nondet where = Set("plane_IC", "square_IC", "square_source", "gaussian_IC", "MMS", "gaussian_source").oneOf()
    nondet pair = Set("square_source", "gaussian_source").oneOf()
    nondet n = 1.to(3).oneOf()
    nondet rep = 1.to(2).oneOf()
    nondet thick = Set(true, false).oneOf()
    nondet cells_ = Set(true, true, false).oneOf()
    nondet way = 0.to(2).oneOf()
    nondet late = Set(true, false).oneOf()
    nondet usual = Set(0, 1, 2, 3, 4, 5).oneOf()
    nondet an = Set(true, false).oneOf()
    nondet mv = Set(true, false).oneOf()
    val source = if (kind == "columns") "square_source" else if (kind == "two directions") pair else where
    val c = if (kind != "scaled") (if (late) S else quo(S, 2)) else if (hash(seed, 1) % 3 == 0) quo(S, 2) else if (hash(seed, 1) % 3 == 1) quo(S, 4) else quo(3 * S, 4)
    val t = if (kind == "columns") (if (late) S else rat(316228, 10000)) else if (usual == 0) S else if (usual == 1) 5 * S else if (usual == 2) 10 * S else if (usual == 3) rat(5, 4) else quo(S * (1 + rndInt(seed, 3, 40)), 4)
    val s = {
      source: source, kinds: SOURCES.foldl(List(), (l, q) => l.append(if (q == source) 1 else 0)).append(0).append(0), t: t, c: c,
      sigT: fxi(1 + rndInt(seed, 4, 2)), scaled: kind == "scaled", thermal: if (kind == "scaled") "none" else kind,
      x0: if (kind == "two directions") (if (thick and source == "square_source") fxi(400) else HALF) else rndIn(seed, 5, HALF, 2 * S),
      sigma: if (kind == "two directions") (if (thick) fxi(300) else HALF) else rndIn(seed, 6, HALF, 2 * S),
      byCells: cells_ or n == 1, cells: tab(n, i => 2 + 3 * i + rndInt(seed, 10 + i, 3)),
      ms: if (cells_ or n == 1) tab(n, i => rndInt(seed, 20, 2)) else tab(n, i => i),
      angles: tab(n, i => if (kind == "two directions") 2 else 2 * (1 + rndInt(seed, 30 + i, 3))), repeats: rep, analytic: an, moving: mv
    }
    val time = timeOf(s)
    // every source has tables of three times, one of them the one needed
    val tt = List(time, time + quo(S, 4), 2 * time + quo(S, 2))
    val f = tt.indices().fold(List(), (l, i) => range(0, 14).foldl(l, (m, j) =>
      m.append(tableOf(seed, 1 + 14 * i + j, if (j < 6) SOURCES[j] else PAIRS[j - 6], tt[i]))))
    val q = { t: t, x: tab(5, i => quo(fxi(i), 2)), phi: rndVec(seed + 1, 5), e: rndVec(seed + 2, 5) }
    val total = n * rep
    val out = range(0, total).foldl(List(), (l, i) => {
      val x = if (kind == "columns") q.x else positions(seed + 3 + i, 7 * i, way)
      l.append({ xs: x, phi: tab(length(x), j => rnd(seed + 40 + i, j)), e: tab(length(x), j => rnd(seed + 80 + i, j)), spent: rndIn(seed, 900 + i, rat(1, 10), 9 * S) })
    })
    val err = out.foldl(List(), (l, r) => l.append(errorOf(s, f, q, r)))
    val ene = out.foldl(List(), (l, r) => l.append(energyOf(s, f, q, r)))
    val b = find(f, radiation(s), time)
    val pts = tab(7, i => if (i < 5) rndIn(seed, 200 + i, 0, mul(b.end, rat(3, 2))) else if (i == 5) 0 else b.end)
    all {
      file' = f, columns' = q, study' = s, runs' = out, errors' = err.slice(total - n, total), energies' = ene.slice(total - n, total),
      orders' = ordersOf(s, err), orders2' = if (s.thermal == "none") List() else ordersOf(s, ene), asked' = pts, times' = averages(s, out), filedNow' = (isFiled(s)),
      book' = if (isFiled(s)) into(before, tableFor(s, err.slice(total - n, total), averages(s, out), ene.slice(total - n, total))) else before,
      answers' = pts.foldl(List(), (l, x) => l.append(List(valueOf(b, b.a, x), valueOf(b, b.b, x))))
    }
  }
  action init = drawn_(List())
  action step = drawn_(book)

  // ---- properties -----------------------------------------------------------------------
  val entries = length(errors) == length(study.cells) and length(energies) == length(study.cells)
  // an error is zero for the table itself, and bounded by the largest difference
  val itself = study.thermal == "none" implies runs.indices().forall(i => {
    val r = runs[i]
    val b = find(file, radiation(study), timeOf(study))
    val exact = r.xs.foldl(List(), (l, x) => l.append(against(study, b, x)))
    errorOf(study, file, columns, r.with("phi", exact)) == 0 and
      errorOf(study, file, columns, r.with("phi", exact.foldl(List(), (l, v) => l.append(v + S)))) == S
  })
  val unique = file.indices().forall(i => file.indices().forall(j => (i != j) implies (file[i].source != file[j].source or file[i].t != file[j].t)))
  // orders are those of a power law: from first to last entry the errors fall by their product
  val powerLaw = (study.byCells and study.repeats == 1 and length(errors) == 2) implies
    close(mul(orders[0], ln(fxi(study.cells[1])) - ln(fxi(study.cells[0]))), ln(errors[0]) - ln(errors[1]), rat(1, 1000000))
  val printed = study.byCells implies length(orders) == study.repeats * (length(study.cells) - 1)
  val onePlace = book.indices().forall(i => book.indices().forall(j => (i != j) implies not(samePlace(book[i], book[j]))))
  val latest = filedNow implies and {
    length(book) > 0, book[length(book) - 1].key == filedName(study), book[length(book) - 1].rows[1] == errors, book[length(book) - 1].rows[3] == times
  }
  val rectangular = book.indices().forall(i => book[i].rows.indices().forall(r => length(book[i].rows[r]) == length(book[i].rows[0])))
  val safe = onePlace and latest and rectangular and entries and itself and unique and powerLaw and printed
}
