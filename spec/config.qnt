// From a configuration to runs.  A configuration is what the input files hold;
// a study is one command (a source by name, with or without the analytic
// uncollided solution, on a moving or a fixed grid, or all four ways), which
// makes one run per entry of the lists, repeated N_runs times.  The state holds
// the exact parameters of every run the last command has to make, which run's
// results are kept, and what the store has to return afterwards.
module config {
  import fx.* from "./fx"

  type All = { problem: str, tf: int, tnodes: int, rt: int, at: int, t0: int, major: str, eInit: int, weights: str, particleV: str,
               edgeV: str, cv: int, sigT: int, sigS: int, integrator: str, eps: int, scaled: bool, sphere: bool, thick: bool, mxstp: int,
               saving: bool, cells: List[int], ms: List[int], repeats: int, temp: List[int], thermal: str }
  type Section = { name: str, x0: List[int], strength: int, kinds: List[int], angles: List[int], move: List[int], sigma: int, len: int }
  type Grid = { tol: int, factor: int, saveWave: bool, estimate: bool, chosen: bool, xs: List[int], pad: int, leader: int, nx: int,
                evaluate: bool, times: List[int], on: List[int], entering: bool, enterStrength: int, opac: str, order: int, finite: bool,
                width: int, v0: int }
  type Call = { tf: int, n: int, ang: int, m: int, x0: int, t0: int, sigT: int, sigS: int, tnodes: int, kinds: List[int], analytic: bool,
                moving: bool, move: List[int], thermal: str, temp: List[int], rt: int, at: int, eInit: int, chosen: bool, xs: List[int],
                weights: str, sigma: int, particleV: int, edgeV: int, cv: int, estimate: bool, findWave: bool, thick: bool, mxstp: int,
                tol: int, strength: int, factor: int, integrator: str, len: int, saveWave: bool, pad: int, leader: int, nx: int,
                evaluate: bool, times: List[int], on: List[int], enterStrength: int, entering: bool, opac: str, order: int, finite: bool,
                width: int, v0: int, scaled: bool, eps: int, sphere: bool }
  // a record of the store: the key of the run and whose results it holds
  type Record = { t: int, size: int, n: int, analytic: bool, moving: bool, which: int, at: int, s2: bool }
  var opts: All
  var sec: Section
  var grid: Grid
  var flaw: str                 // what makes the configuration unacceptable
  var command: str              // "" after a configuration was read
  var way: { analytic: bool, moving: bool }
  var calls: List[Call]
  var first: int                // runs made by earlier commands
  var kept: int                 // the run whose results are kept
  var store: List[Record]       // oldest first
  var named: str                // the source name in the store

  // ---- the parameters of a run ---------------------------------------------------------
  pure def speed(name: str): int = if (name == "one") S else div(S, SQRT3)
  pure def isGauss(name: str): bool = name == "gaussian_IC" or name == "gaussian_source"
  // the entry of a list a run takes: cells and orders by position; a study of
  // orders keeps the cells of the second entry
  pure def cellsOf(o: All, i: int): int = if (o.major == "cells") o.cells[i] else o.cells[1]
  pure def widthOf(s: Section, i: int): int = if (s.name == "gaussian_IC" or s.name == "MMS") s.x0[i] else s.x0[0]
  pure def callOf(o: All, s: Section, g: Grid, i: int, analytic: bool, moving: bool): Call = {
    tf: o.tf, n: cellsOf(o, i), ang: s.angles[i], m: o.ms[i], x0: widthOf(s, i), t0: o.t0, sigT: o.sigT, sigS: o.sigS, tnodes: o.tnodes,
    kinds: s.kinds, analytic: analytic, moving: moving, move: s.move, thermal: o.thermal, temp: o.temp, rt: o.rt, at: o.at, eInit: o.eInit,
    chosen: g.chosen, xs: if (g.chosen) g.xs else List(), weights: o.weights, sigma: if (isGauss(s.name)) s.sigma else 0,
    particleV: speed(o.particleV), edgeV: speed(o.edgeV), cv: o.cv, estimate: g.estimate, findWave: false, thick: o.thick, mxstp: o.mxstp,
    tol: g.tol, strength: s.strength, factor: g.factor, integrator: o.integrator, len: if (o.thick) s.len else S, saveWave: g.saveWave,
    pad: g.pad, leader: g.leader, nx: g.nx, evaluate: g.evaluate, times: g.times, on: g.on, enterStrength: g.enterStrength,
    entering: g.entering, opac: g.opac, order: g.order, finite: g.finite, width: if (g.finite) g.width else 0 - S, v0: g.v0,
    scaled: o.scaled, eps: o.eps, sphere: o.sphere
  }
  // moving grids, and the analytic part where there is one
  pure def recommended(name: str): { analytic: bool, moving: bool } = { analytic: name != "MMS" and name != "boundary_source", moving: true }
  pure def ways(command: str, w: { analytic: bool, moving: bool }): List[{ analytic: bool, moving: bool }] =
    if (command == "all") List({ analytic: true, moving: true }, { analytic: false, moving: true }, { analytic: true, moving: false }, { analytic: false, moving: false })
    else List(w)
  pure def runsOf(o: All, s: Section, g: Grid, c: str, w: { analytic: bool, moving: bool }): List[Call] =
    ways(c, w).foldl(List(), (r, y) => range(0, o.repeats).foldl(r, (q, _) =>
      range(0, length(s.angles)).foldl(q, (a, i) => a.append(callOf(o, s, g, i, y.analytic, y.moving)))))
  // a solution is filed under the entered width: the first one, or the standard deviation
  pure def recordsOf(o: All, s: Section, c: List[Call], before: int): List[Record] =
    if (not(o.saving)) List() else c.indices().fold(List(), (a, i) => {
      val k = c[i]
      val b = { t: o.tf, size: if (isGauss(s.name)) s.sigma else s.x0[0], n: k.n, analytic: k.analytic, moving: k.moving,
                which: before + i, at: 0 - 1, s2: k.ang == 2 }
      if (k.evaluate) range(0, length(k.times)).foldl(a, (q, j) => q.append(b.with("t", k.times[j]).with("at", j))) else a.append(b)
    })
  pure def sameKey(a: Record, b: Record): bool =
    a.t == b.t and a.size == b.size and a.n == b.n and a.analytic == b.analytic and a.moving == b.moving
  pure def filedIn(l: List[Record], r: Record): List[Record] = l.foldl(List(), (a, x) => if (sameKey(x, r)) a else a.append(x)).append(r)

  // ---- configurations ------------------------------------------------------------------
  pure def kindsOf(name: str): List[int] =
    if (name == "plane_IC") List(1, 0, 0, 0, 0, 0, 0, 0) else if (name == "square_IC") List(0, 1, 0, 0, 0, 0, 0, 0)
    else if (name == "square_source") List(0, 0, 1, 0, 0, 0, 0, 0) else if (name == "gaussian_IC") List(0, 0, 0, 1, 0, 0, 0, 0)
    else if (name == "MMS") List(0, 0, 0, 0, 1, 0, 0, 0) else if (name == "gaussian_source") List(0, 0, 0, 0, 0, 1, 0, 0)
    else if (name == "dipole") List(2, 0, 0, 0, 0, 0, 0, 0) else if (name == "self_sim_plane") List(3, 0, 0, 0, 0, 0, 0, 0)
    else List(0, 0, 0, 0, 0, 0, 0, 0)
  pure def filed(name: str): str = if (name == "square_source") "square_s" else if (name == "gaussian_source") "gaussian_s" else name
  pure def hasRecord(name: str): bool = name != "dipole" and name != "self_sim_plane" and name != "boundary_source"
  pure def drawn(seed: int, k: int, n: int, lo: int, hi: int): List[int] = tab(n, i => rndIn(seed, 100 * k + i, lo, hi))
  pure def counts(seed: int, k: int, n: int, lo: int, span: int): List[int] = tab(n, i => lo + rndInt(seed, 100 * k + i, span))
  pure def allOf(seed: int, name: str, n: int, opac: str, evaluate: bool): All = {
    problem: if (hash(seed, 1) % 3 == 0) "su_olson" else if (hash(seed, 1) % 3 == 1) "rad_transfer_constant_cv" else "transport",
    tf: rndIn(seed, 2, rat(1, 10), 5 * S), tnodes: 4 + rndInt(seed, 3, 60), rt: quo(rndIn(seed, 4, S, 9 * S), 1000000), at: quo(rndIn(seed, 5, S, 9 * S), 10000000),
    t0: rndIn(seed, 6, rat(1, 10), 9 * S), major: if (n > 1 and hash(seed, 7) % 3 == 0) "Ms" else "cells", eInit: quo(rndIn(seed, 8, S, 9 * S), 1000),
    weights: if (hash(seed, 9) % 2 == 0) "gauss_legendre" else "gauss_lobatto", particleV: if (hash(seed, 10) % 2 == 0) "one" else "sqrt_3",
    edgeV: if (hash(seed, 11) % 2 == 0) "one" else "sqrt_3", cv: rndIn(seed, 12, rat(1, 100), S), sigT: rndIn(seed, 13, rat(1, 4), 3 * S),
    sigS: rndIn(seed, 14, rat(1, 100), rat(1, 4)), integrator: if (hash(seed, 15) % 3 == 0) "BDF" else if (hash(seed, 15) % 3 == 1) "DOP853" else "RK45",
    eps: if (hash(seed, 16) % 2 == 0) S else rndIn(seed, 17, rat(1, 10), S), scaled: hash(seed, 18) % 2 == 0,
    sphere: hash(seed, 19) % 3 == 0, thick: hash(seed, 20) % 3 == 0, mxstp: rndIn(seed, 21, rat(1, 100), S),
    saving: hash(seed, 22) % 3 != 0 and hasRecord(name), cells: counts(seed, 1, n, 2, 20), ms: counts(seed, 2, n, 0, 6),
    repeats: 1 + hash(seed, 23) % 2, temp: List(hash(seed, 24) % 2, hash(seed, 25) % 2, 0, 0), thermal: "none"
  }
  pure def sectionOf(seed: int, name: str, n: int): Section = {
    name: name, x0: if (name == "boundary_source") drawn(seed, 3, 1, S, 5 * S)
                    else if (name == "square_source" and hash(seed, 30) % 2 == 0) List(rat(5, 2)).concat(drawn(seed, 3, n, S, 5 * S))
                    else drawn(seed, 3, n, rat(1, 100), 5 * S),
    strength: rndIn(seed, 31, rat(1, 10), 4 * S), kinds: kindsOf(name), angles: tab(n, i => 2 * (1 + rndInt(seed, 420 + i, 4))),
    move: if (hash(seed, 32) % 2 == 0) List(1, 0, 0, 0) else if (hash(seed, 32) % 4 == 1) List(0, 0, 1, 0) else List(0, 0, 0, 1),
    sigma: rndIn(seed, 33, rat(1, 10), 2 * S), len: rndIn(seed, 34, rat(1, 10), 2 * S)
  }
  pure def gridOf(seed: int, opac: str, evaluate: bool): Grid = {
    tol: rndIn(seed, 40, S, 9 * S), factor: rndIn(seed, 41, S, 9 * S), saveWave: hash(seed, 42) % 2 == 0, estimate: hash(seed, 43) % 2 == 0,
    chosen: hash(seed, 44) % 2 == 0, xs: drawn(seed, 5, 1 + hash(seed, 45) % 4, 0 - S, 2 * S), pad: rndIn(seed, 46, rat(1, 10), 9 * S),
    leader: rndIn(seed, 47, rat(1, 100), S), nx: 3 + rndInt(seed, 48, 30), evaluate: evaluate,
    times: drawn(seed, 6, 1 + hash(seed, 49) % 3, rat(1, 100), 5 * S), on: List(hash(seed, 50) % 2, hash(seed, 51) % 2),
    entering: hash(seed, 52) % 2 == 0, enterStrength: rndIn(seed, 53, rat(1, 10), 4 * S), opac: opac, order: rndInt(seed, 54, 5),
    finite: hash(seed, 55) % 2 == 0, width: rndIn(seed, 56, S, 9 * S), v0: quo(rndIn(seed, 57, S, 9 * S), 1000)
  }
  pure def flaws(i: int): str =
    if (i == 0) "cells" else if (i == 1) "orders" else if (i == 2) "angles" else if (i == 3) "two geometries" else if (i == 4) "two opacities"
    else if (i == 5) "two couplings" else if (i == 6) "source" else if (i == 7) "major" else if (i == 8) "no speed" else "no total"
  // an unacceptable configuration is an acceptable one with a flaw: lists of
  // different lengths, contradictory options, an unknown source or study, a missing entry
  action configured(before: int, s0: List[Record]): bool = {
    nondet seed = 1.to(1000000).oneOf()
    nondet name = Set("plane_IC", "square_IC", "square_source", "gaussian_IC", "gaussian_source", "MMS", "boundary_source", "dipole", "self_sim_plane").oneOf()
    nondet n = 1.to(3).oneOf()
    nondet bad = 0.to(39).oneOf()
    nondet drawnOp = Set("constant", "gaussian", "siewert1", "siewert2", "fake_sedov").oneOf()
    nondet ev = Set(true, false).oneOf()
    // the comparison drawn after a boundary driven run needs its times, or has none of them
    val opac = if (name == "boundary_source" and ev and drawnOp != "constant") "fake_sedov" else if (name == "boundary_source" and not(ev) and drawnOp == "fake_sedov") "constant" else drawnOp
    all {
      opts' = allOf(seed, name, n, opac, ev), sec' = sectionOf(seed, name, n), grid' = gridOf(seed, opac, ev),
      flaw' = if (bad < 10) flaws(bad) else "", command' = "", way' = { analytic: false, moving: false }, calls' = List(),
      first' = before, kept' = 0 - 1, store' = s0, named' = filed(name)
    }
  }
  action read_ = configured(first + length(calls), List())
  action study = {
    // a study by its bare name is the recommended treatment
    nondet c = Set("one", "bare", "all").oneOf()
    nondet a = Set(true, false).oneOf()
    nondet m = Set(true, false).oneOf()
    val w = if (c == "bare") recommended(sec.name) else { analytic: a, moving: m }
    val q = if (flaw != "") List() else runsOf(opts, sec, grid, c, w)
    val b = first + length(calls)
    all {
      opts' = opts, sec' = sec, grid' = grid, flaw' = flaw, command' = c, way' = w, calls' = q, first' = b,
      kept' = if (c == "all" or flaw != "") kept else b + length(q) - 1, store' = recordsOf(opts, sec, q, b).foldl(store, (l, r) => filedIn(l, r)), named' = named
    }
  }
  action init = configured(0, List())
  action step = {
    nondet again = 0.to(2).oneOf()
    if (command == "" or (again == 0 and flaw == "")) study else read_
  }

  // ---- properties ----------------------------------------------------------------------
  val rejected = flaw != "" implies (calls == List() and store == List() and kept < 0)
  val wholeStudy = (command != "" and flaw == "") implies
    length(calls) == opts.repeats * length(sec.angles) * (if (command == "all") 4 else 1)
  val known = calls.indices().forall(i => {
    val c = calls[i]
    val p = i % length(sec.angles)
    and {
      c.m == opts.ms[p], c.ang == sec.angles[p], opts.major == "cells" implies c.n == opts.cells[p],
      c.edgeV <= S, c.particleV <= S, c.sigma > 0 iff isGauss(sec.name), not(c.thick) implies c.len == S,
      abs(3 * sq(c.edgeV) - S) <= 10 or c.edgeV == S
    }
  })
  // both treatments on both grids, each once per entry and repetition
  val fourWays = (command == "all" and flaw == "") implies tuples(Set(true, false), Set(true, false)).forall(((a, m)) =>
    length(calls.select(c => c.analytic == a and c.moving == m)) == opts.repeats * length(sec.angles))
  val oneEach = store.indices().forall(i => store.indices().forall(j => i != j implies not(sameKey(store[i], store[j]))))
  val latest = store.indices().forall(i => store[i].which < first + length(calls))
  val safe = rejected and wholeStudy and known and fourWays and oneEach and latest
}
