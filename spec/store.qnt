// The stores of finished runs: solutions and temperature waves, kept by the
// parameters of the run.  A record is what was saved last under its key.
module store {
  import fx.* from "./fx"

  type Key = { problem: str, source: str, t: int, c: int, x0: int, eps: int, cv: int, unc: bool, mov: bool, n: int }
  type WaveKey = { problem: str, source: str, t: int, cv: int }
  type Solution = { xs: List[int], phi: List[int], e: List[int], psi: List[List[int]], mus: List[int], ws: List[int],
                    edges: List[int], coefs: List[List[List[int]]] }
  type Wave = { times: List[int], left: List[int], right: List[int], heat: List[int] }
  type Done = { op: str, key: Key, wkey: WaveKey, found: bool }
  var sols: Key -> Solution
  var waves: WaveKey -> Wave
  var seen: List[Key]                // in the order of first saving
  var seenW: List[WaveKey]
  var last: Done
  var sol: Solution                  // what was saved, or what has to be returned
  var wave: Wave

  pure val NOSOL: Solution = { xs: List(), phi: List(), e: List(), psi: List(), mus: List(), ws: List(), edges: List(), coefs: List() }
  pure val NOWAVE: Wave = { times: List(), left: List(), right: List(), heat: List() }
  pure val NOKEY: WaveKey = { problem: "", source: "", t: 0, cv: 0 }
  pure val NOSKEY: Key = { problem: "", source: "", t: 0, c: 0, x0: 0, eps: 0, cv: 0, unc: false, mov: false, n: 0 }

  pure def problems(i: int): str =
    if (i == 0) "transport" else if (i == 1) "rad_transfer_constant_cv" else if (i == 2) "rad_transfer_constant_cv_thick"
    else if (i == 3) "su_olson" else if (i == 4) "su_olson_s2" else if (i == 5) "su_olson_thick" else if (i == 6) "su_olson_thick_s2"
    else if (i == 7) "rad_transfer_constant_cv_s2" else "rad_transfer_constant_cv_thick_s2"
  pure def sources(i: int): str =
    if (i == 0) "plane_IC" else if (i == 1) "square_IC" else if (i == 2) "square_s" else if (i == 3) "gaussian_IC"
    else if (i == 4) "MMS" else "gaussian_s"
  pure def times(i: int): int =
    if (i == 0) S else if (i == 1) 10 * S else if (i == 2) rat(3, 2) else if (i == 3) rat(1, 10) else if (i == 4) rat(316228, 10000) else 100 * S
  pure def ratios(i: int): int = if (i == 0) S else if (i == 1) HALF else rat(1, 10)
  pure def sizes(i: int): int = if (i == 0) rat(5, 10) else if (i == 1) rat(5, 100) else 5 * S
  pure def cells(i: int): int = if (i == 0) 2 else if (i == 1) 1 else if (i == 2) 12 else 21
  // only the heat capacity of a constant heat capacity problem is part of its name
  pure def hasCv(p: str): bool = p == "rad_transfer_constant_cv" or p == "rad_transfer_constant_cv_thick" or
    p == "rad_transfer_constant_cv_s2" or p == "rad_transfer_constant_cv_thick_s2"
  pure def someKey(seed: int): Key = {
    val p = problems(hash(seed, 1) % 9)
    { problem: p, source: sources(hash(seed, 2) % 6), t: times(hash(seed, 3) % 6), c: ratios(hash(seed, 4) % 3),
      x0: sizes(hash(seed, 5) % 3), eps: ratios(hash(seed, 6) % 2), cv: if (hasCv(p)) rat(1 + 2 * (hash(seed, 7) % 2), 100) else 0,
      unc: hash(seed, 8) % 2 == 0, mov: hash(seed, 9) % 2 == 0, n: cells(hash(seed, 10) % 4) }
  }
  // another value that agrees in seven figures
  pure def nearly(v: int): int = v + v / 10000000
  // the same key but for one parameter
  pure def neighbour(k: Key, seed: int): Key = {
    val o = someKey(seed)
    val q = hash(seed, 20) % 15
    if (q == 0) k.with("source", o.source) else if (q == 1) k.with("t", o.t) else if (q == 2) k.with("c", o.c)
    else if (q == 3) k.with("x0", o.x0) else if (q == 4) k.with("eps", o.eps) else if (q == 5) k.with("unc", not(k.unc))
    else if (q == 6) k.with("mov", not(k.mov)) else if (q == 7) k.with("n", o.n)
    else if (q == 10) k.with("t", nearly(k.t)) else if (q == 11) k.with("c", nearly(k.c)) else if (q == 12) k.with("x0", nearly(k.x0))
    else if (q == 13) k.with("eps", nearly(k.eps)) else if (q == 14 and hasCv(k.problem)) k.with("cv", nearly(k.cv))
    else if (q == 8 and hasCv(k.problem)) k.with("cv", if (k.cv == rat(1, 100)) rat(3, 100) else rat(1, 100))
    else if (hasCv(k.problem) == hasCv(o.problem)) k.with("problem", o.problem) else k.with("n", o.n)
  }
  pure def waveOf(k: Key): WaveKey = { problem: k.problem, source: k.source, t: k.t, cv: k.cv }
  // the wave store knows fewer problems
  pure def waving(k: WaveKey): bool = k.problem != "rad_transfer_constant_cv_s2" and k.problem != "rad_transfer_constant_cv_thick_s2"
  pure def someSolution(k: Key, seed: int): Solution = {
    val nx = 1 + hash(seed, 1) % 4
    val ang = 1 + hash(seed, 2) % 3
    val m = hash(seed, 3) % 3
    val rows = if (k.problem == "transport") ang else ang + 1
    val cs = 1 + hash(seed, 4) % 3
    { xs: tab(nx, i => rnd(seed, 10 + i)), phi: tab(nx, i => rnd(seed, 20 + i)),
      e: tab(nx, i => if (k.problem == "transport") 0 else rnd(seed, 30 + i)),
      psi: tab(ang, l => tab(nx, i => rnd(seed, 40 + 10 * l + i))), mus: tab(ang, l => rnd(seed, 80 + l)),
      ws: tab(ang, l => rnd(seed, 90 + l)), edges: tab(cs + 1, i => rnd(seed, 100 + i)),
      coefs: tab(rows, l => tab(cs, i => tab(m + 1, j => rnd(seed, 200 + 20 * l + 5 * i + j)))) }
  }
  pure def someWave(seed: int): Wave = {
    val n = 1 + hash(seed, 1) % 4
    { times: tab(n, i => rnd(seed, i)), left: tab(n, i => rnd(seed, 10 + i)), right: tab(n, i => rnd(seed, 20 + i)),
      heat: tab(n, i => rnd(seed, 30 + i)) }
  }
  // a key for the next request: one that was used, one close to it, or a new one
  pure def pick(old: List[Key], seed: int): Key = {
    val q = hash(seed, 50) % 8
    if (length(old) == 0 or q == 0) someKey(seed)
    else {
      val k = old[hash(seed, 51) % length(old)]
      if (q < 4) k else neighbour(k, seed)
    }
  }
  pure def pickW(old: List[WaveKey], used: List[Key], seed: int): WaveKey = {
    val q = hash(seed, 50) % 8
    val k = if (length(old) > 0 and q < 3) old[hash(seed, 51) % length(old)] else waveOf(pick(used, seed))
    if (waving(k)) k else k.with("problem", "rad_transfer_constant_cv_thick")
  }

  action init = all {
    sols' = Map(), waves' = Map(), seen' = List(), seenW' = List(), sol' = NOSOL, wave' = NOWAVE,
    last' = { op: "start", key: NOSKEY, wkey: NOKEY, found: false }
  }
  action save(seed: int): bool = {
    val k = pick(seen, seed)
    val v = someSolution(k, seed)
    all {
      sols' = sols.put(k, v), seen' = if (sols.keys().contains(k)) seen else seen.append(k), sol' = v, wave' = NOWAVE,
      waves' = waves, seenW' = seenW, last' = { op: "save", key: k, wkey: NOKEY, found: true }
    }
  }
  action load(seed: int): bool = {
    val k = pick(seen, seed)
    val has = sols.keys().contains(k)
    all {
      sols' = sols, seen' = seen, waves' = waves, seenW' = seenW, wave' = NOWAVE, sol' = if (has) sols.get(k) else NOSOL,
      last' = { op: "load", key: k, wkey: NOKEY, found: has }
    }
  }
  action saveWave(seed: int): bool = {
    val k = pickW(seenW, seen, seed)
    val v = someWave(seed)
    all {
      waves' = waves.put(k, v), seenW' = if (waves.keys().contains(k)) seenW else seenW.append(k), wave' = v, sol' = NOSOL,
      sols' = sols, seen' = seen, last' = { op: "saveWave", key: NOSKEY, wkey: k, found: true }
    }
  }
  action loadWave(seed: int): bool = {
    val k = pickW(seenW, seen, seed)
    val has = waves.keys().contains(k)
    all {
      sols' = sols, seen' = seen, waves' = waves, seenW' = seenW, sol' = NOSOL, wave' = if (has) waves.get(k) else NOWAVE,
      last' = { op: "loadWave", key: NOSKEY, wkey: k, found: has }
    }
  }
  action step = {
    nondet seed = 1.to(1000000).oneOf()
    any { save(seed), save(seed + 1000000), load(seed), load(seed + 1000000), saveWave(seed), loadWave(seed) }
  }

  // ---- properties --------------------------------------------------------------------
  val complete = seen.indices().forall(i => sols.keys().contains(seen[i])) and length(seen) == sols.keys().size() and
    seenW.indices().forall(i => waves.keys().contains(seenW[i])) and length(seenW) == waves.keys().size()
  val latest = last.op == "save" implies sols.get(last.key) == sol
  val latestWave = last.op == "saveWave" implies waves.get(last.wkey) == wave
  val honest = last.op == "load" implies (last.found == (length(sol.xs) > 0))
  val safe = complete and latest and latestWave and honest
}
