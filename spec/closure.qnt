// Emission of the material: the temperature law applied to the energy density of a cell.
module closure {
  import fx.* from "./fx"
  import quadtab.* from "./quadtab"
  import dg.* from "./dg"

  type Law = { kind: str, m: int, nq: int, cv: int }
  var law: Law
  var cell: { a: int, b: int }
  var energy: List[int]
  var emission: List[int]
  var total: int                 // of the emission over the cell, by a second rule

  pure val RAD: int = rat(137225, 10000000)
  // emission at a point with energy density e
  pure def emit(l: Law, e: int): int =
    if (l.kind == "none") 0
    else if (l.kind == "linear") e
    else sq(sq(div(mul(RAD, e), l.cv)))
  pure def density(m: int, u: List[int], z: int, h: int): int =
    div(sum(tab(m + 1, j => mul(mul(root(j), u[j]), legendre(j, z)))), sqrt(h))
  pure def project(l: Law, u: List[int], h: int, n: int): List[int] =
    moments(l.m, n, tab(n, k => emit(l, density(l.m, u, glx(n)[k], h))), h)

  action ask(l: Law, seed: int): bool = {
    val a = rndIn(seed, 1, -3 * S, 3 * S)
    val h = rndIn(seed, 2, rat(1, 20), 3 * S)
    val k = hash(seed, 3) % 6
    val u = tab(l.m + 1, j =>
      if (k == 0) 0
      else if (k == 1) (if (j == 0) rndIn(seed, 9, 0, 2 * S) else 0)
      else rnd(seed, 10 + j))
    all {
      law' = l, cell' = { a: a, b: a + h }, energy' = u, emission' = project(l, u, h, l.nq),
      total' = half(mul(h, sum(tab(20, q => mul(glw(20)[q], emit(l, density(l.m, u, glx(20)[q], h)))))))
    }
  }
  action init = {
    nondet seed = 1.to(1000000).oneOf()
    nondet kind = Set("none", "linear", "linear", "constant", "constant").oneOf()
    nondet m0 = Set(0, 1, 2, 3, 4, 6, 9).oneOf()
    nondet extra = 0.to(3).oneOf()
    // the rule is exact for the law
    val m = if (kind == "constant") imin(m0, 6) else m0
    val need = if (kind == "constant") (5 * m) / 2 + 1 else m + 1
    ask({ kind: kind, m: m, nq: imin(16, need + extra), cv: rndIn(seed, 5, rat(1, 100), rat(1, 10)) }, seed)
  }
  action step = {
    nondet seed = 1.to(1000000).oneOf()
    ask(law, seed)
  }

  // ---- properties --------------------------------------------------------------------
  pure def largest(l: List[int]): int = l.foldl(0, (a, x) => imax(a, abs(x)))
  val h = cell.b - cell.a
  // what is emitted in total is the integral of the law
  val balance = abs(mul(sqrt(h), emission[0]) - total) <= mul(rat(1, 100000000000), S + abs(total))
  val dark = (law.kind == "none" or largest(energy) == 0) implies largest(emission) == 0
  val identity = law.kind == "linear" implies energy.indices().forall(j =>
    abs(emission[j] - energy[j]) <= rat(1, 100000000000))
  // a uniform cell emits uniformly, the fourth power for a constant heat capacity
  val uniform = energy.indices().forall(j => j > 0 implies energy[j] == 0) implies
    emission.indices().forall(j => j > 0 implies abs(emission[j]) <= mul(rat(1, 100000000000), S + abs(emission[0])))
  val positive = law.kind == "constant" implies emission[0] >= 0
  val safe = balance and dark and identity and uniform and positive
}
