// The spherical evolution equation, one evaluation per step.
//
// With M the mass matrix of a cell the evolution is
//   M du/dt = mu L u - exchange - C d(u) + G u - M' u + q/2 + M (sigS phi - sigT u)
// and the state holds M and the right-hand side ("load") of every cell.
module sphere {
  import fx.* from "./fx"
  import quadtab.* from "./quadtab"
  import grid.* from "./grid"
  import dg.* from "./dg"
  import sph.* from "./sph"

  type Prob = { m: int, ang: int, lob: bool, sigT: int, sigS: int, nq: int }

  var cfg: Cfg
  var prob: Prob
  var t: int
  var edges: List[int]
  var speeds: List[int]
  var V: List[List[List[int]]]
  var masses: List[List[List[int]]]        // of every cell
  var load: List[List[List[int]]]          // [direction][cell][i]
  var w: List[int]
  var net: int                             // rate of change of the particle number, weighted with w
  var turned: List[List[List[int]]]        // redistributed coefficients, [cell][j][direction]

  pure def dirs(p: Prob): List[int] = if (p.lob) lobx(p.ang) else glx(p.ang)
  pure def wts(p: Prob): List[int] = {
    val q = if (p.lob) lobw(p.ang) else glw(p.ang)
    q.foldl([], (l, x) => l.append(half(x)))
  }
  pure def turn(p: Prob, n: int, u: List[List[List[int]]]): List[List[List[int]]] = {
    val mu = dirs(p)
    tab(n, k => tab(p.m + 1, j => redistributed(mu, tab(p.ang, l => u[l][k][j]))))
  }
  pure def massAll(p: Prob, g: List[int]): List[List[List[int]]] =
    tab(length(g) - 1, k => mass(p.m, g[k], g[k + 1]))

  pure def loads(p: Prob, g: List[int], v: List[int], u: List[List[List[int]]], ms: List[List[List[int]]],
                 td: List[List[List[int]]]): List[List[List[int]]] = {
    val n = length(g) - 1
    val mu = dirs(p)
    val ww = wts(p)
    val st = tab(n, k => streamSphere(p.m, g[k], g[k + 1]))
    val cu = tab(n, k => curvature(p.m, g[k], g[k + 1]))
    val dr = tab(n, k => {
      val a = driftSphere(p.m, g[k], g[k + 1], v[k], v[k + 1])
      val b = massRate(p.m, g[k], g[k + 1], v[k], v[k + 1])
      tab(p.m + 1, i => subl(a[i], b[i]))
    })
    val mean = tab(n, k => tab(p.m + 1, j => sum(tab(p.ang, l => mul(ww[l], u[l][k][j])))))
    tab(p.ang, l => tab(n, k => {
      val x = exchangeSphere(p.m, g, v, k, mu[l], u[l], u[p.ang - 1 - l][0])
      val a = apply(st[k], u[l][k])
      val b = apply(dr[k], u[l][k])
      val c = apply(cu[k], tab(p.m + 1, j => td[k][j][l]))
      val coll = apply(ms[k], tab(p.m + 1, j => mul(p.sigS, mean[k][j]) - mul(p.sigT, u[l][k][j])))
      tab(p.m + 1, i => mul(mu[l], a[i]) - x[i] - c[i] + b[i] + coll[i])
    }))
  }
  // int r^2 psi dr of a direction in a cell
  pure def content(ms: List[List[int]], u: List[int], h: int): int = mul(sqrt(mul(PI, h)), dot(ms[0], u))
  // rate of the weighted content: through the faces, by redistribution, by collisions
  pure def budget(p: Prob, g: List[int], v: List[int], u: List[List[List[int]]], ms: List[List[List[int]]],
                  td: List[List[List[int]]]): int = {
    val n = length(g) - 1
    val mu = dirs(p)
    val ww = wts(p)
    sum(tab(p.ang, l => {
      val out = mul(sq(g[n]), upwind(mu[l] - v[n], sphR(u[l][n - 1], g[n] - g[n - 1]), 0))
      val inn = mul(sq(g[0]), upwind(mu[l] - v[0], sphL(u[p.ang - 1 - l][0], g[1] - g[0]), sphL(u[l][0], g[1] - g[0])))
      val cells = sum(tab(n, k => {
        val h = g[k + 1] - g[k]
        val bend = apply(curvature(p.m, g[k], g[k + 1]), tab(p.m + 1, j => td[k][j][l]))
        0 - mul(sqrt(mul(PI, h)), bend[0]) - mul(p.sigT - p.sigS, content(ms[k], u[l][k], h))
      }))
      mul(ww[l], inn - out + cells)
    }))
  }
  // rate of the content for a given load
  pure def rate(p: Prob, g: List[int], v: List[int], u: List[List[List[int]]], ms: List[List[List[int]]],
                ld: List[List[List[int]]]): int = {
    val ww = wts(p)
    sum(tab(p.ang, l => mul(ww[l], sum(tab(length(g) - 1, k => {
      val h = g[k + 1] - g[k]
      val mr = massRate(p.m, g[k], g[k + 1], v[k], v[k + 1])
      mul(sqrt(mul(PI, h)), ld[l][k][0] + dot(mr[0], u[l][k])) + mul(div(v[k + 1] - v[k], 2 * h), content(ms[k], u[l][k], h))
    })))))
  }

  pure def randomState(seed: int, p: Prob, n: int): List[List[List[int]]] = {
    // now and then faint or bright radiation: nothing may depend on its size
    val z = rndInt(seed, 39999, 6)
    tab(p.ang, l => tab(n, k => tab(p.m + 1, j => {
      val x = rnd(seed, 400 * l + 20 * k + j)
      if (z == 0) quo(x, 1000000000) else if (z == 1) 1000 * x else x
    })))
  }
  pure def steer(c: Cfg, time: int): int = if (smooth(c, time, rat(1, 100000))) time else quo(time, 2)

  action problem = {
    nondet seed = 1.to(1000000).oneOf()
    nondet lay = Set("gaussIC", "gaussSrc", "squareIC", "squareSrc", "plane").oneOf()
    nondet m0 = 0.to(4).oneOf()
    nondet ang0 = Set(2, 3, 4, 5, 6).oneOf()
    nondet shape = 0.to(8).oneOf()
    nondet lob = Set(true, false).oneOf()
    nondet nr0 = 1.to(4).oneOf()
    nondet mov = Set(true, true, false).oneOf()
    nondet fin = Set(true, false).oneOf()
    nondet sta = Set("equal", "absorbing", "mixed", "mixed#", "weak").oneOf()
    // now and then a high order, many directions or many cells
    val m = if (shape == 0) 4 + m0 else if (shape == 1 or shape == 2 or shape == 8) m0 / 2 else m0
    val ang = if (shape == 1) 6 + ang0 else if (shape == 0 or shape == 2 or shape == 8) 2 else ang0
    val nr = if (shape == 8) 30 + 2 * nr0 else if (shape == 2) 4 + 2 * nr0 else nr0
    val isq = lay == "squareSrc" or lay == "squareIC"
    val n = if (isq) nr + 3 else nr
    val x0 = rndIn(seed, 1, rat(2, 10), 2 * S)
    val tf = rndIn(seed, 2, rat(5, 10), 3 * S)
    val t0 = quo(tf * (2 * rndInt(seed, 3, 30) + 1), 50)
    val c = {
      lay: lay, n: n, x0: x0, v: rndIn(seed, 4, HALF, rat(3, 2)), tf: tf, t0: t0,
      pad: x0 + rat(3, 2), finite: fin and isq, width: 2 * (x0 + rat(3, 2)) + rndIn(seed, 5, S, 4 * S), moving: mov,
      thick: false, sphere: true, v0: 0, root: false, factor: S
    }
    val sigT = rndIn(seed, 7, rat(1, 4), 2 * S)
    val p = {
      m: m, ang: ang, lob: lob and ang > 2, sigT: sigT,
      sigS: if (sta == "equal") sigT else if (sta == "absorbing") 0 else if (sta == "weak") quo(sigT, 100000) else mul(sigT, rndIn(seed, 8, 0, S)), nq: 12
    }
    val time = steer(c, quo(tf * rndInt(seed, 12, 26), 25))
    val g = edgesAt(c, time)
    val v = speedsAt(c, time)
    val u = randomState(seed, p, n)
    val ms = massAll(p, g)
    val td = turn(p, n, u)
    all {
      cfg' = c, prob' = p, t' = time, edges' = g, speeds' = v, V' = u, masses' = ms, turned' = td,
      load' = loads(p, g, v, u, ms, td), w' = wts(p), net' = budget(p, g, v, u, ms, td)
    }
  }
  action init = problem
  action evaluate = {
    nondet seed = 1.to(1000000).oneOf()
    nondet k = 0.to(25).oneOf()
    nondet iso = Set(0, 0, 1).oneOf()
    val time = steer(cfg, quo(cfg.tf * k, 25))
    val g = edgesAt(cfg, time)
    val v = speedsAt(cfg, time)
    val full = randomState(seed, prob, cfg.n)
    // sometimes the intensity is the same in every direction
    val u = if (iso == 0) full else tab(prob.ang, _ => full[0])
    val ms = massAll(prob, g)
    val td = turn(prob, cfg.n, u)
    all {
      cfg' = cfg, prob' = prob, t' = time, edges' = g, speeds' = v, V' = u, masses' = ms, turned' = td,
      load' = loads(prob, g, v, u, ms, td), w' = w, net' = budget(prob, g, v, u, ms, td)
    }
  }
  action step = any { evaluate, problem }

  // ---- properties -----------------------------------------------------------
  pure val EPS: int = rat(1, 100000000000)
  val centred = edges[0] == 0
  val balance = abs(rate(prob, edges, speeds, V, masses, load) - net) <= EPS
  // redistribution moves particles between directions only
  val conserved = {
    val f = faces(dirs(prob))
    turned.indices().forall(k => turned[k].indices().forall(j =>
      abs(sum(tab(prob.ang, l => mul(f[l + 1] - f[l], turned[k][j][l])))) <= EPS))
  }
  val symmetric = masses.indices().forall(k => masses[k].indices().forall(i => masses[k][i].indices().forall(j =>
    abs(masses[k][i][j] - masses[k][j][i]) <= EPS)))
  val wellPosed = legal(cfg) and smooth(cfg, t, rat(1, 1000000))
  val safe = wellPosed and centred and balance and conserved and symmetric
}
