"""P11: uncollided solutions, against spec/uncollided.qnt."""
import json
import math
from common import fl
from kit import Kit, ST

PANEL = 24


def solution(kit, p, ang, nt=48):
    def imp():
        from moving_mesh_transport.solver_classes import uncollided_solutions
        return uncollided_solutions
    mod = kit.ctx.call('import the uncollided solution', imp)
    kind = p['kind']
    q = kit.params(N_ang=ang, x0=fl(p['x0']), t0=fl(p['t0']), sigma=fl(p['sigma']), source_strength=fl(p['strength']),
                   fake_sedov_v0=fl(p['v0']), source_type=ST[kind], uncollided=1, sphere=int(p['sphere']), nt=nt,
                   weights='gauss_legendre')
    np = kit.np
    mu, w = np.array(fl(p['mu'])), np.array(fl(p['w']))
    if len(mu) == ang:
        q['weights'] = (mu, w)
    return kit.ctx.call('make the uncollided solution', mod.uncollided_solution, kit.build(q))


def run(ctx):
    jobs = ctx.quint('uncollided', ctx.pick(22, 500), ctx.pick(9, 20), jobs=ctx.pick(6, 8))
    kit = Kit(ctx)
    np = kit.np
    z, w = np.polynomial.legendre.leggauss(PANEL)
    for tr in ctx.traces(jobs):
        for s in tr:
            p, t = s['prob'], fl(s['t'])
            sol = solution(kit, p, s['ang'])
            ok = np.array(s['ok'])
            xs = np.array(fl(s['xs']))
            want = np.array(fl(s['phi']))
            keep = xs.copy()
            got = np.array(ctx.call('evaluate the uncollided solution', sol.uncollided_solution, xs, t))
            where = {'state': s}
            ctx.true('argument', np.array_equal(xs, keep), where)
            tol = 1e-6 if p['kind'] == 'gaussSrc' else 1e-9
            ctx.same('value', np.where(ok, got, 0), np.where(ok, want, 0), tol, where,
                     scale=fl(p['strength']) * (math.exp(-t) if p['kind'] in ('plane', 'squareIC', 'gaussIC') else 1))
            ctx.true('positive', bool(np.all(got >= -1e-12)), where)
            # one point at a time, and again
            k = len(xs) // 2
            one = np.array(ctx.call('evaluate the uncollided solution', sol.uncollided_solution, xs[k:k + 1], t))
            ctx.same('pointwise', one, got[k:k + 1], 1e-13, where, scale=min(1, fl(p['strength'])))
            if p['kind'] != 'boundary' and not p['sphere'] and len(s['mirror']):
                back = np.array(ctx.call('evaluate the uncollided solution', sol.uncollided_solution, -xs, t))
                ctx.same('mirror', np.where(ok, back, 0), np.where(ok, got, 0), 1e-7 if p['beams'] else 1e-11, where, scale=fl(p['strength']))
            if s['breaks']:
                b = fl(s['breaks'])
                b = [v for lo, hi in zip(b[:-1], b[1:]) for v in np.linspace(lo, hi, 1 + max(1, math.ceil(hi - lo)))[:-1]] + b[-1:]
                acc = 0.0
                for lo, hi in zip(b[:-1], b[1:]):
                    if hi > lo:
                        x = 0.5 * (lo + hi) + 0.5 * (hi - lo) * z
                        f = np.array(ctx.call('evaluate the uncollided solution', sol.uncollided_solution, x, t))
                        acc += 0.5 * (hi - lo) * float(np.sum(w * f))
                # half of a symmetric solution; logarithmic kinks limit the rule
                ctx.same('count', 2 * acc, fl(s['total']), 2e-4 if 'Src' in p['kind'] else 1e-8, where,
                         scale=1 if 'Src' in p['kind'] else abs(fl(s['total'])))
            ctx.distinct.add(json.dumps([p['kind'], p['x0'], s['t']]))
        ctx.done_trace(None, {'prob': {k: v for k, v in tr[-1]['prob'].items() if k not in ('mu', 'w')}, 't': tr[-1]['t'], 'xs': tr[-1]['xs'][:3]})
        if ctx.full():
            return
