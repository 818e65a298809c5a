"""P18: quadrature rules and evaluation points, against spec/rules.qnt."""
import json
from common import fl
from kit import Kit


def run(ctx):
    jobs = ctx.quint('rules', ctx.pick(25, 1000), ctx.pick(9, 12), jobs=ctx.pick(5, 8))
    kit = Kit(ctx)
    np, F = kit.np, kit.fn
    for tr in ctx.traces(jobs):
        for s in tr:
            name, n = s['name'], s['n']
            det = {'rule': name, 'n': n}
            x, w = ctx.call('quadrature', F.quadrature, n, name)
            x, w = np.array(x, dtype=float), np.array(w, dtype=float)
            cheb = name == 'chebyshev'
            if s['nodes']:
                ctx.same('nodes', x, fl(s['nodes']), 1e-12, det)
                ctx.same('weights', w, fl(s['weights']), 1e-11, det)
            ctx.true('size', len(x) == n and len(w) == n, det)
            dx = np.diff(x)
            ctx.true('order', bool(np.all(dx < 0) if cheb else np.all(dx > 0)), dict(det, nodes=x.tolist()))
            ctx.true('inside', bool(np.all(np.abs(x) <= 1 + 1e-15)), dict(det, nodes=x.tolist()))
            ctx.same('symmetric', x, -x[::-1], 1e-12, det)
            ctx.true('positive', bool(np.all(w > 0)), dict(det, weights=w.tolist()))
            ctx.same('sum', w.sum(), np.pi if cheb else 2.0, 1e-11, det)
            c = np.array(s['poly'], dtype=float)
            val = float(np.sum(w * np.polynomial.polynomial.polyval(x, c)))
            ctx.same('integral', val, fl(s['integral']), 1e-10, dict(det, polynomial=s['poly']), scale=1.0 + float(np.sum(np.abs(c))))
            one = np.zeros(s['term'] + 1)
            one[-1] = 1.0
            own = (np.polynomial.chebyshev.chebval if cheb else np.polynomial.legendre.legval)(x, one)
            ctx.same('orthogonal', float(np.sum(w * own)), fl(s['termIntegral']), 1e-10, dict(det, term=s['term']))
            e = np.array(fl(s['edges']))
            keep = e.copy()
            got = ctx.call('choose points', F.find_nodes, e, s['m'], kit.geo[1 if s['cfg']['sphere'] else 0])
            ctx.same('points', got, fl(s['points']), 1e-11, {'edges': e.tolist(), 'order': s['m'], 'sphere': s['cfg']['sphere']})
            ctx.same('edges', e, keep, 0.0, det)
            ctx.distinct.add(json.dumps([name, n, s['degree'], s['cfg']['n'], s['m']]))
        ctx.done_trace(None, {'rule': name, 'n': n, 'degree': s['degree']})
        if ctx.full():
            return
