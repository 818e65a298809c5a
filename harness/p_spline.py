"""P19: splines, tables and the linear solver, against spec/spline.qnt."""
import json
from common import fl


def run(ctx):
    jobs = ctx.quint('spline', ctx.pick(25, 800), ctx.pick(9, 12), jobs=ctx.pick(4, 8))
    import numpy as np

    def imp():
        import matplotlib
        matplotlib.use('Agg')
        from moving_mesh_transport.solver_classes import cubic_spline, mesh_functions
        return cubic_spline, mesh_functions
    cs, mf = ctx.call('import the interpolation', imp)
    for tr in ctx.traces(jobs):
        for s in tr:
            k = s['kind']
            if k == 'spline':
                x, y, p = (np.array(fl(s[q])) for q in ('xs', 'ys', 'at'))
                det = {'x': x.tolist(), 'y': y.tolist(), 'at': p.tolist()}
                kx, ky = x.copy(), y.copy()
                o = ctx.call('make a spline', cs.cubic_spline, x, y)
                got = ctx.call('evaluate a spline', o.eval_spline, p)
                ctx.same('spline', got, fl(s['vals']), 1e-7, det, scale=10.0 + float(np.max(np.abs(fl(s['vals'])))) + 0.1 * float(np.max(np.abs(fl(s['curved'])))))
                # point by point, in any order, the same
                rev = ctx.call('evaluate a spline', o.eval_spline, p[::-1].copy())
                ctx.same('order', rev[::-1], got, 1e-12, det, scale=1.0 + float(np.max(np.abs(got))))
                h = 1e-4
                inner = (p > x[0] + h) & (p < x[-1] - h)
                if inner.any():
                    q = p[inner]
                    d = (ctx.call('evaluate a spline', o.eval_spline, q + h) - ctx.call('evaluate a spline', o.eval_spline, q - h)) / (2 * h)
                    big = float(np.max(np.abs(fl(s['curved'])))) + 1.0
                    ctx.same('slope', d, np.array(fl(s['slopes']))[inner], 1e-4, det, scale=big + float(np.max(np.abs(d))))
                ctx.true('data', bool(np.all(x == kx) and np.all(y == ky)), det)
            elif k == 'table':
                x, y, p = (np.array(fl(s[q])) for q in ('xs', 'ys', 'at'))
                for i, v in enumerate(p):
                    got = ctx.call('read a table', mf._interp1d, np.array([v]), x, y, np.zeros(1))
                    ctx.same('table', got[0], fl(s['vals'][i]), 1e-9, {'x': x.tolist(), 'y': y.tolist(), 'at': v})
            elif k == 'system':
                a, b = np.array(s['matrix'], dtype=float), np.array(s['rhs'], dtype=float)
                ka, kb = a.copy(), b.copy()
                det = {'matrix': s['matrix'], 'rhs': s['rhs']}
                ctx.same('solution', ctx.call('solve a system', cs.GaussElim, a, b), s['answer'], 1e-9, det)
                ctx.true('system kept', bool(np.all(a == ka) and np.all(b == kb)), det)
                n = len(b)
                up = np.triu(a) + 40 * np.eye(n)
                sol = np.zeros(n)
                ctx.call('back substitution', cs.BackSub, np.hstack([up, (up @ np.array(s['answer'], dtype=float))[:, None]]), sol)
                ctx.same('back substitution', sol, s['answer'], 1e-9, det)
            else:
                n = len(s['matrix'])
                m = np.array([[100.0 * i + j for j in range(n)] for i in range(n)])
                for i, j in s['moves']:
                    ctx.call('swap rows', cs.swap_rows, m, i, j)
                ctx.same('swap', m, s['matrix'], 0.0, {'moves': s['moves']})
            ctx.distinct.add(json.dumps([k, s['xs'], s['matrix']]))
        ctx.done_trace(None, {'kind': tr[-1]['kind'], 'xs': fl(tr[-1]['xs'])})
        if ctx.full():
            return
