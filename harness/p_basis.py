"""P20: basis functions, against spec/basis.qnt."""
import json
from common import fl


def run(ctx):
    jobs = ctx.quint('basis', ctx.pick(20, 1200), ctx.pick(6, 12), jobs=ctx.pick(5, 8))
    import numpy as np

    def imp():
        from moving_mesh_transport.solver_classes import functions
        return functions
    F = ctx.call('import the basis', imp)
    for tr in ctx.traces(jobs):
        for s in tr:
            a, b, x = fl(s['cell']['a']), fl(s['cell']['b']), np.array(fl(s['at']))
            det = {'cell': [a, b], 'points': x.tolist()}
            keep = x.copy()
            ins = np.array(s['inside'])
            for n in range(s['order'] + 1):
                d = dict(det, n=n)
                want = np.array(fl(s['slab'][n]))
                big = 1.0 + float(np.max(np.abs(want)))
                got = ctx.call('slab basis', F.normPn, n, x, a, b)
                ctx.same('slab', got, want, 1e-10, d, scale=big)
                one = [ctx.call('slab basis at a point', F.normPn_scalar, n, float(v), a, b) for v in x]
                ctx.same('slab point', one, want, 1e-10, d, scale=big)
                y = x / 4
                ctx.same('legendre', ctx.call('Legendre', F.Pn, n, y, a, b), fl(s['plain'][n]), 1e-10, d)
                ctx.same('legendre point', [ctx.call('Legendre at a point', F.Pn_scalar, n, float(v), a, b) for v in y], fl(s['plain'][n]), 1e-10, d)
                want = np.array(fl(s['ball'][n]))
                ctx.same('ball', ctx.call('spherical basis', F.normTn, n, x, a, b), want, 1e-10, d, scale=1.0 + float(np.max(np.abs(want))))
                ctx.same('chebyshev', [ctx.call('Chebyshev', F.eval_Tn, n, float(v)) for v in y], fl(s['cheby'][n]), 1e-9, d)
                if n <= 11:
                    want = np.array(fl(s['slope'][n]))
                    ctx.same('slope', ctx.call('slope of the slab basis', F.dx_normPn, n, x, a, b), want, 1e-9, d, scale=1.0 + float(np.max(np.abs(want))))
            ctx.same('weight', ctx.call('Chebyshev weight', F.weight_func_Tn, x[ins], a, b), np.array(fl(s['weight']))[ins], 1e-9, det)
            ctx.same('points', x, keep, 0.0, det)
            ctx.distinct.add(json.dumps([s['order'], s['cell']], sort_keys=True))
        ctx.done_trace(None, {'cell': fl([s['cell']['a'], s['cell']['b']]), 'order': s['order']})
        if ctx.full():
            return
