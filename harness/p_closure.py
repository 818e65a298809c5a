"""P21: material emission, against spec/closure.qnt."""
import json
from common import fl, D
from kit import Kit


def run(ctx):
    jobs = ctx.quint('closure', ctx.pick(40, 1500), ctx.pick(8, 12), jobs=ctx.pick(4, 8))
    kit = Kit(ctx)
    np = kit.np
    kit.thermal['on'] = D(none=0)

    def imp():
        from moving_mesh_transport.solver_classes.radiative_transfer import T_function
        return T_function
    T = ctx.call('import the closure', imp)
    for tr in ctx.traces(jobs):
        l = tr[0]['law']
        p = kit.params(M=l['m'], nq=l['nq'], cv0=fl(l['cv']) if l['kind'] == 'constant' else 0.0,
                       thermal='none' if l['kind'] == 'none' else 'on',
                       temp_function=[0, 0] if l['kind'] == 'none' else [1, 0] if l['kind'] == 'linear' else [0, 1])
        obj = ctx.call('make the closure', T, kit.build(p))
        asked = []
        for s in tr:
            e = np.array(fl(s['energy']))
            keep = e.copy()
            a, b = fl(s['cell']['a']), fl(s['cell']['b'])
            asked.append([a, b])
            ctx.call('evaluate the emission', obj.make_H, a, b, e)
            det = {'law': l, 'cells': asked, 'energy': keep.tolist()}
            want = np.array(fl(s['emission']))
            ctx.same('emission', np.array(obj.H), want, 1e-9, det, scale=1.0 + float(np.max(np.abs(want))))
            ctx.same('argument', e, keep, 0.0, det)
            ctx.distinct.add(json.dumps([l, s['cell']], sort_keys=True))
        ctx.done_trace(None, {'law': l, 'cells': asked})
        if ctx.full():
            return
