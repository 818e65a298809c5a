"""P13: the initial coefficients, against spec/start.qnt."""
import json
from common import fl, D
from kit import Kit, from_grid


def run(ctx):
    jobs = ctx.quint('start', ctx.pick(90, 2000), ctx.pick(5, 9), jobs=ctx.pick(5, 8))
    kit = Kit(ctx)
    np = kit.np
    kit.thermal['on'] = D(none=0, transport=1)
    for tr in ctx.traces(jobs):
        for s in tr:
            c, q = s['cfg'], s['init0']
            p = from_grid(kit, c, M=q['m'], N_ang=q['ang'], nq=q['nq'], sigma=fl(q['sigma']), source_strength=fl(q['strength']),
                          uncollided=int(q['analytic']), xs_rule='chebyshev' if c['sphere'] else None, thermal='on' if q['energy'] else 'none',
                          e_initial=fl(q['e0']), weights='gauss_lobatto' if q['lob'] else 'gauss_legendre')
            if q['beamed']:
                p['source_type'] = [0, 0, 0, 1, 0, 1]
            b = kit.build(p)
            ctx.call('make the initial condition', b.make_IC)
            got, want = np.array(b.IC), np.array(fl(s['coefs']))
            where = {'state': s}
            ok = np.array(s['ok'])[None, :, None]
            if got.shape != want.shape:
                ctx.same('initial', got, want, 1e-9, where)
                continue
            h = np.sqrt(np.diff(np.array(fl(s['edges']))))[None, :, None]
            big = float(np.max(np.abs(want))) + 1e-3
            ctx.same('initial', np.where(ok, got, 0), np.where(ok, want, 0), 1e-9, where, scale=big)
            if s['numberKnown'] and np.all(ok):
                w = np.array(b.ws)
                n = 2 * float(np.sum(w * (h * got[:q['ang']])[:, :, 0].sum(axis=1)))
                ctx.true('number', abs(n - fl(s['number'])) <= (fl(s['tight']) + 1e-8) * (1 + abs(n)), dict(where, number=n))
            ctx.distinct.add(json.dumps([c, q], sort_keys=True))
        ctx.done_trace(None, {'cfg': tr[-1]['cfg'], 'init': tr[-1]['init0']})
        if ctx.full():
            return
