"""P10: what sources emit, against spec/sources.qnt."""
import json
from common import fl
from kit import Kit, Evolution, from_grid
import tables


def run(ctx):
    jobs = ctx.quint('sources', ctx.pick(16, 400), ctx.pick(8, 16), jobs=ctx.pick(5, 8))
    kit = Kit(ctx)
    np = kit.np
    tabs = tables.read(ctx, 9)
    objs, last = None, None
    for tr in ctx.traces(jobs):
        for s in tr:
            c, q = s['cfg'], s['prob']
            f = q['free']
            key = json.dumps([c, q], sort_keys=True)
            if key != last:
                mu, w = np.array(fl(f['mu'])), np.array(fl(f['w']))
                p = from_grid(kit, c, M=q['m'], N_ang=q['ang'], sigma_t=max(1.0, fl(q['sigS'])), sigma_s=fl(q['sigS']), nq=q['nq'],
                              nt=48, xs_rule='chebyshev' if c['sphere'] else None, uncollided=int(q['analytic']),
                              source_strength=fl(f['strength']), sigma=fl(f['sigma']), weights=(mu, w),
                              boundary_on=[1, 0], boundary_source=int(q['kind'] == 'boundary'))
                objs, last = Evolution(kit, p, tabs if c['sphere'] else None), key
            t, g = fl(s['t']), np.array(fl(s['edges']))
            n, m = len(g) - 1, q['m']
            where = {'state': s}
            ok = np.array(s['ok'])
            tol = 1e-6 if q['kind'] == 'gaussSrc' and q['analytic'] else 1e-9
            # in a sphere the equations apply the scattering cross section: judged by the derivative only
            for l, mu in enumerate([] if c['sphere'] else fl(s['used'])):
                got = np.zeros((n, m + 1))
                for k in range(n):
                    if q['kind'] == 'mms':
                        ctx.call('make the source', objs.source.make_source_not_isotropic, t, mu, g[k], g[k + 1])
                    else:
                        ctx.call('make the source', objs.source.make_source, t, g[k], g[k + 1], objs.uncollided)
                    got[k] = objs.source.S
                want = np.array(fl(s['out'][l]))
                ctx.same('source', np.where(ok[:, None], got, 0), np.where(ok[:, None], want, 0), tol, where, scale=fl(f['strength']))
                if s['totalKnown'] and ok.all():
                    tot = float(np.sum(np.sqrt(np.diff(g)) * got[:, 0]))
                    ctx.true('total', abs(tot - fl(s['total'])) <= (fl(s['tight']) + tol) * (1 + abs(tot)), dict(where, total_got=tot))
            if q['kind'] != 'mms':
                # an empty grid changes by emission alone
                d = objs(t, np.zeros((q['ang'], n, m + 1)))
                load = np.array(fl(s['load']))
                if c['sphere']:
                    # mass matrix of each shell by an exact rule
                    z, w = np.polynomial.legendre.leggauss(m + 4)
                    T = np.array([np.cos(j * np.arccos(z)) * (1 if j == 0 else np.sqrt(2)) for j in range(m + 1)])
                    for k in range(n):
                        r = 0.5 * (g[k + 1] - g[k]) * z + 0.5 * (g[k] + g[k + 1])
                        ms = (T * (w * r * r)) @ T.T / (2 * np.pi)
                        for a in range(q['ang']):
                            d[a, k] = ms @ d[a, k]
                for a in range(q['ang']):
                    ctx.same('emission', np.where(ok[:, None], d[a], 0), np.where(ok[:, None], load, 0), tol * 10, where, scale=fl(f['strength']))
            ctx.distinct.add(key + str(s['t']))
        ctx.done_trace(None, {'cfg': tr[-1]['cfg'], 'kind': tr[-1]['prob']['kind'], 't': tr[-1]['t']})
        if ctx.full():
            return
