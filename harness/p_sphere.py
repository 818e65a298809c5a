"""P06: the spherical evolution equation, against spec/sphere.qnt."""
import json
from common import fl
from kit import Kit, Evolution, from_grid
import tables


def run(ctx):
    jobs = ctx.quint('sphere', ctx.pick(12, 400), ctx.pick(9, 14), jobs=ctx.pick(5, 8))
    kit = Kit(ctx)
    np = kit.np
    tabs = tables.read(ctx, 9)
    objs, last = None, None
    for tr in ctx.traces(jobs):
        for s in tr:
            q = s['prob']
            key = json.dumps([s['cfg'], q], sort_keys=True)
            if key != last:
                p = from_grid(kit, s['cfg'], M=q['m'], N_ang=q['ang'], sigma_t=fl(q['sigT']), sigma_s=fl(q['sigS']),
                              nq=q['nq'], weights='gauss_lobatto' if q['lob'] else 'gauss_legendre')
                objs, last = Evolution(kit, p, tabs), key
            V = np.array(fl(s['V']))
            got = objs(fl(s['t']), V)
            ms = np.array(fl(s['masses']))
            ctx.true('argument', not objs.touched, {'state': s})
            load = np.einsum('kij,lkj->lki', ms, got)
            # relative to the size of the terms, which grow like 1/width
            h = np.diff(np.array(fl(s['edges'])))
            ctx.same('derivative', load, fl(s['load']), 1e-8, {'state': s}, scale=max(float(np.max(np.abs(V))), 1e-15) * (1.0 + float(np.max(np.abs(fl(s['speeds']))))))
            ctx.distinct.add(key + str(s['t']))
        ctx.done_trace(None, {'cfg': tr[-1]['cfg'], 'prob': tr[-1]['prob'], 't': tr[-1]['t']})
        if ctx.full():
            return
