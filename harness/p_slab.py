"""P05: the slab evolution equation, against spec/slab.qnt."""
import json
from common import fl
from kit import Kit, Evolution, from_prob


def run(ctx):
    jobs = ctx.quint('slab', ctx.pick(14, 400), ctx.pick(9, 14), jobs=ctx.pick(5, 8))
    kit = Kit(ctx)
    np = kit.np
    objs, last = None, None
    for tr in ctx.traces(jobs):
        for s in tr:
            key = json.dumps([s['cfg'], s['prob']], sort_keys=True)
            if key != last:
                objs, last = Evolution(kit, from_prob(kit, s['cfg'], s['prob'])), key
            V = np.array(fl(s['V']))
            got = objs(fl(s['t']), V)
            D = np.array(fl(s['D']))
            # relative to what there is: faint radiation is as exact as bright
            size = max(min(1.0, float(np.max(np.abs(D)))), min(1.0, float(np.max(np.abs(V)))), 1e-15)
            ctx.same('derivative', got, D, 1e-8, {'state': s}, scale=size)
            ctx.true('argument', not objs.touched, {'state': s})
            # particle balance of what the code returned
            g, v = np.array(fl(s['edges'])), np.array(fl(s['speeds']))
            w = np.array(fl(s['w']))
            h, dh = np.diff(g), np.diff(v)
            rate = float(np.sum(w[:, None] * (np.sqrt(h) * got[:, :, 0] + dh / (2 * np.sqrt(h)) * V[:, :, 0])))
            if s['prob']['opac'] == 'constant':
                ctx.true('balance', abs(rate - fl(s['net'])) <= 1e-8 * (max(size, float(np.max(np.abs(V)))) + abs(rate)), {'state': s, 'rate': rate})
            ctx.distinct.add(key + str(s['t']))
        ctx.done_trace(None, {'cfg': tr[-1]['cfg'], 'prob': tr[-1]['prob'], 't': tr[-1]['t']})
        if ctx.full():
            return
