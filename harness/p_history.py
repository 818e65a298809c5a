"""P07: the derivative under arbitrary histories, against spec/history.qnt."""
import json
from common import fl
from kit import Kit, Evolution, from_grid
import tables


def params(kit, c, q):
    return from_grid(kit, c, M=q['m'], N_ang=q['ang'], sigma_t=fl(q['sigT']), sigma_s=fl(q['sigS']), opacity=q['opac'],
                     Msigma=q['ms'], nq=q['nq'], nt=10, uncollided=int(q['analytic']), source_strength=fl(q['strength']),
                     sigma=fl(q['width']), weights='gauss_lobatto' if q['lob'] else 'gauss_legendre',
                     boundary_on=[int(q['left']), int(q['right'])], boundary_source=int(c['lay'] == 'boundary'),
                     boundary_source_strength=fl(q['inStrength']))


def run(ctx):
    jobs = ctx.quint('history', ctx.pick(50, 700), ctx.pick(24, 50), jobs=ctx.pick(4, 8))
    kit = Kit(ctx)
    np = kit.np
    tabs = tables.read(ctx, 9)
    for tr in ctx.traces(jobs):
        c, q = tr[0]['cfg'], tr[0]['setting']
        p = params(kit, c, q)
        use = tabs if c['sphere'] else None
        shared = Evolution(kit, p, use)
        rng = np.random.default_rng(q['seed'])
        shape = (q['ang'], c['n'], q['m'] + 1)
        # nothing may depend on how bright the radiation is
        size = [1.0, 1.0, 1e-8, 1e4][int(rng.integers(4))]
        V1, V2 = size * rng.uniform(-1, 1, shape), size * rng.uniform(-1, 1, shape)
        pure = {}
        for s in tr:
            t = fl(s['answer']['t'])
            a, b = fl(s['ca']), fl(s['cb'])
            got = shared(t, a * V1 + b * V2)
            where = {'state': {k: s[k] for k in ('cfg', 'setting', 'answer', 'silent')}, 'step': s}
            ctx.true('argument', not shared.touched, where)
            if t not in pure:
                pure[t] = [Evolution(kit, p, use)(t, v) for v in (V1 * 0, V1, V2)]
            z, f1, f2 = pure[t]
            k0, k1, k2 = (fl(s['answer'][x]) for x in ('zero', 'one', 'two'))
            want = k0 * z + k1 * f1 + k2 * f2
            ctx.same('answer', got, want, 1e-9, where, scale=float(np.max(np.abs([z, f1, f2]))) + min(1.0, size))
            if s['silent']:
                ctx.true('silent', not np.any(z), where)
            if s['answer']['one'] == 0 and s['answer']['two'] == 0 and s['silent']:
                ctx.true('silent', not np.any(got), where)
        # exactly the same question, many times: nothing may accumulate
        if ctx.validated % 40 == 0:
            first = shared(t, V1)
            alike = [np.array_equal(first, shared(t, V1)) for _ in range(2100)]
            ctx.true('repetition', all(alike), {'cfg': c, 'setting': q, 'call': len(alike) if all(alike) else alike.index(False)})
        # a thousand questions hardly apart: changes too small to see one by one add up
        if c['moving'] and (q['opac'] != 'constant' or ctx.validated % 10 == 5):
            t0 = fl(c['tf']) * 0.31
            drift = Evolution(kit, p, use)
            for k in range(30):
                drift(t0 * (1 - 2.0 ** -(k + 1)), V1)
            for k in range(1001):
                t = t0 * (1 + k * 1e-9)
                last = drift(t, V1)
            ctx.same('drift', last, Evolution(kit, p, use)(t, V1), 1e-9, {'cfg': c, 'setting': q, 't': t}, scale=float(np.max(np.abs(last))) + min(1.0, size))
        ctx.distinct.add(json.dumps([c, q], sort_keys=True))
        ctx.done_trace(None, {'cfg': c, 'setting': q, 'log': tr[-1]['log'][:6]})
        if ctx.full():
            return
