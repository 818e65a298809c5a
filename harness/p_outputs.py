"""P12: what is reported, against spec/outputs.qnt."""
import json
from common import fl
from kit import Kit, ST


def either(ctx, key, got, a, b, ok, where, tol=1e-10, scale=1.0):
    """each point agrees with one of its two candidate cells (in every row at once)"""
    import numpy as np
    g, a, b = (np.atleast_2d(np.asarray(x, dtype=float)) for x in (got, a, b))
    if g.shape != a.shape:
        ctx.true(key, False, dict(where, got_shape=list(g.shape)))
        return
    da = np.max(np.abs(g - a) / (scale + np.abs(a)), axis=0)
    db = np.max(np.abs(g - b) / (scale + np.abs(b)), axis=0)
    good = ((da <= tol) | (db <= tol)) | ~np.array(ok)
    ctx.true(key, bool(np.all(good)), dict(where, got=g.tolist(), want=a.tolist(), at=[int(i) for i in np.where(~good)[0]]))


def run(ctx):
    jobs = ctx.quint('outputs', ctx.pick(20, 600), ctx.pick(8, 16), jobs=ctx.pick(5, 8))
    kit = Kit(ctx)
    np = kit.np

    def imp():
        from moving_mesh_transport.solver_classes.make_phi import make_output
        from moving_mesh_transport.solver_classes.uncollided_solutions import uncollided_solution
        return make_output, uncollided_solution
    MO, US = ctx.call('import the output', imp)
    for tr in ctx.traces(jobs):
        for s in tr:
            v = s['view']
            f = v['free']
            mu, w = np.array(fl(v['mu'])), np.array(fl(v['w']))
            p = kit.params(N_ang=v['ang'], M=v['m'], x0=fl(f['x0']), t0=fl(f['t0']), sigma=fl(f['sigma']), source_strength=fl(f['strength']),
                           source_type=ST[f['kind']], uncollided=int(v['analytic']), sphere=int(v['sphere']), weights=(mu, w))
            us = ctx.call('make the uncollided solution', US, kit.build(p))
            xs, g, u = np.array(fl(s['xs'])), np.array(fl(s['edges'])), np.array(fl(s['U']))
            # doubles next to an edge must stay on their side of it
            keep = xs.copy(), g.copy(), u.copy()
            out = ctx.call('make the output', MO, fl(s['t']), v['ang'], w, xs, u, v['m'], g, int(v['analytic']), kit.geo[int(v['sphere'])])
            where = {'state': {k: s[k] for k in ('view', 't', 'edges', 'U', 'xs')}}
            ok = np.array(s['ok'])
            phi = np.array(ctx.call('scalar flux', out.make_phi, us))
            # relative to what there is
            size = min(1.0, max(float(np.max(np.abs(u))), 1e-15))
            whole = 1.0 if v['analytic'] else size
            psi = np.array(out.psi_out)
            either(ctx, 'angular flux', psi, fl(s['psiA']), fl(s['psiB']), ok | True, where, scale=size)
            either(ctx, 'scalar flux', phi, fl(s['phiA']), fl(s['phiB']), ok, where, 1e-9, whole)
            # the scalar flux of a point comes from the directions reported for that point
            if not v['analytic']:
                ctx.same('angular sum', phi, (psi * w[:, None]).sum(axis=0), 1e-11, where, scale=size)
            ex, ephi = ctx.call('exit distribution', out.get_exit_dist, us)
            ctx.same('exit distribution', np.array(ex), np.array(fl(s['exits'])).T, 1e-10, where, scale=size)
            end = not v['analytic'] or f['kind'] != 'plane'
            if end:
                ctx.same('exit flux', np.array(ephi), fl(s['exitPhi']), 1e-9, where, scale=whole)
            if v['energy']:
                e = np.array(ctx.call('energy', out.make_e))
                either(ctx, 'energy', e, fl(s['energyA']), fl(s['energyB']), ok | True, where, scale=size)
                if s['slopeA']:
                    either(ctx, 'energy slope', np.array(out.dx_e), fl(s['slopeA']), fl(s['slopeB']), ok | True, where, 1e-8, size)
            # a long list in any order gives every point the same values
            if not v['analytic']:
                many = np.random.default_rng(len(ctx.distinct)).permutation(np.tile(np.arange(len(xs)), 15))
                longer = ctx.call('make the output', MO, fl(s['t']), v['ang'], w, xs[many], u, v['m'], g, 0, kit.geo[int(v['sphere'])])
                lphi = np.array(ctx.call('scalar flux', longer.make_phi, us))
                ctx.same('long list', np.array(longer.psi_out), psi[:, many], 1e-12, where, scale=size)
                ctx.same('long list', lphi, phi[many], 1e-12, where, scale=size)
            ctx.true('argument', all(np.array_equal(a, b) for a, b in zip(keep, (xs, g, u))), where)
            ctx.distinct.add(json.dumps([v['sphere'], v['m'], v['ang'], v['analytic'], s['edges'], s['xs'][:2]]))
        ctx.done_trace(None, {'edges': tr[-1]['edges'], 'xs': tr[-1]['xs']})
        if ctx.full():
            return
