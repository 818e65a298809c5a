"""P09: collisions, against spec/collide.qnt."""
import json
from common import fl
from kit import Kit


def run(ctx):
    jobs = ctx.quint('collide', ctx.pick(20, 500), ctx.pick(7, 16), jobs=ctx.pick(5, 8))
    kit = Kit(ctx)
    np = kit.np

    def imp():
        from moving_mesh_transport.solver_classes.opacity import sigma_integrator
        from moving_mesh_transport.solver_classes.phi_class import scalar_flux
        return sigma_integrator, scalar_flux
    SI, SF = ctx.call('import the opacity', imp)
    for tr in ctx.traces(jobs):
        q = tr[0]['medium']
        p = kit.params(N_space=q['n'], M=q['m'], Msigma=q['ms'], nq=q['nq'], N_ang=q['ang'], sigma_t=fl(q['sigT']), sigma_s=fl(q['sigS']),
                       opacity=q['opac'], fake_sedov_v0=fl(q['v0']), source_type=[0, 0, 0, 1, 0, 0],
                       weights='gauss_lobatto' if q['lob'] else 'gauss_legendre')
        b = kit.build(p)
        si = ctx.call('make the opacity', SI, b)
        sf = ctx.call('make the scalar flux', SF, b)
        ctx.call('hand over the opacity integrals', sf.load_AAA, si.AAA)
        for i, s in enumerate(tr):
            g, V = np.array(fl(s['edges'])), np.array(fl(s['V']))
            keep = g.copy()
            where = {'state': s}
            if i % 3 == 2 and q['opac'] != 'constant':
                # a grid that gets there in steps too small to matter one by one
                for k in range(1000, 0, -1):
                    ctx.call('opacity moments', si.sigma_moments, g - k * 2e-9, fl(s['t']))
            ctx.call('opacity moments', si.sigma_moments, g, fl(s['t']))
            ctx.call('hand over the opacity', sf.get_coeffs, si)
            size = min(1.0, max(float(np.max(np.abs(V))), 1e-15))
            for k in s['order']:
                u = np.ascontiguousarray(V[:, k, :])
                if q['sigS'] != 0:
                    ctx.call('scattering', sf.make_P, u, k, float(g[k]), float(g[k + 1]))
                    ctx.same('scattering', np.array(sf.scalar_flux_term), fl(s['scattered'][k]), 1e-9, where, scale=size)
                for l in range(q['ang']):
                    ctx.call('absorption', si.make_vectors, g, u[l], k)
                    ctx.same('absorption', np.array(si.VV), fl(s['absorbed'][l][k]), 1e-9, where, scale=size)
                ctx.true('argument', np.array_equal(u, V[:, k, :]) and np.array_equal(g, keep), where)
            ctx.distinct.add(json.dumps([q, s['t'], s['edges']], sort_keys=True))
        ctx.done_trace(None, {'medium': q, 'edges': tr[-1]['edges'], 't': tr[-1]['t']})
        if ctx.full():
            return
