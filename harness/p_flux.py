"""P04: exchange across cell faces, against spec/flux.qnt."""
import json
from common import fl
from kit import Kit


def run(ctx):
    jobs = ctx.quint('flux', ctx.pick(12, 200), ctx.pick(16, 24), jobs=ctx.pick(6, 8))
    kit = Kit(ctx)
    np = kit.np

    def imp():
        from moving_mesh_transport.solver_classes.numerical_flux import LU_surf
        return LU_surf
    LU = ctx.call('import the flux', imp)
    meshes, objs = {}, {}
    for tr in ctx.traces(jobs):
        for s in tr:
            e, v = np.array(fl(s['edges'])), np.array(fl(s['speeds']))
            n, m, ends, sph = len(e) - 1, s['m'], s['ends'], s['sphere']
            kind = ends['kind']
            p = kit.params(N_space=n, M=m, sphere=int(sph), nq=s['nq'], t0=fl(ends['t0']),
                           source_type=[0, 0, 0, 0, 1, 0] if kind == 'mms' else [0, 0, 0, 0, 0, 1],
                           uncollided=int(ends['analytic']), boundary_source=int(kind == 'source'),
                           boundary_on=[int(ends['left']), int(ends['right'])],
                           boundary_source_strength=fl(ends['strength']), sigma=0.5)
            key = json.dumps(p, sort_keys=True)
            if key not in objs:
                objs[key] = ctx.call('make the flux', LU, kit.build(p))
            if (n, sph) not in meshes:
                meshes[n, sph] = kit.mesh(kit.params(N_space=n, sphere=int(sph), source_type=[0, 0, 0, 1, 0, 0]))
            mesh, lu = meshes[n, sph], objs[key]
            mesh.edges, mesh.Dedges = e, v
            u = np.array(fl(s['u']))
            mir = np.array(fl(s['mirror']))
            got = []
            for k in range(n):
                ctx.call('flux', lu.make_LU, fl(s['t']), mesh, u, k, fl(s['mu']), mir)
                got.append(np.array(lu.LU))
            det = {'state': s}
            want = np.array(fl(s['lu']))
            # relative to what there is
            size = min(1.0, max(np.max(np.abs(want)), np.max(np.abs(u)), np.max(np.abs(mir)), 1e-15))
            ctx.same('exchange', got, want, 1e-9, det, scale=size)
            if s['isolated']:
                tot = sum(np.sqrt(e[k + 1] - e[k]) * got[k][0] for k in range(n))
                ctx.true('conservation', abs(tot) < 1e-9 * max(size, float(np.max(np.abs(u)))), dict(det, total=float(tot)))
            ctx.distinct.add((n, m, sph, kind, s['nq'], s['isolated'], s['mu']))
        ctx.done_trace(None, {'state': tr[-1]})
        if ctx.full():
            return
