"""P22: the solutions drawn next to boundary driven runs, against spec/references.qnt."""
import json
import warnings
from common import fl

OPAC = ['constant', 'linear', 'siewert1', 'siewert2', 'gaussian', 'fake_sedov']
OF = {'plain': 'constant', 'steady': 'gaussian', 'front': 'fake_sedov', 'siewert1': 'siewert1', 'siewert2': 'siewert2'}


def settings(kind, wall, t, t0, v0, times, ang):
    """input files of a boundary driven run"""
    a = {'problem_name': 'transport', 'tfinal': t, 'c_scaling': False, 'epsilon_scaling': False, 'epsilon': 1.0, 'sigma_t': 1.0, 'sigma_s': 0.0, 't0': t0,
         'N_spaces': [4], 'tnodes': 4, 'Ms': [1], 'N_runs': 1, 'rt': 1e-9, 'at': 1e-8, 'mxstp': 1.0, 'major': 'cells', 'radiative_transfer': {'none': True},
         'temperature_dependence': [0, 0, 0, 0], 'e_initial': 1e-9, 'weights': 'gauss_legendre', 'save_solution': False, 'particle_v': 'one', 'edge_v': 'one',
         'cv_const': 0.03, 'thick': False, 'integrator': 'BDF', 'geometry': {'slab': True, 'sphere': False}}
    sec = {'x0': [wall], 'source_strength': 1.0, 'source_type': [0] * 8, 'N_angles': [ang], 'move_type': [1, 0, 0, 0], 'benchmarking': False, 'bench_type': 'full'}
    mesh = {'find_edges_tol': 1.0, 'sqrt_t_move_factor': 1.0, 'save_wave_loc': False, 'estimate_wavespeed': False, 'find_wave_loc': False, 'choose_xs': False,
            'xs_list': [0.0], 'pad': 1.0, 'leader_pad': 1.0, 'xs_quad': 5, 'eval_times': times is not None, 'eval_array': times or [1.0], 'boundary_on': [1, 0],
            'boundary_source': True, 'boundary_source_strength': 1.0, 'finite': True, 'domain_width': 2 * wall, 'Msigma': 2,
            'sigma_func': {k: k == OF[kind] for k in OPAC}, 'fake_sedov_v0': v0}
    return {'all': a, 'boundary_source': sec}, mesh


def run(ctx):
    jobs = ctx.quint('references', ctx.pick(20, 400), ctx.pick(14, 30), jobs=ctx.pick(4, 8))

    def imp():
        import numpy as np
        from moving_mesh_transport import solver
        from moving_mesh_transport.solver_functions import run_functions
        return np, solver, run_functions
    np, solver, rf = ctx.call('import the commands', imp)
    warnings.simplefilter('ignore')
    drawn = []
    rf.plt.plot = lambda *a, **k: drawn.append(a)
    for n in ('show', 'legend', 'figure', 'xlabel', 'ylabel', 'xlim', 'ion'):
        setattr(rf.plt, n, lambda *a, **k: None)
    solver.plot_edges = lambda *a, **k: None

    def curves(n):
        """the curves drawn with n points, the last one first"""
        fit = [(np.array(a[0], dtype=float), np.array(a[1], dtype=float)) for a in drawn if len(a) > 1 and np.shape(a[0]) == np.shape(a[1]) == (n,)]
        return fit[::-1]

    def has(key, x, y, tol, where):
        """one of the drawn curves is this one"""
        near = [g for g in curves(len(x)) if np.allclose(g[0], x, rtol=tol, atol=tol * 1e-3) and np.allclose(g[1], y, rtol=tol, atol=tol * 1e-6)]
        ctx.true(key, len(near) > 0, dict(where, x=list(x), want=list(y), drawn=[[list(v) for v in g] for g in curves(len(x))]))

    for tr in ctx.traces(jobs):
        for s in tr:
            m, t, mu, w, xs = s['med'], fl(s['t']), fl(s['mu']), fl(s['w']), fl(s['xs'])
            kind, wall, out, hist = m['kind'], fl(m['wall']), np.array(fl(s['leaving'])), np.array(fl(s['history']))
            where = {'state': {k: s[k] for k in ('med', 't', 'mu', 'xs')}}
            del drawn[:]
            r = ctx.call('make the command', rf.run)
            ends = None
            if kind == 'front':
                # the ends of the grid follow from any two points of the curve
                n, i, j = s['curve'], int(np.argmin(s['at'])), int(np.argmax(s['at']))
                if s['at'][j] > s['at'][i]:
                    h = (xs[j] - xs[i]) / (s['at'][j] - s['at'][i])
                    ends = (xs[i] - h * s['at'][i], xs[i] - h * s['at'][i] + h * (n - 1))
            if kind in OF and (kind != 'front' or ends):
                # the whole command, with a solver that returns what the trace says
                order = np.argsort(xs)
                grid = np.linspace(ends[0], ends[1], 7) if ends else np.array(xs)[order]
                times = [0.25 * t, 0.5 * t, t] if kind == 'front' else None
                lead = () if times is None else (3,)
                fill = lambda *shape: np.zeros(lead + shape)

                def answer(*a, **k):
                    z = np.zeros(1)
                    return (grid + fill(len(grid)), 0.25 + fill(len(grid)), fill(len(mu), len(grid)), out + fill(len(mu), 2) if lead == () else fill(len(mu), 2),
                            hist if lead else np.zeros(2), fill(len(grid)), 0.5, np.zeros((len(mu), 4, 2)), np.array(mu), np.array(w), np.linspace(-wall, wall, 5),
                            np.zeros((1, 1, 1)), z, z, z, z, z, z, np.array(mu))
                solver.solve = answer
                r.parameters, r.mesh_parameters = settings(kind, wall, t, fl(m['t0']), fl(m['v0']), times, len(mu))
                ctx.call('boundary driven run', r.boundary_source, False, True)
                if kind in ('steady', 'plain'):
                    has(kind, grid, np.array(fl(s['phi']))[order], 1e-9, where)
                elif kind == 'front':
                    got = curves(n)
                    if ctx.true('front', len(got) > 0, where):
                        x, y = got[0]
                        ok = np.array(s['ok'])
                        ctx.same('front', x[s['at']], xs, 1e-10, where)
                        ctx.same('front', np.where(ok, y[s['at']], 0), np.where(ok, fl(s['phi']), 0), 1e-8, where)
                    has('left history', times, hist[:, 0], 1e-12, where)
                    has('right history', times, hist[:, 1], 1e-12, where)
                else:
                    # five digits are given
                    e = {k: np.array(fl(v)) for k, v in s['exits'].items()}
                    has('tabulated left', e['at'], e['left'], 6e-5, where)
                    has('tabulated right', e['at'], e['right'], 6e-5, where)
                    has('left exits', -np.array(mu), out[:, 0], 1e-12, where)
                    has('right exits', np.array(mu), out[:, 1], 1e-12, where)
            if kind in ('bell', 'front'):
                r.tfinal, r.v0, r.t0_source, r.x0 = t, fl(m['v0']), fl(m['t0']), [wall]
                r.mus, r.ws = np.array(mu), np.array(w)
                name = 'moving_gaussian_shock' if kind == 'bell' else 'fake_sedov'
                ask = (lambda u, x: r.moving_gaussian_shock(t, x, u)) if kind == 'bell' else (lambda u, x: r.fake_sedov(u, t, x))
                for a, u in enumerate(mu):
                    for k, x in enumerate(xs):
                        if s['ok'][k] and (kind == 'front' or u > 0):
                            got = ctx.call('reference ' + name, ask, np.float64(u), x)
                            ctx.same(name, got, fl(s['psi'][a][k]), 1e-8, dict(where, x=x, u=u))
            ctx.distinct.add(json.dumps([m, s['t'], len(mu)]))
        ctx.done_trace(None, {'med': tr[-1]['med'], 't': tr[-1]['t']})
        if ctx.full():
            return
