"""P15: from a configuration to runs, against spec/config.qnt."""
import inspect
import json
import os
from common import fl, RepoFailure
from p_store import Store

OPAC = ['constant', 'linear', 'siewert1', 'siewert2', 'gaussian', 'fake_sedov']
# the arguments of solve, in order; the fields of a spec call they carry
ORDER = ['tf', 'n', 'ang', 'm', 'x0', 't0', 'sigT', 'sigS', 'tnodes', 'kinds', 'analytic', 'moving', 'move', 'thermal', 'temp', 'rt', 'at',
         'eInit', 'chosen', 'xs', 'weights', 'sigma', 'particleV', 'edgeV', 'cv', 'estimate', 'findWave', 'thick', 'mxstp', None, 'tol',
         'strength', 'factor', 'integrator', 'len', 'saveWave', 'pad', 'leader', 'nx', 'evaluate', 'times', 'on', 'enterStrength', 'entering',
         'opac', 'order', 'finite', 'width', 'v0', 'scaled', 'eps', 'sphere']
REAL = {'tf', 'x0', 't0', 'sigT', 'sigS', 'rt', 'at', 'eInit', 'xs', 'sigma', 'particleV', 'edgeV', 'cv', 'mxstp', 'tol', 'strength', 'factor', 'len',
        'pad', 'leader', 'times', 'enterStrength', 'width', 'v0', 'eps'}
TRUTH = {'analytic', 'moving', 'chosen', 'estimate', 'findWave', 'thick', 'saveWave', 'evaluate', 'entering', 'finite', 'scaled'}


class Recorder:
    """stands in for solve: notes its arguments, answers with made up results"""

    def __init__(self, np, real):
        self.np = np
        self.signature = inspect.signature(real)
        self.calls = []
        self.results = []

    def __call__(self, *a, **k):
        b = self.signature.bind(*a, **k)
        b.apply_defaults()
        v = list(b.arguments.values())
        self.calls.append(v)
        r = self.made(len(self.calls) - 1, v)
        self.results.append(r)
        return r['tuple']

    def made(self, i, v):
        np = self.np
        g = np.random.RandomState(i + 1)
        n, ang, m, times = int(v[1]), int(v[2]), int(v[3]), v[40] if v[39] else None
        nx = 5
        lead = () if times is None else (len(times),)
        xs = np.linspace(-1.0, 1.0, nx) * (1.0 + 0.001 * g.rand()) + np.zeros(lead + (nx,))
        if times is not None:
            xs = xs * (1.0 + 0.1 * np.arange(len(times)))[:, None]
        phi, e = g.rand(*(lead + (nx,))), g.rand(*(lead + (nx,)))
        psi = g.rand(*(lead + (ang, nx)))
        ed, ep = g.rand(*(lead + (ang, 2))), g.rand(*(lead + (2,)))
        # the material energy is one more row
        u = g.rand(ang + 1, n, m + 1)
        mus = np.linspace(-0.9, 0.9, ang) * (1 + 0.01 * g.rand())
        ws, edges = g.rand(ang), np.linspace(-1, 1, n + 1) * (1 + g.rand())
        z = np.zeros(1)
        keep = dict(xs=xs, phi=phi, psi=psi, exits=ed, exitPhi=ep, e=e, U=u, mus=mus, ws=ws, edges=edges)
        t = (xs.copy(), phi.copy(), psi.copy(), ed.copy(), ep.copy(), e.copy(), 0.5, u.copy(), mus.copy(), ws.copy(), edges.copy(),
             np.zeros((1, 1, 1)), z, z, z, z, z, z, mus.copy())
        return dict(keep, tuple=t)


def only(d):
    return [k for k in d if d[k]]


def document(s, odd):
    """the input files of a spec configuration"""
    o, c, g, flaw = s['opts'], s['sec'], s['grid'], s['flaw']
    text = lambda v: '%r' % v if odd else v
    longer = lambda l: l + l[:1]
    one = lambda name, names, extra=None: {q: (q == name or q == extra) for q in names}
    a = {'problem_name': o['problem'], 'tfinal': fl(o['tf']), 'c_scaling': False, 'epsilon_scaling': o['scaled'], 'epsilon': fl(o['eps']),
         'sigma_t': fl(o['sigT']), 'sigma_s': fl(o['sigS']), 't0': fl(o['t0']), 'N_spaces': longer(o['cells']) if flaw == 'cells' else o['cells'],
         'tnodes': o['tnodes'], 'Ms': longer(o['ms']) if flaw == 'orders' else o['ms'], 'N_runs': o['repeats'], 'rt': text(fl(o['rt'])),
         'at': text(fl(o['at'])), 'mxstp': fl(o['mxstp']), 'major': 'angles' if flaw == 'major' else o['major'],
         'radiative_transfer': {'none': True, 'linear': flaw == 'two couplings'}, 'temperature_dependence': o['temp'], 'e_initial': fl(o['eInit']),
         'weights': o['weights'], 'save_solution': o['saving'], 'particle_v': o['particleV'], 'edge_v': o['edgeV'], 'cv_const': fl(o['cv']),
         'estimate_wavespeed': not g['estimate'], 'thick': o['thick'], 'integrator': o['integrator'],
         'geometry': {'slab': not o['sphere'] or flaw == 'two geometries', 'sphere': o['sphere'] or flaw == 'two geometries'}}
    x0 = fl(c['x0'])
    sec = {'x0': [text(x) for x in x0] if c['kinds'][0] else x0, 'source_strength': fl(c['strength']), 'source_type': c['kinds'],
           'N_angles': longer(c['angles']) if flaw == 'angles' else c['angles'], 'move_type': c['move'], 'benchmarking': False, 'bench_type': 'full',
           'l': fl(c['len']), 'sigma': fl(c['sigma'])}
    other = dict(sec, x0=[7.5 for _ in x0], N_angles=[2 * q + 2 for q in c['angles']], source_strength=9.5, sigma=8.5)
    mesh = {'find_edges_tol': fl(g['tol']), 'sqrt_t_move_factor': fl(g['factor']), 'save_wave_loc': g['saveWave'], 'estimate_wavespeed': g['estimate'],
            'find_wave_loc': False, 'choose_xs': g['chosen'], 'xs_list': fl(g['xs']), 'pad': fl(g['pad']), 'leader_pad': fl(g['leader']),
            'xs_quad': g['nx'], 'eval_times': g['evaluate'], 'eval_array': fl(g['times']), 'boundary_on': g['on'], 'boundary_source': g['entering'],
            'boundary_source_strength': fl(g['enterStrength']), 'finite': g['finite'], 'domain_width': fl(g['width']), 'Msigma': g['order'],
            'sigma_func': one(g['opac'], OPAC, [q for q in OPAC if q != g['opac']][0] if flaw == 'two opacities' else None), 'fake_sedov_v0': fl(g['v0'])}
    if flaw == 'no speed':
        del a['edge_v']
    if flaw == 'no total':
        del a['sigma_t']
    out = {'all': a}
    for name in ('plane_IC', 'square_IC', 'square_source', 'gaussian_IC', 'gaussian_source', 'MMS', 'boundary_source', 'dipole', 'self_sim_plane'):
        if name != c['name']:
            out[name] = other
        elif flaw != 'source':
            out[name] = sec
    return out, mesh


class Session:
    """one process that reads configurations and carries out studies"""

    def __init__(self, ctx, k, np, mods, rec):
        self.ctx, self.np, self.mods, self.rec = ctx, np, mods, rec
        self.k, self.turn = k, 0

    def configure(self, s):
        import yaml
        ctx = self.ctx
        self.turn += 1
        tag = '%d_%d' % (self.k, self.turn)
        self.store = Store(ctx, self.np, None, self.mods['load_sol'], 100000 + self.k * 1000 + self.turn)
        os.makedirs('moving_mesh_transport/input_scripts')
        self.par, self.mesh = document(s, self.turn % 2 == 0)
        with open('moving_mesh_transport/input_scripts/study_%s.yaml' % tag, 'w') as f:
            yaml.safe_dump(self.par, f)
        with open('moving_mesh_transport/input_scripts/mesh_parameters.yaml', 'w') as f:
            yaml.safe_dump(self.mesh, f)
        # named commands, or the solver itself
        self.byName = (self.k + self.turn) % 3 != 0
        self.solver = None
        self.done = 0
        self.runner = ctx.call('make the command', self.mods['run'])
        ctx.call('read the input files', self.runner.load, 'study_' + tag)

    def act(self, s):
        name, w = s['sec']['name'], s['way']
        if self.byName:
            f = getattr(self.runner, name)
            return f if s['command'] == 'bare' else lambda: f(w['analytic'], w['moving'], s['command'] == 'all')
        def go():
            if self.solver is None:
                self.solver = self.mods['main_class'](name, self.runner.parameters, self.runner.mesh_parameters)
            for y in ([(1, 1), (0, 1), (1, 0), (0, 0)] if s['command'] == 'all' else [(w['analytic'], w['moving'])]):
                self.solver.main(bool(y[0]), bool(y[1]))
        return go

    def study(self, s, detail):
        ctx, np, rec = self.ctx, self.np, self.rec
        before = len(rec.calls)
        if not hasattr(self, 'base') or self.base is None:
            self.base = before
        if s['flaw']:
            try:
                self.act(s)()
                failed = False
            except Exception:
                failed = True
            ctx.true('rejected', failed and len(rec.calls) == before, dict(detail, made=len(rec.calls) - before))
            return
        ctx.call('study ' + s['sec']['name'], self.act(s))
        made = rec.calls[before:]
        want = s['calls']
        if not ctx.true('number of runs', len(made) == len(want), dict(detail, got=len(made), want=len(want))):
            return
        self.offset = before - s['first']
        for i, (got, exp) in enumerate(zip(made, want)):
            for p, f in enumerate(ORDER):
                if f is None or (f == 'xs' and not exp['chosen']) or (f == 'width' and not exp['finite']):
                    continue
                g, e = got[p], exp[f]
                if f in REAL:
                    ok = np.shape(g) == np.shape(e) and np.allclose(np.array(g, dtype=float), fl(e), rtol=1e-12, atol=0)
                    e = fl(e)
                elif f in TRUTH:
                    ok = bool(g) == e
                elif f in ('thermal', 'opac'):
                    ok = only(g) == [e]
                elif f == 'sphere':
                    ok = only(g) == ['sphere' if e else 'slab']
                else:
                    ok = np.array_equal(np.array(g), np.array(e))
                ctx.true('parameter ' + f, ok, dict(detail, run=i, got=repr(g), want=repr(e)))
        self.results(s, detail)
        self.stored(s, detail)

    def results(self, s, detail):
        ctx, np = self.ctx, self.np
        if self.byName:
            o, angles = self.runner, 'mus'
        elif s['command'] == 'all':
            return
        else:
            o, angles = self.solver, 'angles'
        if s['kept'] < 0:
            return
        r = self.rec.results[s['kept'] + self.offset]
        for name, f in (('xs', 'xs'), ('phi', 'phi'), ('e', 'e'), ('psi', 'psi'), ('ws', 'ws'), (angles, 'mus'), ('exit_dist', 'exits'), ('exit_phi', 'exitPhi')):
            ctx.true('kept ' + f, np.array_equal(getattr(o, name, None), r[f]), dict(detail, kept=s['kept']))
        if self.byName:
            ctx.true('kept settings', o.tfinal == fl(s['opts']['tf']) and o.v0 == fl(s['grid']['v0']) and o.t0_source == fl(s['opts']['t0'])
                     and np.array_equal(o.eval_array, fl(s['grid']['times'])) and np.allclose(o.x0, fl(s['sec']['x0']), rtol=1e-12), detail)

    def stored(self, s, detail):
        ctx, np, o = self.ctx, self.np, s['opts']
        os.chdir(self.store.root)
        for q in s['store']:
            r = self.rec.results[q['which'] + self.offset]
            k = {'problem': o['problem'], 'source': s['named'], 't': q['t'], 'c': 0, 'x0': q['size'], 'eps': o['eps'], 'cv': o['cv'], 'unc': q['analytic'],
                 'mov': q['moving'], 'n': q['n']}
            c = fl(o['sigS']) / fl(o['sigT'])
            for name in self.store.names(k):
                for kind, part in (('rad', 'rad'),) if o['problem'] == 'transport' else (('transfer', 'rad'), ('transfer', 'mat')):
                    ld = ctx.call('make the loader', self.mods['load_sol'], name, k['source'], kind, c, q['s2'], fl(k['cv']), 'run_data.hdf5')
                    d = dict(detail, record=q)
                    try:
                        ld.call_sol(fl(q['t']), 2, fl(q['size']), q['n'], part, q['analytic'], q['moving'], fl(o['eps']))
                    except KeyError as x:
                        ctx.true('filed', False, dict(d, error=repr(x)))
                        continue
                    except Exception as x:
                        raise RepoFailure('loading %s raised %r' % (q, x))
                    it = q['at']
                    at = lambda v: v if it < 0 else v[it]
                    e = np.zeros(5) if o['problem'] == 'transport' else at(r['e'])
                    pairs = [('xs', ld.xs, at(r['xs'])), ('phi', ld.phi, at(r['phi'])), ('e', ld.e, e), ('psi', ld.psi, at(r['psi'])),
                             ('mus', ld.mus, r['mus']), ('ws', ld.ws, r['ws'])]
                    if it < 0:
                        u = r['U'] if kind == 'rad' else r['U'][:-1] if part == 'rad' else r['U'][-1]
                        pairs += [('edges', ld.edges, r['edges']), ('U', ld.coeff_mat, u)]
                    for f, g, w in pairs:
                        ctx.true('filed ' + f, np.array_equal(np.array(g), np.array(w)), dict(d, got=repr(g), want=repr(w)))


def run(ctx):
    jobs = ctx.quint('config', ctx.pick(10, 400), ctx.pick(20, 40), jobs=ctx.pick(2, 6))

    def imp():
        import numpy as np
        from moving_mesh_transport.solver_functions import main_functions
        rec = Recorder(np, main_functions.solve)
        main_functions.solve = rec
        from moving_mesh_transport import solver
        solver.solve = rec
        from moving_mesh_transport.solver_functions.run_functions import run as command
        from moving_mesh_transport.loading_and_saving.load_solution import load_sol
        return np, rec, {'main_class': solver.main_class, 'run': command, 'load_sol': load_sol}
    np, rec, mods = ctx.call('import the solver', imp)
    import warnings
    import matplotlib.pyplot as plt
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    drawing = {n: getattr(plt, n) for n in ('plot', 'scatter', 'legend', 'show', 'figure', 'xlabel', 'ylabel', 'xlim')}
    for k, tr in enumerate(ctx.traces(jobs)):
        ses = Session(ctx, k, np, mods, rec)
        # drawing is slow: only one trace in five does
        for n, f in drawing.items():
            setattr(plt, n, f if k % 5 == 0 else lambda *a, **b: None)
        for s in tr:
            detail = {'opts': s['opts'], 'sec': s['sec'], 'grid': s['grid'], 'flaw': s['flaw'], 'command': s['command'], 'way': s['way']}
            if s['command'] == '':
                ses.configure(s)
                ctx.distinct.add(json.dumps([s['opts'], s['sec'], s['grid'], s['flaw']], sort_keys=True))
            else:
                ses.study(s, detail)
                plt.close('all')
        ctx.done_trace(None, {'opts': tr[-1]['opts'], 'sec': tr[-1]['sec'], 'calls': len(tr[-1]['calls'])})
        if ctx.full():
            return
