"""P23: errors against benchmarks, against spec/bench.qnt."""
import contextlib
import io
import json
import os
import re
import shutil
import warnings
from common import fl


class Results:
    """stands in for solve: returns the fluxes and energies of the trace"""

    def __init__(self, np):
        self.np, self.runs, self.calls = np, [], 0

    def __call__(self, *a, **k):
        np = self.np
        r = self.runs[self.calls % len(self.runs)]
        self.calls += 1
        xs, phi, e = (np.array(fl(r[f])) for f in ('xs', 'phi', 'e'))
        ang, z = int(a[2]), np.zeros(1)
        return (xs, phi, np.zeros((ang, len(xs))), np.zeros((ang, 2)), np.zeros(2), e, fl(r['spent']), np.zeros((ang, 2, 1)), np.zeros(ang), np.ones(ang),
                np.linspace(-1.0, 1.0, 3), np.zeros((1, 1, 1)), z, z, z, z, z, z, np.zeros(ang))


def settings(s):
    """the input files of a study"""
    y = s['study']
    n, kind = len(y['cells']), y['thermal']
    a = {'problem_name': 'transport' if kind == 'none' else 'su_olson', 'tfinal': fl(y['t']), 'c_scaling': y['scaled'], 'epsilon_scaling': False,
         'epsilon': 1.0, 'sigma_t': fl(y['sigT']), 'sigma_s': fl(y['sigT']) * fl(y['c']), 't0': 5.0, 'N_spaces': y['cells'], 'tnodes': 4, 'Ms': y['ms'],
         'N_runs': y['repeats'], 'rt': 1e-9, 'at': 1e-8, 'mxstp': 1.0, 'major': 'cells' if y['byCells'] else 'Ms',
         'radiative_transfer': {'none': kind == 'none', 'linear': kind != 'none'}, 'temperature_dependence': [0 if kind == 'none' else 1, 0, 0, 0],
         'e_initial': 1e-9, 'weights': 'gauss_legendre' if kind == 'two directions' else 'gauss_lobatto', 'save_solution': False, 'particle_v': 'one',
         'edge_v': 'one', 'cv_const': 0.03, 'thick': False, 'integrator': 'BDF', 'geometry': {'slab': True, 'sphere': False}}
    x0 = [fl(y['x0'])] * max(n, 2)
    sec = {'x0': x0, 'source_strength': 1.0, 'source_type': y['kinds'], 'N_angles': y['angles'], 'move_type': [1, 0, 0, 0], 'benchmarking': True,
           'bench_type': 'S2' if kind == 'two directions' else 'full', 'sigma': fl(y['sigma'])}
    mesh = {'find_edges_tol': 1.0, 'sqrt_t_move_factor': 1.0, 'save_wave_loc': False, 'estimate_wavespeed': False, 'find_wave_loc': False,
            'choose_xs': kind == 'columns', 'xs_list': fl(s['columns']['x']), 'pad': 1.0, 'leader_pad': 1.0, 'xs_quad': 5, 'eval_times': False,
            'eval_array': [1.0], 'boundary_on': [0, 0], 'boundary_source': False, 'boundary_source_strength': 0.0, 'finite': False,
            'domain_width': 1.0, 'Msigma': 0, 'sigma_func': {'constant': True, 'gaussian': False}, 'fake_sedov_v0': 0.1}
    return {'all': a, y['source']: sec}, mesh


def keep_table(ctx, mods, o, s, where):
    """file the table of the last study, then look at all of them"""
    np, h5py, save = mods
    y = s['study']
    kinds = y['kinds']
    path = lambda name: os.path.join(os.getcwd(), 'moving_mesh_transport', 'local_run_data', 'run_data_%s_RMS.h5' % name)
    if s['filedNow']:
        p1 = y['thermal'] != 'none'
        sigma = fl(y['sigma']) if 'gaussian' in y['source'] else 0
        a = ctx.call('make the output', save, fl(y['t']), o.N_spaces, o.Ms, kinds, y['moving'], y['analytic'], o.major, o.thermal_couple,
                     o.temp_function, o.scattering_ratio, sigma, o.x0, o.cv0, o.problem_type, o.N_angles, o.epsilon)
        if p1:
            ctx.call('file a table', a.save_RMS_P1_su_olson, o.RMS_list, o.RMS_list_energy, o.N_angles, o.r_times, y['angles'][0])
        else:
            ctx.call('file a table', a.save_RMS, o.RMS_list, o.RMS_list_energy, o.N_angles, o.r_times)
    if not s['book']:
        return
    for q in s['book']:
        group = '%s/t=%s/RMS' % (q['key'], 1.25 if fl(q['t']) == 1.25 else int(fl(q['t']))) + ('/S%d' % q['ang'] if q['ang'] else '')
        treat = ('' if q['analytic'] else 'no_') + 'uncollided_' + ('moving' if q['moving'] else 'static')
        name = treat + '_M_%d' % q['m'] if q['byCells'] else 'Ms_' + treat
        with h5py.File(path('su_olson' if q['ang'] else 'transport'), 'r') as f:
            d = dict(where, table=q)
            if ctx.true('table kept', group in f and name in f[group], d):
                # (stored in single precision)
                ctx.same('table', np.array(f[group][name]), fl(q['rows']), 1e-6, d)


def run(ctx):
    jobs = ctx.quint('bench', ctx.pick(20, 300), ctx.pick(7, 20), jobs=ctx.pick(4, 8))

    def imp():
        import h5py
        import numpy as np
        from moving_mesh_transport import solver
        from moving_mesh_transport.loading_and_saving.load_bench import load_bench
        from moving_mesh_transport.loading_and_saving.save_output import save_output
        return np, h5py, solver, load_bench, save_output
    np, h5py, solver, load_bench, save = ctx.call('import the solver', imp)
    rec = Results(np)
    solver.solve = rec
    warnings.simplefilter('ignore')
    for n in ('plot', 'scatter', 'legend', 'show', 'figure', 'xlabel', 'ylabel', 'xlim'):
        setattr(solver.plt, n, lambda *a, **k: None)
    solver.plot_edges = lambda *a, **k: None
    folder = os.path.join(os.getcwd(), 'moving_mesh_transport', 'benchmarks')
    poly = lambda c, x: sum(v * x**i for i, v in enumerate(fl(c)))
    number = r'(-?[0-9]+\.[0-9]+|-?nan|-?inf)'
    mods = (np, h5py, save)
    data = os.path.join(os.getcwd(), 'moving_mesh_transport', 'local_run_data')
    os.makedirs(data, exist_ok=True)
    for tr in ctx.traces(jobs):
        for name in ('transport', 'su_olson'):
            h5py.File(os.path.join(data, 'run_data_%s_RMS.h5' % name), 'w').close()
        for s in tr:
            y = s['study']
            shutil.rmtree(folder, ignore_errors=True)
            os.makedirs(folder)
            with h5py.File(os.path.join(folder, 'benchmarks.hdf5'), 'w') as f:
                for q in s['file']:
                    x = np.linspace(0.0, fl(q['end']), q['n'])
                    f.create_dataset('%s/t = %s' % (q['source'], fl(q['t'])), data=np.array([x, poly(q['a'], x), poly(q['b'], x)]))
            q = s['columns']
            for name, t in (('su_olson_1.txt', 1.0), ('su_olson_31.txt', 31.6228)):
                # the table of another time holds other numbers
                np.savetxt(os.path.join(folder, name), np.array([fl(q[c]) for c in ('x', 'phi', 'e')]).T + (0.0 if fl(q['t']) == t else 3.0))
            where = {'study': y, 'runs': s['runs']}
            par, mesh = settings(s)
            rec.runs, rec.calls = s['runs'], 0
            o = ctx.call('make the study', solver.main_class, y['source'], par, mesh)
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                ctx.call('study with comparison', o.main, y['analytic'], y['moving'])
            ctx.true('runs', rec.calls == len(s['runs']), dict(where, made=rec.calls))
            # differences of 1e-12 of numbers of size one
            ctx.same('errors', o.RMS_list, fl(s['errors']), 1e-9, where)
            if y['thermal'] != 'none':
                ctx.same('energy errors', o.RMS_list_energy, fl(s['energies']), 1e-9, where)
            ctx.same('times', o.r_times, fl(s['times']), 1e-12, where)
            text = out.getvalue()
            for label, want in (('radiation energy density', s['orders']), ('material energy', s['orders2'])):
                got = [float(v) for v in re.findall(label + ' convergence order ' + number, text)]
                if ctx.true('orders printed', len(got) == len(want), dict(where, got=got, want=fl(want))) and want:
                    ctx.true('order', all(abs(g - w) <= 0.0051 for g, w in zip(got, fl(want))), dict(where, got=got, want=fl(want)))
            # the tables themselves
            if y['thermal'] != 'columns':
                kinds = np.array(y['kinds'] if y['thermal'] == 'none' else [0] * 16)
                if y['thermal'] != 'none':
                    kinds[(12 if fl(y['sigma']) == 300 else 10) if y['source'] == 'gaussian_source' else (14 if fl(y['x0']) == 400 else 8)] = 1
                b = ctx.call('load a benchmark', load_bench, kinds, fl(y['t']), fl(y['x0']), fl(y['c']), y['scaled'])
                order = np.argsort(s['asked'])
                xs, want = np.array(fl(s['asked']))[order], np.array(fl(s['answers']))[order]
                got = ctx.call('ask a benchmark', b, xs)
                size = 1.0 + np.max(np.abs(want))
                ctx.same('flux', got[0], want[:, 0], 1e-10, dict(where, asked=list(xs)), scale=size)
                ctx.same('uncollided flux', got[1], want[:, 1], 1e-10, dict(where, asked=list(xs)), scale=size)
            keep_table(ctx, mods, o, s, where)
            ctx.distinct.add(json.dumps([y, len(s['runs'][0]['xs'])]))
        ctx.done_trace(None, {'study': tr[-1]['study']})
        if ctx.full():
            return
