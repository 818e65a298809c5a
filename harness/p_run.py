"""P17: complete runs, against spec/runs.qnt and spec/tally.qnt."""
import json
import numpy as np
from common import fl, D
from kit import Kit, ST, from_prob, from_grid
from p_outputs import either
import tables

METHODS = ['DOP853', 'RK45', 'Radau', 'BDF', 'LSODA', 'RK23']


class Runner:
    """solve() with the parameters of a kit"""

    def __init__(self, ctx, kit):
        self.ctx, self.kit = ctx, kit

        def imp():
            from moving_mesh_transport.solver_functions.main_functions import solve
            return solve
        self.solve = ctx.call('import the solver', imp)
        tables.write('moving_mesh_transport/matrix_files', 9)

    def __call__(self, p, integrator='DOP853', rt=1e-10, at=1e-10, xs=None, times=None, mxstp=1.0):
        kit = self.kit
        st = list(p['source_type']) + [0] * (16 - len(p['source_type']))
        arr = np.array
        out = self.ctx.call(
            'run', self.solve, p['tfinal'], p['N_space'], p['N_ang'], p['M'], p['x0'], p['t0'], p['sigma_t'], p['sigma_s'], p['nt'], arr(st),
            p['uncollided'], p['moving'], arr(p['move_type']), kit.thermal['none'], arr([0, 0, 0, 0]), rt, at, p['e_initial'],
            xs is not None, arr(xs) if xs is not None else 0.0, p['weights'], p['sigma'], p['particle_v'], p['edge_v'], p['cv0'],
            False, False, p['thick'], mxstp, np.zeros((1, 1, 1)), 1e9, p['source_strength'], p['move_factor'], integrator, p['l'],
            False, p['pad'], p['leader_pad'], p['nq'], times is not None, arr(times) if times is not None else arr([p['tfinal']]),
            arr(p['boundary_on']), p['boundary_source_strength'], p['boundary_source'], kit.opac[p['opacity']], p['Msigma'],
            p['finite_domain'], p['domain_width'], p['fake_sedov_v0'], p['test_dimensional_rhs'], p['epsilon'],
            kit.geo[1 if p['sphere'] else 0])
        names = ['xs', 'phi', 'psi', 'exits', 'exitPhi', 'e', 'time', 'U', 'mus', 'ws', 'edges']
        r = dict(zip(names, out[:11]))
        r['angles'] = out[18]
        return {k: (np.array(v, dtype=float) if k != 'time' else v) for k, v in r.items()}


def same_run(a, b):
    return all(np.array_equal(a[k], b[k]) for k in a if k != 'time')


def judge(ctx, r, i, a, q, xs, tol, where):
    """the i-th requested time of a run against an answer of the specification"""
    ok = np.ones(len(xs), dtype=bool)
    psi = r['psi'] if i is None else r['psi'][i]
    phi = r['phi'] if i is None else r['phi'][i]
    x = r['xs'] if i is None else r['xs'][i]
    ex = r['exits'] if i is None else r['exits'][i]
    ep = r['exitPhi'] if i is None else r['exitPhi'][i]
    ctx.same('points', x, xs, 1e-15, where)
    either(ctx, 'angular flux', psi, fl(a['psiA']), fl(a['psiB']), ok, where, tol)
    either(ctx, 'scalar flux', phi, fl(a['phiA']), fl(a['phiB']), ok, where, tol)
    ctx.same('exit distribution', ex, np.array(fl(a['exits'])).T, tol, where)
    ctx.same('exit flux', ep, np.array(fl(a['exitPhi'])), tol, where)


def small(ctx, kit, run, jobs):
    kept = []
    for tr in ctx.traces(jobs):
        answers = None
        for s in tr:
            if s['stage'] == 0:
                answers = []
                continue
            answers.append(s['answer'])
            if s['stage'] != 2:
                continue
            c, q = s['cfg'], s['prob']
            n = ctx.validated + len(kept)
            xs = np.array(fl(s['xs']))
            p = from_prob(kit, c, q, uncollided=int(s['analytic']))
            t1, tf = fl(answers[0]['t']), fl(answers[1]['t'])
            where = {'cfg': c, 'prob': q, 'analytic': s['analytic']}
            # what the fixed steps of the specification leave
            tol = 2e-3 if c['sphere'] else 1e-3
            if n % 2 == 0:
                # both times of one run
                r = run(p, METHODS[n // 2 % 3], 1e-9, 1e-10, xs, [t1, tf], mxstp=0.05)
                for i in (0, 1):
                    judge(ctx, r, i, answers[i], q, xs, tol, dict(where, time=i))
            else:
                r = run(p, METHODS[n // 2 % 4], 1e-9, 1e-10, xs, mxstp=0.05)
                judge(ctx, r, None, answers[1], q, xs, tol, dict(where, time='final'))
            U = np.array(fl(answers[1]['U']))
            ctx.same('coefficients', r['U'], U, tol, where, scale=1.0 + float(np.max(np.abs(U))))
            ctx.same('edges', r['edges'], fl(answers[1]['edges']), 1e-9, where)
            b = kit.rule(q['ang'], 'gauss_lobatto' if q['lob'] else 'gauss_legendre')
            ctx.same('directions', r['angles'], b[0], 1e-12, where)
            ctx.same('weights', r['ws'], b[1], 1e-12, where)
            kept.append((p, n, xs, t1, tf, r, c['lay']))
            ctx.distinct.add(json.dumps([c, q], sort_keys=True))
        ctx.done_trace(None, {'cfg': tr[-1]['cfg'], 'prob': tr[-1]['prob']})
        if ctx.full():
            return
    problems = [(lay, p, xs, t1, tf) for p, n, xs, t1, tf, r, lay in kept]
    # an earlier run, again, after all the others: the same answer
    for p, n, xs, t1, tf, r, lay in kept[:ctx.pick(3, 12)]:
        again = run(p, METHODS[n // 2 % 3], 1e-9, 1e-10, xs, [t1, tf], mxstp=0.05) if n % 2 == 0 else run(p, METHODS[n // 2 % 4], 1e-9, 1e-10, xs, mxstp=0.05)
        ctx.true('again', same_run(r, again), {'params': {k: v for k, v in p.items() if isinstance(v, (int, float, str))}})
    return problems


def tolerance(ctx, kit, run, kept):
    """the tolerances asked for are those kept: every step is chosen by them, and linear problems scale with them"""
    pulse = kit.params(source_type=ST['squareSrc'], tfinal=0.8, t0=0.3, N_ang=2, M=2, N_space=4, sigma_t=0.8, sigma_s=0.5, source_strength=1.0,
                       x0=0.4, domain_width=6.0, pad=2.0)
    many = ctx.pick(3, 12)
    for lay, p, xs, t1, tf in [('squareSrc', pulse, np.linspace(-1.1, 1.1, 9), 0.3, 0.8)] + kept[:many]:
        where = {'lay': lay, 'problem': {k: v for k, v in p.items() if isinstance(v, (int, float, str))}}
        fine = run(p, 'DOP853', 1e-11, 1e-13, xs, mxstp=0.02)
        top = float(np.max(np.abs(fine['phi']))) + 1e-12
        free = run(p, 'RK45', 1e-9, 1e-11, xs, mxstp=10.0)
        ctx.true('tolerance', float(np.max(np.abs(free['phi'] - fine['phi']))) <= 1e-6 * top, where)
        if lay in ('squareSrc', 'gaussSrc', 'boundary') and not p['uncollided']:
            # a power of two: every rounding is the same
            small_ = 2.0 ** -17
            r = [run(dict(p, source_strength=p['source_strength'] * k, boundary_source_strength=p['boundary_source_strength'] * k), 'RK45', 1e-6, 1e-9 * k, xs, mxstp=10.0)
                 for k in (1.0, small_)]
            ctx.same('faint run', r[1]['U'] / small_, r[0]['U'], 1e-10, where, scale=float(np.max(np.abs(r[0]['U']))))
            ctx.same('faint run', r[1]['phi'] / small_, r[0]['phi'], 1e-10, where, scale=float(np.max(np.abs(r[0]['phi']))))


NAMES = {'squareIC': 'square_IC', 'squareSrc': 'square_source', 'gaussIC': 'gaussian_IC', 'gaussSrc': 'gaussian_source', 'plane': 'plane_IC',
         'mms': 'MMS', 'boundary': 'boundary_source'}


def commanded(ctx, kit, run, kept, command, load_sol):
    """the same problem through the input files and the named command, and out of the store"""
    import yaml
    import h5py
    import os
    import matplotlib.pyplot as plt
    os.makedirs('moving_mesh_transport/input_scripts', exist_ok=True)
    os.makedirs('moving_mesh_transport/local_run_data', exist_ok=True)
    count = 0
    first = kit.params(source_type=ST['squareIC'], tfinal=0.5, N_ang=2, M=1, boundary_source_strength=1.0)
    for lay, p, xs, t1, tf in [('squareIC', first, np.linspace(-1.2, 1.2, 9), 0.25, 0.5)] + kept:
        if lay not in NAMES or count >= ctx.pick(3, 8):
            continue
        count += 1
        h5py.File('moving_mesh_transport/local_run_data/run_data.hdf5', 'w').close()
        p = dict(p, edge_v=1.0)
        times = [t1, tf] if count % 2 else None
        name = NAMES[lay]
        gauss = lay.startswith('gauss')
        doc = {'all': {
            'problem_name': 'transport', 'tfinal': tf, 'c_scaling': False, 'epsilon_scaling': False, 'epsilon': 1.0, 'sigma_t': p['sigma_t'],
            'sigma_s': p['sigma_s'], 't0': p['t0'], 'N_spaces': [p['N_space']], 'tnodes': p['nt'], 'Ms': [p['M']], 'N_runs': 1, 'rt': 1e-8, 'at': 1e-9,
            'mxstp': 0.05, 'major': 'cells', 'radiative_transfer': {'none': True}, 'temperature_dependence': [0, 0, 0, 0], 'e_initial': 0.0,
            'weights': p['weights'], 'save_solution': lay not in ('boundary', 'mms'), 'particle_v': 'one', 'edge_v': 'one', 'cv_const': 0.0, 'estimate_wavespeed': False,
            'thick': bool(p['thick']), 'integrator': 'RK45', 'geometry': {'slab': not p['sphere'], 'sphere': bool(p['sphere'])}},
            name: {'x0': [p['x0']], 'source_strength': p['source_strength'], 'source_type': list(map(int, p['source_type'])) + [0] * 10, 'N_angles': [p['N_ang']],
                   'move_type': [1, 0, 0, 0], 'benchmarking': False, 'bench_type': 'full', 'sigma': p['sigma'], 'l': 1.0}}
        mesh = {'find_edges_tol': 1e9, 'sqrt_t_move_factor': p['move_factor'], 'save_wave_loc': False, 'estimate_wavespeed': False, 'find_wave_loc': False,
                'choose_xs': True, 'xs_list': [float(x) for x in xs], 'pad': p['pad'], 'leader_pad': p['leader_pad'], 'xs_quad': 12,
                'eval_times': times is not None, 'eval_array': times or [tf], 'boundary_on': list(map(int, p['boundary_on'])),
                'boundary_source': bool(p['boundary_source']), 'boundary_source_strength': p['boundary_source_strength'], 'finite': bool(p['finite_domain']),
                'domain_width': p['domain_width'], 'Msigma': p['Msigma'], 'fake_sedov_v0': p['fake_sedov_v0'],
                'sigma_func': {k: k == p['opacity'] for k in ('constant', 'gaussian', 'siewert1', 'siewert2', 'fake_sedov')}}
        for f, d in (('whole', doc), ('mesh_parameters', mesh)):
            with open('moving_mesh_transport/input_scripts/%s.yaml' % f, 'w') as h:
                yaml.safe_dump(d, h)
        o = ctx.call('make the command', command)
        ctx.call('read the input files', o.load, 'whole')
        if lay == 'boundary':
            # its comparison with references is not part of the run
            from moving_mesh_transport.solver import main_class
            q = ctx.call('make the solver', main_class, name, o.parameters, o.mesh_parameters)
            ctx.call('boundary driven run', q.main, False, bool(p['moving']))
            o.get_results(q)
        else:
            ctx.call('command ' + name, getattr(o, name), bool(p['uncollided']), bool(p['moving']))
        plt.close('all')
        r = run(dict(p, tfinal=tf), 'RK45', 1e-8, 1e-9, xs, times, mxstp=0.05)
        where = {'lay': lay, 'problem': {k: v for k, v in p.items() if isinstance(v, (int, float, str))}}
        for f, g in (('xs', o.xs), ('phi', o.phi), ('psi', o.psi), ('exits', o.exit_dist), ('exitPhi', o.exit_phi), ('angles', o.mus), ('ws', o.ws)):
            ctx.same('command', g, r[f], 1e-12, dict(where, what=f))
        if not doc['all']['save_solution']:
            continue
        src = {'squareSrc': 'square_s', 'gaussSrc': 'gaussian_s'}.get(lay, name)
        for i, t in enumerate(times or [tf]):
            ld = ctx.call('make the loader', load_sol, 'transport', src, 'rad', p['sigma_s'] / p['sigma_t'], p['N_ang'] == 2, 0.0, 'run_data.hdf5')
            ctx.call('load the run', ld.call_sol, t, p['M'], p['sigma'] if gauss else p['x0'], p['N_space'], 'rad', bool(p['uncollided']), bool(p['moving']), 1.0)
            at = (lambda v: v) if times is None else (lambda v: v[i])
            for f, g, w in (('xs', ld.xs, at(r['xs'])), ('phi', ld.phi, at(r['phi'])), ('psi', ld.psi, at(r['psi'])), ('mus', ld.mus, r['angles']), ('ws', ld.ws, r['ws'])):
                ctx.same('filed', g, w, 1e-12, dict(where, what=f, time=i))
            last = times is None or i == len(times) - 1
            e = run(dict(p, tfinal=t), 'RK45', 1e-8, 1e-9, xs, mxstp=0.05) if not last and p['moving'] else r
            if last or count == 1:
                ctx.same('filed' if last else 'filed-earlier', ld.edges, e['edges'], 1e-12, dict(where, what='edges', time=i))
            if last:
                ctx.same('filed', ld.coeff_mat, r['U'], 1e-12, dict(where, what='coefficients', time=i))


def sums(r, m):
    """number, mean and mean square position on the grid"""
    z, w = np.polynomial.legendre.leggauss(m + 3)
    P = np.array([np.polynomial.legendre.legval(z, np.eye(m + 1)[j]) * np.sqrt(2 * j + 1) for j in range(m + 1)])
    g = r['edges']
    out = np.zeros(3)
    mean = np.einsum('l,lkj->kj', r['ws'], r['U'])
    for k in range(len(g) - 1):
        h = g[k + 1] - g[k]
        x = 0.5 * h * z + 0.5 * (g[k] + g[k + 1])
        f = mean[k] @ P / np.sqrt(h)
        for i in range(3):
            out[i] += 0.5 * h * np.sum(w * f * x ** i)
    return out


def large(ctx, kit, run, jobs):
    for tr in ctx.traces(jobs):
        seen = {}
        for s in tr:
            y = s['way']
            p = from_grid(kit, s['cfg'], M=y['m'], N_ang=y['ang'], sigma_t=fl(s['sigT']), sigma_s=fl(s['sigS']), uncollided=int(y['analytic']),
                          source_strength=fl(s['strength']), sigma=fl(s['sigma']), nt=24, weights='gauss_lobatto' if y['lob'] else 'gauss_legendre')
            where = {'state': {k: s[k] for k in ('cfg', 'way', 'kind', 'sigT', 'sigS', 'sigma', 'strength')}}
            tf = fl(s['tf'])
            far = fl(s['cfg']['x0']) + tf
            xs = np.linspace(-far, far, 9) * 0.61
            r = run(p, y['integrator'], 1e-8, 1e-9, xs, mxstp=0.1)
            got = sums(r, y['m'])
            want, all_ = s['left'], s['total']
            tol = fl(s['tight'])
            n = fl(all_['n'])
            q = fl(all_['q'])
            ctx.true('number', abs(got[0] - fl(want['n'])) <= tol * n, dict(where, got=got.tolist(), want=fl(want['n'])))
            ctx.true('mean', abs(got[1]) <= 1e-6 * n, dict(where, got=got.tolist()))
            ctx.true('spread', abs(got[2] - fl(want['q'])) <= tol * (q + n * 0.1), dict(where, got=got.tolist(), want=fl(want['q'])))
            ctx.true('mirror', np.max(np.abs(r['phi'] - r['phi'][::-1])) <= 1e-5 * (1 + np.max(np.abs(r['phi']))), where)
            if s['fine']:
                # with the same directions: few rays are not many
                key = (y['ang'], y['lob'])
                if key in seen:
                    top = float(np.max(np.abs(seen[key])))
                    d = float(np.max(np.abs(seen[key] - r['phi'])) / top)
                    ctx.true('one answer', d <= 0.2, dict(where, apart=d))
                else:
                    seen[key] = r['phi']
            ctx.distinct.add(json.dumps(where, sort_keys=True))
        ctx.done_trace(None, {'kind': tr[-1]['kind'], 'way': tr[-1]['way']})
        if ctx.full():
            return


def run(ctx):
    a = ctx.quint('runs', ctx.pick(2, 60), ctx.pick(8, 14), jobs=ctx.pick(5, 8))
    b = ctx.quint('tally', ctx.pick(5, 100), ctx.pick(3, 8), jobs=ctx.pick(1, 4), salt=77)
    kit = Kit(ctx)
    r = Runner(ctx, kit)
    large(ctx, kit, r, b)
    kept = small(ctx, kit, r, a)
    tolerance(ctx, kit, r, kept or [])

    def imp():
        from moving_mesh_transport.solver_functions.run_functions import run as command
        from moving_mesh_transport.loading_and_saving.load_solution import load_sol
        return command, load_sol
    command, load_sol = ctx.call('import the commands', imp)
    if kept:
        commanded(ctx, kit, r, kept, command, load_sol)
