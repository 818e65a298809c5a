"""P14: the stores of finished runs, against spec/store.qnt."""
import json
import os
from common import fl, RepoFailure

SRC = {'plane_IC': 0, 'square_IC': 1, 'square_s': 2, 'gaussian_IC': 3, 'MMS': 4, 'gaussian_s': 5}
FOLDER = 'moving_mesh_transport/local_run_data'


class Store:
    """one data folder, and the repository's objects that write and read it"""

    def __init__(self, ctx, np, SO, LS, k):
        import h5py
        self.ctx, self.np, self.SO, self.LS = ctx, np, SO, LS
        self.root = os.path.join(ctx.scratch, 'store%d' % k)
        os.makedirs(os.path.join(self.root, FOLDER))
        os.chdir(self.root)
        for n in ('run_data.hdf5', 'wavepoints_crc.hdf5'):
            h5py.File(os.path.join(FOLDER, n), 'w').close()
        self.savers = {}

    def saver(self, problem, source, t, cv, c, eps, unc, mov, x0, fresh, src=None):
        key = (problem, source, t, cv, c, eps, unc, mov)
        if fresh or key not in self.savers:
            st = [0] * 6
            if source in SRC:
                st[SRC[source]] = 1
            if src is not None:
                st = src
            self.savers[key] = self.ctx.call('make the saver', self.SO, t, [4], [2], st, mov, unc, 'cells',
                                             0 if problem == 'transport' else 1, [1, 0], c, 300, [x0], cv, problem, [2], eps)
        return self.savers[key]

    def save(self, k, v, fresh, src=None):
        np = self.np
        o = self.saver(k['problem'], k['source'], fl(k['t']), fl(k['cv']), fl(k['c']), fl(k['eps']), k['unc'], k['mov'], fl(k['x0']), fresh, src)
        a = {q: np.array(fl(v[q])) for q in v}
        keep = {q: x.copy() for q, x in a.items()}
        self.ctx.call('save a solution', o.save_solution, a['xs'], a['phi'], a['e'], a['coefs'], a['edges'], fl(k['x0']), a['ws'],
                      k['n'], False, a['psi'], fl(k['eps']), a['mus'])
        self.ctx.true('argument', all(np.array_equal(a[q], keep[q]) for q in a), {'key': k})

    def names(self, k):
        """what the loader can be asked for the problem"""
        cv = fl(k['cv'])
        p = k['problem']
        if p.startswith('rad_transfer_constant_cv'):
            lit = 'transfer_const_cv=%s' % cv + p[len('rad_transfer_constant_cv'):]
            out = [lit]
            if not p.endswith('s2'):
                out.append(p.replace('constant', 'const'))
            return out
        return [p]

    def load(self, k):
        """(error, loaders)"""
        out, errors = [], []
        for name in self.names(k):
            for kind, mr in (('rad', 'rad'),) if k['problem'] == 'transport' else (('transfer', 'rad'), ('transfer', 'mat')):
                o = self.ctx.call('make the loader', self.LS, name, k['source'], kind, fl(k['c']), False, fl(k['cv']), 'run_data.hdf5')
                try:
                    o.call_sol(fl(k['t']), 2, fl(k['x0']), k['n'], mr, k['unc'], k['mov'], fl(k['eps']))
                    out.append((name, kind, mr, o))
                except KeyError as e:
                    errors.append(repr(e))
                except Exception as e:
                    raise RepoFailure('loading %s raised %r' % (k, e))
        return errors, out

    def check(self, k, v, where, key='solution'):
        ctx, np = self.ctx, self.np
        errors, got = self.load(k)
        if not ctx.true(key, not errors, dict(where, key=k, errors=errors)):
            return
        co = np.array(fl(v['coefs']))
        for name, kind, mr, o in got:
            d = dict(where, key=k, name=name, kind=kind, part=mr)
            want = co if kind == 'rad' else co[:-1] if mr == 'rad' else co[-1]
            for what, g, w in (('xs', o.xs, fl(v['xs'])), ('phi', o.phi, fl(v['phi'])), ('e', o.e, fl(v['e'])), ('psi', o.psi, fl(v['psi'])),
                               ('mus', o.mus, fl(v['mus'])), ('ws', o.ws, fl(v['ws'])), ('edges', o.edges, fl(v['edges'])), ('coefs', o.coeff_mat, want)):
                ctx.same(key, g, w, 0.0, dict(d, what=what))

    def wave_loader(self, k, name):
        o = self.ctx.call('make the loader', self.LS, name, k['source'], 'transfer', 1.0, False, fl(k['cv']), 'run_data.hdf5')
        return o

    def wave_names(self, k):
        p, cv = k['problem'], fl(k['cv'])
        if p == 'rad_transfer_constant_cv':
            return ['transfer_const_cv=%s' % cv, 'rad_transfer_const_cv']
        if p == 'rad_transfer_constant_cv_thick':
            return ['transfer_const_cv=%s_thick' % cv, 'rad_transfer_const_cv_thick', p]
        return [p]

    def check_wave(self, k, v, found, where):
        ctx = self.ctx
        for name in self.wave_names(k):
            o = self.wave_loader(k, name)
            d = dict(where, key=k, name=name)
            o.wavepoints_file_path = os.path.join(FOLDER, 'wavepoints_crc.hdf5')
            try:
                o.call_wavepoints(fl(k['t']))
            except KeyError as e:
                ctx.true('wave', not found, dict(d, error=repr(e)))
                continue
            except Exception as e:
                raise RepoFailure('loading the wave of %s raised %r' % (k, e))
            if found:
                for what, g, w in (('times', o.tpnts, v['times']), ('left', o.left, v['left']), ('right', o.right, v['right']), ('heat', o.T_wave, v['heat'])):
                    ctx.same('wave', g, fl(w), 0.0, dict(d, what=what))
            else:
                # the stated replacement for a wave that was never found
                ctx.true('wave missing', list(o.tpnts) == [fl(k['t'])] and list(o.left) == [0] and list(o.right) == [0] and list(o.T_wave) == [0], d)


def limits(ctx, np, SO, LS):
    """histories the specification tells apart and the code does not (known findings)"""
    base = {'problem': 'transport', 't': 10 ** 24, 'c': 10 ** 24, 'x0': 10 ** 24, 'eps': 10 ** 24, 'cv': 0, 'unc': False, 'mov': True, 'n': 4}
    mk = lambda q: {'xs': [q], 'phi': [q + 1], 'e': [0], 'psi': [[q]], 'mus': [q], 'ws': [q], 'edges': [q, q + 2], 'coefs': [[[q]]]}
    for j, (what, src) in enumerate((('boundary', [0, 0, 0, 0, 0, 0]), ('dipole', [2, 0, 0, 0, 0, 0]))):
        st = Store(ctx, np, SO, LS, 90000 + j)
        k = dict(base, source='plane_IC')
        st.save(k, mk(5), True)
        st.save(dict(k, source=what), mk(7), True, src)
        errors, got = st.load(k)
        ctx.true('a %s run replaces the plane pulse' % what, got and float(got[0][3].phi[0]) == fl(6), {'history': ['save plane_IC', 'save ' + what, 'load plane_IC']})
    st = Store(ctx, np, SO, LS, 90010)
    o = st.saver('su_olson', 'square_s', 1.0, 0.0, 1.0, 1.0, False, True, 1.0, True)
    one = np.array([1.0])
    ctx.call('save a wave', o.save_wave_loc, one, one, one, one)
    l = ctx.call('make the loader', LS, 'su_olson', 'square_s', 'transfer', 1.0, False, 0.0, 'run_data.hdf5')
    try:
        l.call_wavepoints(1.0)
        ok = list(l.tpnts) == [1.0]
    except Exception:
        ok = False
    ctx.true('waves are saved to another file', ok, {'history': ['save a wave', 'load it']})


def run(ctx):
    jobs = ctx.quint('store', ctx.pick(25, 600), ctx.pick(24, 60), jobs=ctx.pick(5, 8))
    import numpy as np

    def imp():
        from moving_mesh_transport.loading_and_saving.save_output import save_output
        from moving_mesh_transport.loading_and_saving.load_solution import load_sol
        return save_output, load_sol
    SO, LS = ctx.call('import the stores', imp)
    limits(ctx, np, SO, LS)
    for n, tr in enumerate(ctx.traces(jobs)):
        st = Store(ctx, np, SO, LS, n)
        kept, waves, hist = {}, {}, []
        for i, s in enumerate(tr[1:]):
            op, k, w = s['last']['op'], s['last']['key'], s['last']['wkey']
            hist.append([op, k if op in ('save', 'load') else w])
            where = {'history': hist[-12:]}
            if op == 'save':
                st.save(k, s['sol'], i % 2 == 0)
                kept[json.dumps(k, sort_keys=True)] = s['sol']
            elif op == 'load':
                if s['last']['found']:
                    st.check(k, s['sol'], where)
                else:
                    errors, got = st.load(k)
                    ctx.true('another record', not got, dict(where, key=k))
            elif op == 'saveWave':
                o = st.saver(w['problem'], w['source'], fl(w['t']), fl(w['cv']), 1.0, 1.0, False, True, 1.0, i % 2 == 0)
                a = [np.array(fl(s['wave'][q])) for q in ('times', 'left', 'right', 'heat')]
                ctx.call('save a wave', o.save_wave_loc, *a)
                waves[json.dumps(w, sort_keys=True)] = s['wave']
            else:
                st.check_wave(w, s['wave'], s['last']['found'], where)
        # every record is still there
        for k, v in kept.items():
            st.check(json.loads(k), v, {'history': hist[-24:]})
        for k, v in waves.items():
            st.check_wave(json.loads(k), v, True, {'history': hist[-24:]})
        ctx.done_trace(json.dumps(hist), {'history': [[h[0], h[1]['problem'], h[1]['source']] for h in hist[:8]]})
        if ctx.full():
            return
