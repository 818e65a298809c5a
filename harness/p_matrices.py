"""P08: element matrices and coefficient files, against spec/matrices.qnt."""
import json
import os
from common import fl
from kit import Kit
import tables

NAMES = ('MassMatrix', 'JMatrix', 'GMatrix', 'LMatrix', 'VVMatrix')


def files(ctx, np, reader, s, k):
    """store what the specification drew, read it with the repository"""
    import h5py
    d = os.path.join(ctx.scratch, 'tables%d' % k)
    os.makedirs(d)
    K = s['filed']
    path = {n: os.path.join(d, n + '.h5') for n in NAMES}
    for n, t in (('MassMatrix', s['massF']), ('JMatrix', s['jF']), ('LMatrix', s['lF'])):
        with h5py.File(path[n], 'w') as f:
            f.create_dataset('denominators', data=np.array(t['denom'], dtype=np.int64))
            g = f.create_group('coefficients')
            for i in range(K):
                for j in range(K):
                    g.create_dataset('Element%d%d' % (i + 1, j + 1), data=np.array(t['coef'][i][j], dtype=float).reshape(1, -1))
    for n, shape in (('GMatrix', (K, K)), ('VVMatrix', (K, K, K))):
        with h5py.File(path[n], 'w') as f:
            f.create_dataset('denominators', data=np.ones(shape, dtype=np.int64))
            f.create_group('coefficients')
    out = ctx.call('read the coefficient files', lambda: reader(path['MassMatrix'], path['JMatrix'], path['GMatrix'],
                                                                 path['LMatrix'], path['VVMatrix'])())
    det = {'size': K}
    for q, n in ((0, 'massF'), (1, 'jF'), (3, 'lF')):
        ctx.same('denominators', out[q], s[n]['denom'], 0.0, dict(det, table=n))
    me, mo, jc, le, lo = out[5], out[6], out[7], out[9], out[10]
    for i in range(K):
        for j in range(K):
            dd = dict(det, i=i, j=j)
            even = (i + j) % 2 == 0
            ctx.same('mass coefficients', (me if even else mo)[i, j], s['massF']['coef'][i][j], 0.0, dd)
            ctx.same('curvature coefficients', jc[i, j], s['jF']['coef'][i][j], 0.0, dd)
            if i > 0:
                ctx.same('streaming coefficients', (le if even else lo)[i, j], s['lF']['coef'][i][j], 0.0, dd)
    # reading leaves the files as they were
    for n, t in (('MassMatrix', s['massF']), ('JMatrix', s['jF']), ('LMatrix', s['lF'])):
        with h5py.File(path[n], 'r') as f:
            ctx.same('files', f['denominators'][:], t['denom'], 0.0, dict(det, table=n))


def run(ctx):
    jobs = ctx.quint('matrices', ctx.pick(9, 400), ctx.pick(9, 14), jobs=ctx.pick(6, 8))
    kit = Kit(ctx)
    np = kit.np
    tabs = tables.read(ctx, 10)

    def imp():
        from moving_mesh_transport.solver_classes.matrices import G_L
        from moving_mesh_transport.solver_classes.GMAT_sphere import GMatrix, MPRIME
        from moving_mesh_transport.solver_functions.Chebyshev_matrix_reader import file_reader
        return G_L, GMatrix, MPRIME, file_reader
    G_L, GM, MP, reader = ctx.call('import the matrices', imp)
    cache, nfile = {}, 0
    for tr in ctx.traces(jobs):
        sph, m = tr[0]['sphere'], tr[0]['m']
        b = kit.build(kit.params(M=m, sphere=sph))
        obj = ctx.call('make the matrices', G_L, b, *tabs)
        for s in tr[1:]:
            c = {k: fl(v) for k, v in s['cell'].items()}
            ctx.call('make the matrices of a cell', obj.make_all_matrices, c['a'], c['b'], c['da'], c['db'])
            det = {'sphere': sph, 'order': m, 'cell': c}
            big = float(np.max(np.abs(fl(s['streamM'])))) + 1.0
            ctx.same('streaming', obj.L, fl(s['streamM']), 1e-9, det, scale=big)
            big = float(np.max(np.abs(fl(s['driftM'])))) + 1.0
            ctx.same('drift', obj.G, fl(s['driftM']), 1e-9, det, scale=big)
            if sph:
                ctx.same('mass', obj.Mass, fl(s['massM']), 1e-10, det)
                ctx.same('curvature', obj.J, fl(s['curvM']), 1e-10, det)
                ctx.same('mass rate', obj.MPRIME, fl(s['rateM']), 1e-10, det)
            ctx.distinct.add(json.dumps([sph, m, s['cell']], sort_keys=True))
            if s['filed']:
                nfile += 1
                files(ctx, np, reader, s, nfile)
        ctx.done_trace(None, {'sphere': sph, 'order': m, 'cells': [fl([x['cell']['a'], x['cell']['b']]) for x in tr[1:4]]})
        if ctx.full():
            return
    ctx.notes['coefficient files read back'] = nfile
