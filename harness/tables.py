"""The coefficient files of the spherical element matrices.

The repository does not ship them (they come out of a computer algebra
script), so they are computed here with rational arithmetic in the layout
Chebyshev_matrix_reader.file_reader expects, and read back through it."""
import math
import os
from fractions import Fraction as F


def cheb(n):
    a, b = [F(1)], [F(0), F(1)]
    for _ in range(n):
        a, b = b, [x - y for x, y in zip([F(0)] + [2 * c for c in b], a + [F(0)] * (len(b) + 1 - len(a)))]
    return a


def mulp(p, q):
    r = [F(0)] * (len(p) + len(q) - 1)
    for i, x in enumerate(p):
        for j, y in enumerate(q):
            r[i + j] += x * y
    return r


def diff(p):
    return [k * c for k, c in enumerate(p)][1:] or [F(0)]


def integ(p):
    return sum((2 * c / (k + 1) for k, c in enumerate(p) if k % 2 == 0), F(0))


def coefficients(K):
    T = [cheb(n) for n in range(K)]
    dT = [diff(t) for t in T]
    aa, ab, bb = [F(1, 4), F(-1, 2), F(1, 4)], [F(1, 2), F(0), F(-1, 2)], [F(1, 4), F(1, 2), F(1, 4)]
    ra, rb = [F(1, 2), F(-1, 2)], [F(1, 2), F(1, 2)]
    mass, jm, lm = {}, {}, {}
    for i in range(K):
        for j in range(K):
            tt = mulp(T[i], T[j])
            lone = (i == 0) != (j == 0)
            even = (i + j) % 2 == 0
            f = F(1) if (i == j == 0) or (lone and even) else F(2)
            v = [f * integ(mulp(p, tt)) / 2 for p in (aa, ab, bb)]
            mass[i, j] = v if even else [v[0], v[2]]
            f = F(1) if i == j == 0 else F(2)
            jm[i, j] = [f * integ(mulp(p, tt)) / 2 for p in (ra, rb)]
            f = F(1) if j == 0 else F(2)
            td = mulp(T[j], dT[i])
            if even:
                x = f * integ(mulp([F(0), F(1)], td)) / 2
                lm[i, j] = [x, x]
            else:
                lm[i, j] = [-f * integ(mulp(p, td)) for p in (aa, ab, bb)]
    return mass, jm, lm


def write(folder, K):
    import h5py
    import numpy as np
    os.makedirs(folder, exist_ok=True)
    mass, jm, lm = coefficients(K)

    def lcm(v):
        d = 1
        for x in v:
            d = d * x.denominator // math.gcd(d, x.denominator)
        return d
    for name, tab in (('MassMatrix', mass), ('JMatrix', jm), ('LMatrix', lm)):
        with h5py.File(os.path.join(folder, name + '.h5'), 'w') as f:
            den = np.ones((K, K), dtype=np.int64)
            g = f.create_group('coefficients')
            for (i, j), v in tab.items():
                den[i, j] = lcm(v)
                g.create_dataset('Element%d%d' % (i + 1, j + 1), data=np.array([float(x * int(den[i, j])) for x in v]))
            f.create_dataset('denominators', data=den)
    for name, shape in (('GMatrix', (K, K)), ('VVMatrix', (K, K, K))):
        with h5py.File(os.path.join(folder, name + '.h5'), 'w') as f:
            f.create_dataset('denominators', data=np.ones(shape, dtype=np.int64))
            f.create_group('coefficients')


def read(ctx, K):
    """through the reader of the repository, from the scratch directory"""
    write('moving_mesh_transport/matrix_files', K)

    def imp():
        from moving_mesh_transport.solver_functions.Chebyshev_matrix_reader import file_reader
        return file_reader
    fr = ctx.call('import the coefficient reader', imp)
    return ctx.call('read the coefficient files', lambda: fr()())
