"""Builds the objects of the solver from plain parameters."""
from common import D, geometry

DEFAULT = dict(N_ang=4, N_space=4, M=2, tfinal=1.0, x0=0.5, t0=1.0, sigma_t=1.0, sigma_s=1.0,
               source_type=[0, 0, 1, 0, 0, 0], uncollided=0, moving=1, move_type=[1, 0, 0, 0], e_initial=0.0,
               sigma=0.0, particle_v=1.0, edge_v=1.0, cv0=0.0, thick=0, source_strength=1.0, move_factor=1.0,
               l=1.0, save_wave_loc=0, pad=1.0, leader_pad=1.0, boundary_on=[0, 0], boundary_source_strength=0.0,
               boundary_source=0, opacity='constant', Msigma=0, finite_domain=0, domain_width=5.0,
               fake_sedov_v0=0.0, test_dimensional_rhs=0, epsilon=1.0, sphere=0, weights='gauss_legendre',
               nq=12, nt=16, thermal='none', temp_function=[0, 0], xs_rule=None)


class Kit:
    def __init__(self, ctx):
        import numpy as np
        self.ctx, self.np = ctx, np

        def imp():
            from moving_mesh_transport.solver_classes import build_problem, mesh, functions
            return build_problem, mesh, functions
        self.bp, self.mesh_mod, self.fn = ctx.call('import the solver', imp)
        self.geo = [geometry(False), geometry(True)]
        self.opac = {}
        for k in ('constant', 'gaussian', 'siewert1', 'siewert2', 'fake_sedov'):
            self.opac[k] = D(**{j: int(j == k) for j in ('constant', 'gaussian', 'siewert1', 'siewert2', 'fake_sedov')})
        self.thermal = {k: D(**{k: 1}) for k in ('none',)}

    def rule(self, n, name):
        np = self.np
        if isinstance(name, tuple):
            return name
        if name == 'gauss_legendre':
            return np.polynomial.legendre.leggauss(n)
        return self.ctx.call('quadrature', self.fn.quadrature, n, name)

    def params(self, **o):
        p = dict(DEFAULT)
        p.update(o)
        return p

    def thick_quads(self, n):
        np = self.np
        two = np.array([-1.0, 1.0])
        one = lambda k: self.ctx.call('quadrature', self.fn.quadrature, k, 'gauss_lobatto')[0] if k > 2 else two
        return one(n // 2 + 1), one(n // 4 + 1)

    def build(self, p):
        np = self.np
        mus, ws = self.rule(p['N_ang'], p['weights'])
        if p['xs_rule'] is not None:
            xq, wq = self.rule(p['nq'], p['xs_rule'])
        else:
            xq, wq = self.rule(p['nq'], 'gauss_legendre')
        tq, tw = self.rule(p['nt'], 'gauss_legendre')
        qs, qe = self.thick_quads(p['N_space'])
        return self.ctx.call('build the problem', self.bp.build,
            p['N_ang'], p['N_space'], p['M'], p['tfinal'], p['x0'], p['t0'], mus, ws, xq, wq, p['sigma_t'], p['sigma_s'],
            p['source_type'], p['uncollided'], p['moving'], p['move_type'], tq, tw, self.thermal[p['thermal']],
            p['temp_function'], p['e_initial'], p['sigma'], p['particle_v'], p['edge_v'], p['cv0'], p['thick'],
            np.zeros((1, 1, 1)), p['source_strength'], p['move_factor'], p['l'], p['save_wave_loc'], p['pad'],
            p['leader_pad'], qs, qe, p['boundary_on'], p['boundary_source_strength'], p['boundary_source'],
            self.opac[p['opacity']], p['Msigma'], p['finite_domain'], p['domain_width'], p['fake_sedov_v0'],
            p['test_dimensional_rhs'], p['epsilon'], self.geo[1 if p['sphere'] else 0])

    def mesh(self, p):
        np = self.np
        qs, qe = self.thick_quads(p['N_space'])
        return self.ctx.call('make the mesh', self.mesh_mod.mesh_class, p['N_space'], p['x0'], p['tfinal'], p['moving'],
                             p['move_type'], p['source_type'], p['edge_v'], p['thick'], p['move_factor'],
                             np.zeros((1, 1, 1)), p['pad'], p['leader_pad'], qs, qe, p['finite_domain'],
                             p['domain_width'], p['fake_sedov_v0'], p['boundary_on'], p['t0'],
                             self.geo[1 if p['sphere'] else 0])


ST = {'plane': [1, 0, 0, 0, 0, 0], 'dipole': [2, 0, 0, 0, 0, 0], 'squareIC': [0, 1, 0, 0, 0, 0],
      'squareSrc': [0, 0, 1, 0, 0, 0], 'gaussIC': [0, 0, 0, 1, 0, 0], 'mms': [0, 0, 0, 0, 1, 0],
      'gaussSrc': [0, 0, 0, 0, 0, 1], 'boundary': [0, 0, 0, 0, 0, 0]}


class Evolution:
    """The objects one run of the solver shares, and its derivative."""

    def __init__(self, kit, p, tables=None):
        np, ctx = kit.np, kit.ctx
        self.kit, self.p = kit, p

        def imp():
            from moving_mesh_transport.solver_functions import main_functions
            from moving_mesh_transport.solver_classes.matrices import G_L
            return main_functions, G_L
        mf, G_L = ctx.call('import the equations', imp)
        b = kit.build(p)
        self.mesh = kit.mesh(p)
        if tables is None:
            k = p['M'] + 1
            z2, z3 = np.ones((k, k), dtype=np.int64), np.ones((k, k, k), dtype=np.int64)
            tables = (z2, z2, z2, z2, z3, np.zeros((k, k, 3)), np.zeros((k, k, 2)), np.zeros((k, k, 2)),
                      np.zeros((k, k, 6)), np.zeros((k, k, 2)), np.zeros((k, k, 3)),
                      np.zeros((k, k, k, 3)), np.zeros((k, k, k, 2)))
        self.matrices = ctx.call('make the matrices', G_L, b, *tables)
        self.flux = ctx.call('make the flux', mf.LU_surf, b)
        self.source = ctx.call('make the source', mf.source_class, b)
        self.uncollided = ctx.call('make the uncollided solution', mf.uncollided_solution, b)
        self.phi = ctx.call('make the scalar flux', mf.scalar_flux, b)
        self.rhs = ctx.call('make the equations', mf.rhs_class, b)
        self.transfer = ctx.call('make the closure', mf.T_function, b)
        self.sigma = ctx.call('make the opacity', mf.sigma_integrator, b)
        ctx.call('hand over the opacity integrals', self.phi.load_AAA, self.sigma.AAA)

    def __call__(self, t, V):
        """V[angle, cell, j] -> derivative of the same shape"""
        np = self.kit.np
        V = np.ascontiguousarray(V, dtype=float)
        flat = V.reshape(-1).copy()
        out = self.kit.ctx.call('evaluate the derivative', self.rhs.call, float(t), flat, self.mesh, self.matrices, self.flux,
                                self.source, self.uncollided, self.phi, self.transfer, self.sigma)
        self.touched = not np.array_equal(flat, V.reshape(-1))
        return np.array(out).reshape(V.shape)


def from_grid(kit, c, **more):
    """parameters of a spec grid (grid.Cfg)"""
    from common import fl
    return kit.params(**dict(dict(N_space=c['n'], tfinal=fl(c['tf']), x0=fl(c['x0']), t0=fl(c['t0']),
                      source_type=ST[c['lay']], moving=int(c['moving']), edge_v=fl(c['v']), thick=int(c['thick']),
                      pad=fl(c['pad']), finite_domain=int(c['finite']), domain_width=fl(c['width']),
                      fake_sedov_v0=fl(c['v0']), sphere=int(c['sphere'])), **more))


def from_prob(kit, c, q, **more):
    """parameters of a spec problem (grid.Cfg, evolve.Prob)"""
    from common import fl
    e = q['ends']
    return from_grid(kit, c, **dict(dict(N_ang=q['ang'], M=q['m'],
                      sigma_t=fl(q['sigT']), sigma_s=fl(q['sigS']), opacity=q['opac'], Msigma=q['ms'], nq=q['nq'],
                      source_strength=fl(q['strength']), sigma=fl(q['width']),
                      weights='gauss_lobatto' if q['lob'] else 'gauss_legendre',
                      boundary_on=[int(e['left']), int(e['right'])], boundary_source=int(e['kind'] == 'source'),
                      boundary_source_strength=fl(e['strength'])), **more))
