PLANTS = []


def plant(id, property, edits, demo, needs, breaks):
    PLANTS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


C = 'solver_classes/'
plant('grid_end', 'P01', [(C + 'mesh.py', '- self.edges0_2 + final_array) / ((self.t0-self.tfinal)**2)', '- self.edges0_2 + final_array) / (self.tfinal**2 - self.t0**2)')],
      '''
      from lib import *
      k = Kit(Ctx())
      p = k.params(N_space=8, finite_domain=1, domain_width=10.0, t0=1.0, tfinal=3.0, x0=0.5, pad=4.0, edge_v=1.0)
      m = k.mesh(p)
      m.move(3.0)
      import numpy as np
      assert np.allclose(m.edges, np.linspace(-4, 4, 9)), m.edges
      ''', 'a square source in a finite domain, at a time after the source is switched off',
      'the accelerated phase does not end on the even grid of the final time')
plant('grid_speed', 'P02', [(C + 'mesh.py', 'self.Dedges = self.c1s * tnew1 + self.Dedges_const', 'self.Dedges = 0.5 * self.c1s * tnew1 + self.Dedges_const')],
      '''
      from lib import *
      k = Kit(Ctx())
      p = k.params(N_space=8, finite_domain=1, domain_width=10.0, t0=1.0, tfinal=3.0, x0=0.5, pad=4.0, edge_v=1.0)
      m = k.mesh(p)
      import numpy as np
      d = 1e-5
      m.move(2.0 + d); a = m.edges.copy()
      m.move(2.0 - d); b = m.edges.copy()
      m.move(2.0)
      assert np.allclose(m.Dedges, (a - b) / 2 / d, atol=1e-6), (m.Dedges, (a - b) / 2 / d)
      ''', 'a square source in a finite domain, at a time after the source is switched off',
      'the reported velocity is not the derivative of the reported position in the accelerated phase')
plant('grid_memory', 'P03', [(C + 'mesh.py', 'final_pos = self.pad\n', 'final_pos = max(self.pad, self.edges[-1])\n')],
      '''
      from lib import *
      k = Kit(Ctx())
      p = k.params(N_space=8, finite_domain=1, domain_width=20.0, t0=2.0, tfinal=3.0, x0=0.5, pad=2.0, edge_v=1.0)
      import numpy as np
      m = k.mesh(p)
      m.move(2.7); fresh = m.edges.copy()
      m = k.mesh(p)
      m.move(1.9); m.move(2.1); m.move(2.7)
      assert np.allclose(m.edges, fresh), (m.edges, fresh)
      ''', 'a finite square source whose grid has grown beyond the final width when the source is switched off, and a history of requests',
      'where the grid is going depends on where it was when last asked')
plant('upwind', 'P04', [(C + 'numerical_flux.py', 'if leftspeed >= 0:', 'if mul >= 0:'), (C + 'numerical_flux.py', 'elif leftspeed < 0:', 'elif mul < 0:')],
      '''
      from lib import *
      import numpy as np
      k = Kit(Ctx())
      from moving_mesh_transport.solver_classes.numerical_flux import LU_surf
      p = k.params(N_space=2, M=1, source_type=[0, 0, 0, 0, 0, 1], sigma=0.5)
      lu, m = LU_surf(k.build(p)), k.mesh(p)
      m.edges, m.Dedges = np.array([-1.0, 0.2, 1.0]), np.array([0.0, 0.5, 0.0])
      u = np.array([[1.0, 0.3], [0.4, -0.2]])
      tot = 0
      for c in range(2):
          lu.make_LU(0.1, m, u, c, 0.3, u[0])
          tot += np.sqrt(m.edges[c + 1] - m.edges[c]) * lu.LU[0]
      # what crosses the inner face cancels: only the ends are left (nothing enters)
      out = 0.3 * (0.4 + np.sqrt(3) * -0.2) / np.sqrt(0.8)
      assert abs(tot - out) < 1e-12, (tot, out)
      ''', 'a face that overtakes the particles of a direction', 'the face takes the wrong side, and its two cells disagree about what crosses')
plant('high_order', 'P05', [(C + 'matrices.py', 'if i > j and (i+j) % 2 !=0: ', 'if i == j + 1: ')],
      '''
      from lib import *
      import numpy as np
      k = Kit(Ctx())
      p = k.params(N_space=1, M=3, N_ang=2, source_type=[0, 0, 0, 1, 0, 0], sigma=0.5, sigma_s=0.0, moving=0, x0=0.5, tfinal=0.5)
      ev = Evolution(k, p)
      V = np.zeros((2, 1, 4)); V[1, 0, 0] = 1.0
      d = ev(0.2, V)
      # a constant intensity in one cell that nothing enters: moments of -mu dpsi/dx - psi with outflow
      h = ev.mesh.edges[1] - ev.mesh.edges[0]
      mu = 1 / np.sqrt(3)
      want = [-mu / h * np.sqrt(2 * i + 1) + (0 if i % 2 == 0 else 2 * mu / h * np.sqrt(2 * i + 1)) - (1.0 if i == 0 else 0.0) for i in range(4)]
      assert np.allclose(d[1, 0], want), (d[1, 0], want)
      ''', 'expansions of order three or more', 'streaming of the constant part into the third moment is lost')
plant('own_state', 'P07', [(C + 'rhs_class_1.py', '        V_new = V.copy().reshape((self.N_ang, self.N_space, self.M+1))\n', '        V_new = V.reshape((self.N_ang, self.N_space, self.M+1))\n')],
      '''
      from lib import *
      import numpy as np
      k = Kit(Ctx())
      p = k.params(N_space=2, M=1, N_ang=2, source_type=[0, 0, 0, 1, 0, 0], sigma=0.5)
      V = np.random.default_rng(1).uniform(size=8)
      ev = Evolution(k, p)
      keep = V.copy()
      ev.rhs.call(0.1, V, ev.mesh, ev.matrices, ev.flux, ev.source, ev.uncollided, ev.phi, ev.transfer, ev.sigma)
      assert np.array_equal(V, keep), (V, keep)
      ''', 'an integrator that still needs the state it passed in', 'the state passed in is overwritten with the derivative')
plant('one_edge', 'P09', [(C + 'opacity.py', 'if (edges[i] != self.edges[i]) or (edges[i+1] != self.edges[i+1]) or self.moving == True :', 'if (edges[i] != self.edges[i]) or self.moving == True :')],
      '''
      from lib import *
      import numpy as np
      k = Kit(Ctx())
      from moving_mesh_transport.solver_functions.main_functions import sigma_integrator
      p = k.params(N_space=2, M=1, opacity='gaussian', Msigma=2)
      s = sigma_integrator(k.build(p))
      s.sigma_moments(np.array([-1.0, 0.0, 1.0]), 0.1)
      s.sigma_moments(np.array([-2.0, 0.0, 2.0]), 0.2)
      s.make_vectors(np.array([-2.0, 0.0, 2.0]), np.array([1.0, 0.0]), 0)
      left = s.VV[0]
      s.make_vectors(np.array([-2.0, 0.0, 2.0]), np.array([1.0, 0.0]), 1)
      assert abs(left - s.VV[0]) < 1e-9, (left, s.VV)
      ''', 'a space dependent opacity and a cell of which only the right edge moves', 'the cell keeps the cross section it had')
plant('static_pulse', 'P10', [(C + 'sources.py', 'if (self.source_type[0] == 1) and  (self.moving == True):', 'if self.source_type[0] == 1:')],
      '''
      from lib import *
      import numpy as np
      k = Kit(Ctx())
      p = k.params(N_space=3, M=1, N_ang=2, source_type=[1, 0, 0, 0, 0, 0], x0=1e-10, uncollided=1, moving=0, tfinal=4.0)
      ev = Evolution(k, p)
      # an outer cell the pulse has not reached
      ev.source.make_source(0.5, 2.0, 4.0, ev.uncollided)
      assert np.allclose(ev.source.S, 0), ev.source.S
      ''', 'the analytic plane pulse on a static grid, before it has filled it', 'cells the pulse has not reached emit')
plant('last_ray', 'P06', [(C + 'functions.py', '         mup = 1\n', '         mup = x[ix]\n')],
      '''
      from lib import *
      import numpy as np
      k = Kit(Ctx())
      mu, w = np.polynomial.legendre.leggauss(4)
      psi = np.array([0.3, 0.7, 0.2, 0.9])
      d = [k.fn.finite_diff_uneven(mu, i, psi, i == 0, i == 3) for i in range(4)]
      # the last ray's range of angles reaches up to the axis
      lo = 0.5 * (mu[2] + mu[3])
      assert abs(d[3] + (1 - lo**2) * 0.5 * (psi[2] + psi[3]) / (1 - lo)) < 1e-12, d
      ''', 'a sphere and angles that do not include the axis (Gauss-Legendre)', 'the redistribution into the last ray is divided by the wrong range of angles')
plant('curvature_75', 'P08', [(C + 'GMAT_sphere.py', 'return (-2*(452*a*ap + 643*ap*b + 643*a*bp + 452*b*bp))/6435.\n\n        elif j == 8:\n\n            return (34*', 'return (-2*(452*a*ap + 463*ap*b + 463*a*bp + 452*b*bp))/6435.\n\n        elif j == 8:\n\n            return (34*')],
      '''
      from lib import *
      import numpy as np
      k = Kit(Ctx())
      from moving_mesh_transport.solver_classes.GMAT_sphere import MPRIME
      a, b, ap, bp = 0.3, 1.1, 0.4, 0.9
      n = 40
      z = np.cos((2 * np.arange(1, n + 1) - 1) * np.pi / 2 / n)
      r = (a + b) / 2 + (b - a) / 2 * z
      rp = (ap * (b - r) + bp * (r - a)) / (b - a)
      T = np.polynomial.chebyshev.chebval
      for i in range(11):
          for j in range(11):
              e = np.eye(11)
              f = (2 if i and j else 1 if i == j == 0 else np.sqrt(2))
              ti, tj = T(z, e[i]), T(z, e[j])
              got = MPRIME(i, j, a, b, ap, bp)
              other = MPRIME(j, i, a, b, ap, bp)
              assert abs(got - other) < 1e-12, (i, j, got, other)
      ''', 'a sphere, an expansion of order seven and a moving cell', 'the coupling of the fifth and seventh moment by the motion is wrong, and not symmetric any more')
plant('stretch', 'P08', [(C + 'matrices.py', "                    if (i+j)%2 ==0:\n                        self.G[i,j] = -math.sqrt(2*j+1)*math.sqrt(2*i+1)*ih*(b-a)", "                    if (i+j)%2 ==0:\n                        self.G[i,j] = -0.5*math.sqrt(2*j+1)*math.sqrt(2*i+1)*ih*(b-a)")],
      '''
      from lib import *
      import numpy as np
      k = Kit(Ctx())
      p = k.params(N_space=4, M=2)
      m = Evolution(k, p).matrices
      m.make_all_matrices(-0.2, 0.6, -0.3, 0.5)
      x, w = np.polynomial.legendre.leggauss(12)
      h = 0.8
      L = [np.polynomial.legendre.Legendre.basis(n) for n in range(3)]
      # G_ij = int B_j dB_i/dt over the moving cell
      y = 0.2 + 0.4 * x
      s = (-0.3 * (0.6 - y) + 0.5 * (y + 0.2)) / h
      for i in range(3):
          for j in range(3):
              f = np.sqrt((2*i+1) * (2*j+1)) / h
              want = np.sum(w * h / 2 * f * L[j](x) * (-0.8 / h / 2 * L[i](x) - L[i].deriv()(x) * 2 / h * s))
              assert abs(m.G[i, j] - want) < 1e-10, (i, j, m.G[i, j], want)
      ''', 'order two or more and a cell that stretches', 'the stretching couples the moments two apart at half its strength')
plant('gauss_off', 'P11', [(C + 'uncollided_solutions.py', 't_ceiling = min(t,self.t0)', 't_ceiling = min(t,self.tfinal)')],
      '''
      from lib import *
      import numpy as np, math
      k = Kit(Ctx())
      p = k.params(N_space=4, M=1, N_ang=4, source_type=[0, 0, 0, 0, 0, 1], sigma=0.5, t0=1.0, tfinal=4.0, uncollided=1, nt=64)
      ev = Evolution(k, p)
      got = ev.uncollided.uncollided_solution(np.array([0.3]), 2.5)[0]
      x, w = np.polynomial.legendre.leggauss(200)
      tau = (x + 1) / 2
      tp = 2.5 - tau
      f = np.array([math.exp(-q) * (math.erf((q - 0.3) / 0.5) + math.erf((q + 0.3) / 0.5)) / q / 4 for q in tp]) * math.sqrt(math.pi) * 0.5
      assert abs(got - np.sum(w / 2 * f)) < 1e-8, (got, np.sum(w / 2 * f))
      ''', 'a gaussian source that is switched off before the end, at a later time', 'the source goes on emitting uncollided particles')
plant('front_square', 'P11', [(C + 'functions.py', "        tau_3 = min(end, t - x0 + abs(x))\n        if tau_3 < 0.0:", "        tau_3 = t - x0 + abs(x)\n        if tau_3 < 0.0:")],
      '''
      from lib import *
      import numpy as np
      k = Kit(Ctx())
      f = k.fn.uncollided_square_s2
      x, w = np.polynomial.legendre.leggauss(400)
      def want(x_, t, x0, t0):
          # emitted at tau within |y| <= x0, arriving within t - tau
          n = 0.0
          for a, b in zip(np.linspace(0, min(t, t0), 41)[:-1], np.linspace(0, min(t, t0), 41)[1:]):
              for xi, wi in zip(x[::1], w):
                  tau = (a + b) / 2 + (b - a) / 2 * xi
                  s = t - tau
                  l, r = max(-x0, x_ - s), min(x0, x_ + s)
                  if r > l:
                      n += wi * (b - a) / 2 * np.exp(-s) * (r - l) / 2 / s
          return n
      for q in ((0.2, 1.0), (0.9, 1.0), (0.2, 6.0), (1.5, 6.0), (5.3, 6.0)):
          g, e = f(q[0], q[1], 0.5, 5.0), want(q[0], q[1], 0.5, 5.0)
          assert abs(g - e) < 1e-4, (q, g, e)
      ''', 'a square source and a point outside of it', 'emission that has not arrived yet is subtracted')
plant('walk', 'P12', [(C + 'make_phi.py', '''        for ang in range(self.N_ang):
            for count in range(self.xs.size):
                idx = np.searchsorted(self.edges[:], self.xs[count])
                if (idx == 0):
                    idx = 1
''', '''        for ang in range(self.N_ang):
            idx = 1
            for count in range(self.xs.size):
                while idx < self.edges.size and self.edges[idx] < self.xs[count]:
                    idx += 1
''')],
      '''
      from lib import *
      import numpy as np
      k = Kit(Ctx())
      from moving_mesh_transport.solver_functions.main_functions import make_output
      p = k.params(N_space=3, M=0, N_ang=2)
      ev = Evolution(k, p)
      u = np.array([[[1.0], [2.0], [3.0]], [[4.0], [5.0], [6.0]]])
      o = make_output(0.5, 2, np.array([1.0, 1.0]), np.array([1.5, -1.5, 0.0]), u, 0, np.array([-2.0, -1.0, 1.0, 2.0]), 0, k.geo[0])
      phi = o.make_phi(ev.uncollided)
      assert np.allclose(phi, [9.0, 5.0, 7.0 / np.sqrt(2)]), phi
      ''', 'a list of points that is not sorted', 'a point to the left of the one before it gets the cell of the one before it')
plant('exit_points', 'P12', [(C + 'make_phi.py', 'x_eval = np.array([self.edges[0], self.edges[-1]])', 'x_eval = np.array([self.xs[0], self.xs[-1]])')],
      '''
      from lib import *
      import numpy as np
      k = Kit(Ctx())
      from moving_mesh_transport.solver_functions.main_functions import make_output
      p = k.params(N_space=3, M=1, N_ang=2)
      ev = Evolution(k, p)
      u = np.arange(12.0).reshape(2, 3, 2)
      e = np.array([-2.0, -1.0, 1.0, 2.0])
      a = make_output(0.5, 2, np.array([1.0, 1.0]), np.array([-2.0, 2.0]), u, 1, e, 0, k.geo[0]).get_exit_dist(ev.uncollided)
      b = make_output(0.5, 2, np.array([1.0, 1.0]), np.array([-1.9, 0.4]), u, 1, e, 0, k.geo[0]).get_exit_dist(ev.uncollided)
      assert np.allclose(a[0], b[0]) and np.allclose(a[1], b[1]), (a, b)
      ''', 'points that do not include the ends of the grid', 'what leaves is taken where the list of points ends')
plant('stale_edges', 'P14', [('loading_and_saving/save_output.py', """        if f[folder_name].__contains__('edges/' + full_str):
            del f[folder_name]['edges/' + full_str]
            
        dset4  = f[folder_name].create_dataset('edges/' + full_str, data = edges) 
""", """        if not f[folder_name].__contains__('edges/' + full_str):
            dset4  = f[folder_name].create_dataset('edges/' + full_str, data = edges) 
""")],
      '''
      import os, sys
      sys.path.insert(0, os.getcwd())
      from lib import *
      import numpy as np, h5py
      from moving_mesh_transport.loading_and_saving.save_output import save_output
      from moving_mesh_transport.loading_and_saving.load_solution import load_sol
      os.makedirs('moving_mesh_transport/local_run_data')
      h5py.File('moving_mesh_transport/local_run_data/run_data.hdf5', 'w').close()
      def save(k):
          s = save_output(1.0, [2], [1], [0, 1, 0, 0, 0, 0], True, True, 'cells', 0, [0, 0], 1.0, 0, [0.5], 0.0, 'transport', [2], 1.0)
          s.save_solution(np.arange(3.0), np.arange(3.0) * k, np.zeros(3), np.ones((2, 2, 2)) * k, np.arange(3.0) * k, 0.5, np.ones(2), 2, False, np.ones((2, 3)) * k, 1.0, np.array([-0.5, 0.5]))
      save(1); save(2)
      l = load_sol('transport', 'square_IC', 'rad', 1.0, False, 0.0, 'run_data.hdf5')
      l.call_sol(1.0, 1, 0.5, 2, 'rad', True, True)
      assert np.array_equal(l.edges, np.arange(3.0) * 2), l.edges
      assert np.array_equal(l.phi, np.arange(3.0) * 2), l.phi
      ''', 'saving twice under the same parameters with another grid', 'the grid of the first save stays')
plant('close_times', 'P14', [('loading_and_saving/save_output.py', "'_t = ' + str(self.tfinal)", "'_t = %g' % self.tfinal"), ('loading_and_saving/load_solution.py', "'_t = ' + str(tfinal)", "'_t = %g' % tfinal")],
      '''
      from lib import *
      import numpy as np, h5py
      from moving_mesh_transport.loading_and_saving.save_output import save_output
      from moving_mesh_transport.loading_and_saving.load_solution import load_sol
      os.makedirs('moving_mesh_transport/local_run_data')
      h5py.File('moving_mesh_transport/local_run_data/run_data.hdf5', 'w').close()
      for t in (31.6228, 31.62278):
          s = save_output(t, [2], [1], [0, 1, 0, 0, 0, 0], True, True, 'cells', 0, [0, 0], 1.0, 0, [0.5], 0.0, 'transport', [2], 1.0)
          s.save_solution(np.arange(3.0), np.arange(3.0) * t, np.zeros(3), np.ones((2, 2, 2)), np.arange(3.0), 0.5, np.ones(2), 2, False, np.ones((2, 3)), 1.0, np.array([-0.5, 0.5]))
      for t in (31.6228, 31.62278):
          l = load_sol('transport', 'square_IC', 'rad', 1.0, False, 0.0, 'run_data.hdf5')
          l.call_sol(t, 1, 0.5, 2, 'rad', True, True)
          assert np.array_equal(l.phi, np.arange(3.0) * t), (t, l.phi)
      ''', 'two times that agree in their first six digits', 'one record replaces the other, and is returned for both')
plant('study_order', 'P15', [('solver_functions/main_functions.py', "    if major == 'cells':\n        M = Ms[count]\n", "    if major == 'cells':\n        M = Ms[0]\n")],
      '''
      from lib import *
      from moving_mesh_transport.solver_functions.main_functions import parameter_function
      import numpy as np
      assert [parameter_function('cells', np.array([2, 4]), np.array([1, 3]), i) for i in (0, 1)] == [(2, 1), (4, 3)]
      ''', 'a study over cells whose orders differ', 'every run takes the first order')
plant('late_front', 'P17', [('solver_functions/main_functions.py', "output = make_output(tt, N_ang, ws, xs, sol.y[:,it]", "output = make_output(tfinal, N_ang, ws, xs, sol.y[:,it]")],
      '''
      from lib import *
      import numpy as np
      k = Kit(Ctx())
      from moving_mesh_transport.solver_functions import main_functions as mf
      from moving_mesh_transport.loading_and_saving import load_parameters
      import inspect, ast
      seen = []
      real = mf.make_output
      class Sol:
          pass
      class Stop(Exception):
          pass
      def fake(fun, span, y0, t_eval=None, **kw):
          s = Sol(); s.t = np.array(t_eval); s.y = np.tile(y0[:, None], (1, len(t_eval))); return s
      class Out:
          def __init__(self, t, *a):
              seen.append(float(t)); self.xs = a[2]; self.n = a[0]
              self.psi_out = np.zeros((self.n, self.xs.size))
          def make_phi(self, u): return self.xs * 0
          def get_exit_dist(self, u): return np.zeros((self.n, 2)), np.zeros(2)
          def make_e(self): return self.xs * 0
      mf.make_output = Out
      mf.integrate.solve_ivp, keep = fake, mf.integrate.solve_ivp
      class R:
          def __call__(self):
              k_ = 2
              z2, z3 = np.ones((k_, k_), dtype=np.int64), np.ones((k_, k_, k_), dtype=np.int64)
              return (z2, z2, z2, z2, z3, np.zeros((k_, k_, 3)), np.zeros((k_, k_, 2)), np.zeros((k_, k_, 2)), np.zeros((k_, k_, 6)),
                      np.zeros((k_, k_, 2)), np.zeros((k_, k_, 3)), np.zeros((k_, k_, k_, 3)), np.zeros((k_, k_, k_, 2)))
      mf.file_reader = R
      o = D(constant=1, gaussian=0, siewert1=0, siewert2=0, fake_sedov=0)
      mf.solve(2.0, 4, 2, 1, 0.5, 2.0, 1.0, 1.0, 8, [0, 1, 0, 0, 0, 0], 1, 1, np.array([1, 0, 0, 0]), D(none=1), np.array([0, 0]), 1e-6, 1e-8, 0.0, 0,
               np.array([0.0]), 'gauss_legendre', 0.0, 1.0, 1.0, 0.0, 0, 0, 0, 10.0, np.zeros((1, 1, 1)), 1e-4, 1.0, 1.0, 'RK45', 1.0, 0, 1.0, 1.0, 5,
               1, np.array([0.5, 1.0, 2.0]), np.array([0, 0]), 0.0, 0, o, 0, 0, 5.0, 0.0, 0, 1.0, k.geo[0])
      assert seen == [0.5, 1.0, 2.0], seen
      ''', 'evaluation times before the end, and an analytic uncollided part', 'the uncollided part of the end is added to the earlier solutions')
plant('unsorted_points', 'P18', [(C + 'functions.py', 'xs_list[k*ixx:(k+1)*ixx] = np.sort(xL + (xs_quad + 1)*(xR - xL)/2)', 'xs_list[k*ixx:(k+1)*ixx] = xL + (xs_quad + 1)*(xR - xL)/2')],
      '''
      from lib import *
      import numpy as np
      k = Kit(Ctx())
      xs = k.fn.find_nodes(np.array([0.0, 0.5, 2.0]), 3, k.geo[1])
      assert np.all(np.diff(xs) > 0), xs
      ''', 'a sphere and an order of two or more', 'the points of a cell run backwards')
plant('last_knot', 'P19', [(C + 'cubic_spline.py', 'if self.datax[knot]<=x[i]<=self.datax[knot+1]:', 'if self.datax[knot]<=x[i]<self.datax[knot+1]:')],
      '''
      from lib import *
      import matplotlib; matplotlib.use('Agg')
      import numpy as np
      from moving_mesh_transport.solver_classes.cubic_spline import cubic_spline
      s = cubic_spline(np.array([0.0, 1.0, 2.5]), np.array([1.0, 3.0, 2.0]))
      assert np.allclose(s.eval_spline(np.array([0.0, 1.0, 2.5])), [1.0, 3.0, 2.0])
      ''', 'the last abscissa itself', 'the spline is zero at its last point')
plant('slope_8', 'P20', [(C + 'functions.py', '(-2520*z + 27720*z**3 - 72072*z**5 + 51480*z**7)/128.', '(-2520*z + 27720*z**3 - 72072*z**5 + 51840*z**7)/128.')],
      '''
      from lib import *
      import numpy as np
      k = Kit(Ctx())
      for n in range(12):
          x = np.array([0.3, 0.8, 1.1])
          d = 1e-6
          num = (k.fn.normPn(n, x + d, 0.2, 1.3) - k.fn.normPn(n, x - d, 0.2, 1.3)) / 2 / d
          got = k.fn.dx_normPn(n, x, 0.2, 1.3)
          assert np.allclose(got, num, rtol=1e-5, atol=1e-4), (n, got, num)
      ''', 'order eight', 'the derivative of the eighth basis function is wrong')
plant('no_negative', 'P21', [(C + 'radiative_transfer.py', 'self.fudge_factor[count] = -1.', 'self.fudge_factor[count] = 0.')],
      '''
      from lib import *
      import numpy as np
      k = Kit(Ctx())
      from moving_mesh_transport.solver_functions.main_functions import T_function
      p = k.params(N_space=2, M=1, temp_function=[1, 0])
      b = k.build(p)
      b.thermal_couple['none'] = 0
      t = T_function(b)
      e = np.array([0.1, 0.4])
      t.make_H(0.0, 1.0, e)
      assert np.allclose(t.H, e), t.H
      ''', 'a cell whose energy density is negative somewhere', 'the negative part is cut off')
plant('gauss_on', 'P10', [(C + 'sources.py', '            if t <= self.t0:\n                temp[ix] = math.exp(-x*x/self.sigma**2)', '            if t <= self.tfinal:\n                temp[ix] = math.exp(-x*x/self.sigma**2)')],
      '''
      from lib import *
      import numpy as np
      k = Kit(Ctx())
      p = k.params(N_space=2, M=1, N_ang=4, source_type=[0, 0, 0, 0, 0, 1], sigma=0.5, t0=1.0, tfinal=4.0)
      ev = Evolution(k, p)
      ev.source.make_source(0.5, -1.0, 1.0, ev.uncollided)
      assert ev.source.S[0] > 0.1
      ev.source.make_source(2.5, -1.0, 1.0, ev.uncollided)
      assert np.allclose(ev.source.S, 0), ev.source.S
      ''', 'a numerically treated gaussian source that is switched off before the end', 'it goes on')
plant('scatter_order', 'P09', [(C + 'phi_class.py', 'for k in range(self.Msigma + 1):', 'for k in range(min(self.M, self.Msigma) + 1):')],
      '''
      from lib import *
      import numpy as np
      k = Kit(Ctx())
      p = k.params(N_space=1, M=1, N_ang=2, opacity='gaussian', Msigma=2, sigma_t=1.0, sigma_s=1.0, source_type=[0, 0, 0, 1, 0, 0], sigma=0.5)
      ev = Evolution(k, p)
      V = np.zeros((2, 1, 2)); V[:, 0, 0] = 0.7; V[:, 0, 1] = 0.3
      e = np.array([-2.0, 2.0])
      ev.sigma.sigma_moments(e, 0.1)
      ev.phi.get_coeffs(ev.sigma)
      ev.phi.make_P(V[:, 0, :], 0, -2.0, 2.0)
      ev.sigma.make_vectors(e, V[0, 0], 0)
      # the same intensity in every direction: what is absorbed is scattered back
      assert np.allclose(ev.phi.scalar_flux_term, ev.sigma.VV), (ev.phi.scalar_flux_term, ev.sigma.VV)
      ''', 'an opacity expanded to a higher order than the intensity', 'scattering leaves out the higher part of the cross section')
plant('stale_source', 'P07', [(C + 'sources.py', '                elif self.source_type[5] == 1:\n', '                elif self.source_type[5] == 1 and t <= self.t0:\n')],
      """
      from lib import *
      import numpy as np
      k = Kit(Ctx())
      p = k.params(N_space=2, M=1, N_ang=2, source_type=[0, 0, 0, 0, 0, 1], sigma=0.8, x0=0.5, t0=1.0, tfinal=4.0, uncollided=0)
      V = np.zeros((2, 2, 2))
      ev = Evolution(k, p)
      want = ev(2.0, V)
      ev(0.5, V)
      got = ev(2.0, V)
      assert np.allclose(got, want), (got, want)
      """, 'a gaussian source that has been switched off, after requests for times while it was on', 'the last emission stays')
R = 'solver_functions/run_functions.py'
plant('late_rays', 'P22', [(R, '            return np.exp(-mfp / mu) * np.heaviside(mu - abs(x - x0)/ (tfinal), 0) * np.heaviside(abs(x0-x) - (tfinal-self.t0_source)*mu,0)',
                            '            return np.exp(-mfp / mu) * np.heaviside(mu - abs(x - x0)/ (tfinal), 0) * np.heaviside(abs(x0-x) - (tfinal-self.t0_source),0)')],
      '''
      from lib import *
      import numpy as np
      from moving_mesh_transport.solver_functions.run_functions import run
      r = run.__new__(run)
      r.t0_source, r.v0 = 2.0, 0.01
      # emitted at time 1.5, before the switch-off at 2
      assert r.fake_sedov(0.5, 4.0, -5 + 0.5 * 2.5) > 0.01
      # emitted at time 3
      assert r.fake_sedov(0.5, 4.0, -5 + 0.5 * 1.0) == 0
      ''', 'an oblique direction and a boundary source that has been switched off', 'oblique radiation is cut off where only straight radiation has ended')
plant('bell_delay', 'P22', [(R, 'eta_func = lambda s, mu: (s - x0) / mu + t0', 'eta_func = lambda s, mu: (s - x0) + t0')],
      '''
      from lib import *
      import numpy as np
      from scipy.integrate import quad
      from moving_mesh_transport.solver_functions.run_functions import run
      r = run.__new__(run)
      x, mu, t = -3.0, 0.4, 8.0
      bell = lambda s: np.exp(-(s + 0.25 * (t - (x - s) / mu))**2 / 8)
      want = np.exp(-quad(bell, -5, x)[0] / mu)
      got = r.moving_gaussian_shock(t, x, mu)
      assert abs(got - want) < 1e-6, (got, want)
      ''', 'a direction other than straight ahead', 'the travelling bell is met at the time straight radiation would meet it')
plant('unscaled', 'P23', [('solver.py', 'benchmark(np.abs(xs*self.scattering_ratio))[0] #benchmark for RMS', 'benchmark(np.abs(xs))[0] #benchmark for RMS')], 'BENCH:c_scaling=True, ratio=0.5, cells=[4], sources=[1,0,0,0,0,0,0,0], source="plane_IC"',
      'a scaled problem with a scattering ratio below one', 'the positions at which the benchmark is asked are not scaled')
plant('third_order', 'P23', [('solver.py', '"%.2f" % convergence(self.RMS_list[count-1], self.N_spaces[count-1], RMS, N_space)', '"%.2f" % convergence(self.RMS_list[count-1], self.N_spaces[0], RMS, N_space)')], 'BENCH:c_scaling=False, ratio=1.0, cells=[4, 8, 16], sources=[1,0,0,0,0,0,0,0], source="plane_IC"',
      'a study over three or more numbers of cells', 'the printed orders of later entries are taken against the first number of cells')
plant('chosen_grid', 'P17', [('solver_functions/main_functions.py', '            mesh.move(tt)\n            edges = mesh.edges\n            if choose_xs == False:\n', '            if choose_xs == False:\n                mesh.move(tt)\n                edges = mesh.edges\n')],
      '''
      from lib import *
      import numpy as np
      k = Kit(Ctx())
      from moving_mesh_transport.solver_functions import main_functions as mf
      seen = []
      class Sol:
          pass
      def fake(fun, span, y0, t_eval=None, **kw):
          s = Sol(); s.t = np.array(t_eval); s.y = np.tile(y0[:, None], (1, len(t_eval))); return s
      class Out:
          def __init__(self, t, *a):
              seen.append((float(t), float(a[5][-1]))); self.xs = a[2]; self.n = a[0]
              self.psi_out = np.zeros((self.n, self.xs.size))
          def make_phi(self, u): return self.xs * 0
          def get_exit_dist(self, u): return np.zeros((self.n, 2)), np.zeros(2)
          def make_e(self): return self.xs * 0
      mf.make_output = Out
      mf.integrate.solve_ivp, keep = fake, mf.integrate.solve_ivp
      class R:
          def __call__(self):
              k_ = 2
              z2, z3 = np.ones((k_, k_), dtype=np.int64), np.ones((k_, k_, k_), dtype=np.int64)
              return (z2, z2, z2, z2, z3, np.zeros((k_, k_, 3)), np.zeros((k_, k_, 2)), np.zeros((k_, k_, 2)), np.zeros((k_, k_, 6)),
                      np.zeros((k_, k_, 2)), np.zeros((k_, k_, 3)), np.zeros((k_, k_, k_, 3)), np.zeros((k_, k_, k_, 2)))
      mf.file_reader = R
      o = D(constant=1, gaussian=0, siewert1=0, siewert2=0, fake_sedov=0)
      mf.solve(2.0, 4, 2, 1, 0.5, 2.0, 1.0, 1.0, 8, [0, 1, 0, 0, 0, 0], 1, 1, np.array([1, 0, 0, 0]), D(none=1), np.array([0, 0]), 1e-6, 1e-8, 0.0, True,
               np.array([0.0, 0.3]), 'gauss_legendre', 0.0, 1.0, 1.0, 0.0, 0, 0, 0, 10.0, np.zeros((1, 1, 1)), 1e-4, 1.0, 1.0, 'RK45', 1.0, 0, 1.0, 1.0, 5,
               1, np.array([0.5, 1.0, 2.0]), np.array([0, 0]), 0.0, 0, o, 0, 0, 5.0, 0.0, 0, 1.0, k.geo[0])
      for t, end in seen:
          assert abs(end - 0.5 - t) < 0.02, seen
      ''', 'a moving grid, chosen positions and evaluation times before the end', 'earlier solutions are drawn on the grid of the end')
plant('beam_order', 'P13', [(C + 'build_problem.py', '        mu = self.mus[ang]\n        self.IC[ang,space,j] = 0.5 * (b-a) * np.sum(self.ws_quad * ic.function(argument, mu) * normPn(j, argument, a, b))',
                             '        mu = self.mus[self.N_ang - 1 - ang]\n        self.IC[ang,space,j] = 0.5 * (b-a) * np.sum(self.ws_quad * ic.function(argument, mu) * normPn(j, argument, a, b))')],
      '''
      from lib import *
      import numpy as np
      k = Kit(Ctx())
      p = k.params(N_space=2, M=1, N_ang=4, source_type=[0, 0, 0, 1, 0, 1], sigma=0.5, uncollided=0)
      b = k.build(p)
      b.make_IC()
      I = b.IC
      # the beam travels to the right
      assert np.abs(I[0]).max() < 0.1 * np.abs(I[-1]).max(), I[:, :, 0]
      ''', 'an initial condition that depends on the direction', 'the initial beam goes the other way')
plant('still_front', 'P09', [(C + 'opacity.py', "if (edges[i] != self.edges[i]) or (edges[i+1] != self.edges[i+1]) or self.moving == True :", "if (edges[i] != self.edges[i]) or (edges[i+1] != self.edges[i+1]) or (self.moving == True and edges[i] < self.sigma_v * t) :")],
      """
      from lib import *
      import numpy as np
      k = Kit(Ctx())
      from moving_mesh_transport.solver_classes.opacity import sigma_integrator
      p = k.params(N_space=4, M=1, N_ang=2, opacity='fake_sedov', Msigma=1, moving=0, fake_sedov_v0=0.2, source_type=[0, 0, 0, 0, 0, 0], x0=5.0)
      e = np.linspace(-5.0, 5.0, 5)
      s = sigma_integrator(k.build(p))
      s.sigma_moments(e, 10.0)
      want = s.cs.copy()
      s = sigma_integrator(k.build(p))
      s.sigma_moments(e, 2.0)
      s.sigma_moments(e, 10.0)
      assert np.allclose(want, s.cs)
      """, 'the travelling density jump on a static grid, with cells ahead of where the jump would be had it moved the other way', 'the opacity there stays what it was at an earlier request')
plant('one_width', 'P15', [('solver_functions/main_functions.py', '        if source_type[3] or source_type[4] == 1:\n            x0_new = x0[count]', '        if source_type[3] == 1 and source_type[4] == 1:\n            x0_new = x0[count]')],
      '''
      from lib import *
      from moving_mesh_transport.solver_functions.main_functions import x0_function
      assert [x0_function([1.0, 2.0, 3.0], [0, 0, 0, 1, 0, 0], i) for i in range(3)] == [1.0, 2.0, 3.0]
      ''', 'a study of a gaussian initial condition or of the manufactured solution with different widths', 'every run takes the first width')


plant('drifting_opacity', 'P09', [(C + 'opacity.py', 'if (edges[i] != self.edges[i]) or (edges[i+1] != self.edges[i+1]) or self.moving == True :', 'if abs(edges[i] - self.edges[i]) > 1e-8 or abs(edges[i+1] - self.edges[i+1]) > 1e-8 or self.moving == True :')],
      '''
      from lib import *
      import numpy as np
      k = Kit(Ctx())
      from moving_mesh_transport.solver_functions.main_functions import sigma_integrator
      p = k.params(N_space=2, M=0, opacity='gaussian', Msigma=2)
      s, f = sigma_integrator(k.build(p)), sigma_integrator(k.build(p))
      g = np.array([-1.0, 0.0, 1.0])
      for i in range(4001):
          h = g + 5e-9 * i
          s.sigma_moments(h, 0.1)
      f.sigma_moments(h, 0.1)
      s.make_vectors(h, np.array([1.0]), 1)
      f.make_vectors(h, np.array([1.0]), 1)
      assert abs(s.VV[0] - f.VV[0]) < 1e-10, (s.VV, f.VV)
      ''', 'a space dependent opacity and a grid that moves by less than 1e-8 from one evaluation to the next', 'the cross section stays that of where the cell was long ago')
plant('right_end', 'P04', [(C + 'numerical_flux.py', 'self.xR_plus, j, "r") * self.B_LR_func(j, self.h)[0]', 'self.xR_plus, j, "r") * self.B_LR_func(j, self.h)[1]')],
      '''
      from lib import *
      import numpy as np
      k = Kit(Ctx())
      from moving_mesh_transport.solver_classes.numerical_flux import LU_surf
      p = k.params(N_space=2, M=3, source_type=[0, 0, 0, 0, 1, 0], x0=1.0)
      lu, m = LU_surf(k.build(p)), k.mesh(p)
      m.edges, m.Dedges = np.array([-1.0, 0.0, 1.0]), np.array([0.0, 0.0, 0.0])
      u = np.zeros((2, 4))
      lu.make_LU(0.5, m, u, 1, -0.6, u[0])
      right = lu.LU[0]
      lu.make_LU(0.5, m, u, 0, 0.6, u[0])
      # the manufactured intensity is even: as much enters on the right as on the left
      assert abs(right - lu.LU[0]) < 1e-10, (right, lu.LU[0])
      ''', 'the manufactured solution with order 1 or more, at the right end', 'what enters on the right is that of a mirrored slope')
plant('tolerances', 'P17', [('solver_functions/main_functions.py', 'rtol = rt, atol = at', 'rtol = at, atol = rt')],
      '''
      import os
      os.environ['NUMBA_OPT'] = '0'
      from lib import *
      import numpy as np
      k = Kit(Ctx())
      from moving_mesh_transport.solver_functions import main_functions as mf
      class R:
          def __call__(self):
              k_ = 2
              z2, z3 = np.ones((k_, k_), dtype=np.int64), np.ones((k_, k_, k_), dtype=np.int64)
              return (z2, z2, z2, z2, z3, np.zeros((k_, k_, 3)), np.zeros((k_, k_, 2)), np.zeros((k_, k_, 2)), np.zeros((k_, k_, 6)),
                      np.zeros((k_, k_, 2)), np.zeros((k_, k_, 3)), np.zeros((k_, k_, k_, 3)), np.zeros((k_, k_, k_, 2)))
      mf.file_reader = R
      o = D(constant=1, gaussian=0, siewert1=0, siewert2=0, fake_sedov=0)
      def phi(strength):
          return mf.solve(2.0, 4, 2, 1, 0.5, 2.0, 1.0, 1.0, 8, [0, 1, 0, 0, 0, 0], 0, 1, np.array([1, 0, 0, 0]), D(none=1), np.array([0, 0]), 1e-6, 1e-30, 0.0, True,
                 np.array([0.0, 0.3]), 'gauss_legendre', 0.0, 1.0, 1.0, 0.0, 0, 0, 0, 10.0, np.zeros((1, 1, 1)), 1e-4, strength, 1.0, 'RK45', 1.0, 0, 1.0, 1.0, 5,
                 0, np.array([2.0]), np.array([0, 0]), 0.0, 0, o, 0, 0, 5.0, 0.0, 0, 1.0, k.geo[0])[1]
      faint, full = phi(2.0 ** -30), phi(1.0)
      assert np.allclose(faint * 2.0 ** 30, full, rtol=1e-6), (faint * 2.0 ** 30, full)
      ''', 'relative and absolute tolerance that differ, and radiation that is faint', 'the accuracy asked for relatively is taken absolutely')
BENCH = """
from lib import *
import contextlib, io, re
import h5py
import numpy as np
from moving_mesh_transport import solver
setting = dict(%s)
os.makedirs('moving_mesh_transport/benchmarks')
np.savetxt('moving_mesh_transport/benchmarks/su_olson_1.txt', np.zeros((3, 3)))
x = np.linspace(0.0, 20.0, 60)
flux = lambda x: 1 + x * x / 8
ratio, cells = setting['ratio'], setting['cells']
t = 2.0 * ratio if setting['c_scaling'] else 2.0
with h5py.File('moving_mesh_transport/benchmarks/benchmarks.hdf5', 'w') as f:
    f.create_dataset(setting['source'] + '/t = %%s' %% t, data=np.array([x, flux(x), flux(x)]))
n, one = len(cells), np.ones(1)
a = {'problem_name': 'transport', 'tfinal': 2.0, 'c_scaling': setting['c_scaling'], 'epsilon_scaling': False, 'epsilon': 1.0, 'sigma_t': 1.0, 'sigma_s': ratio,
     't0': 5.0, 'N_spaces': cells, 'tnodes': 4, 'Ms': [1] * n, 'N_runs': 1, 'rt': 1e-9, 'at': 1e-8, 'mxstp': 1.0, 'major': 'cells', 'radiative_transfer': {'none': True},
     'temperature_dependence': [0, 0, 0, 0], 'e_initial': 1e-9, 'weights': 'gauss_lobatto', 'save_solution': False, 'particle_v': 'one', 'edge_v': 'one',
     'cv_const': 0.03, 'thick': False, 'integrator': 'BDF', 'geometry': {'slab': True, 'sphere': False}}
sec = {'x0': [0.5] * n, 'source_strength': 1.0, 'source_type': setting['sources'], 'N_angles': [2] * n, 'move_type': [1, 0, 0, 0], 'benchmarking': True, 'bench_type': 'full'}
mesh = {'find_edges_tol': 1.0, 'sqrt_t_move_factor': 1.0, 'save_wave_loc': False, 'estimate_wavespeed': False, 'find_wave_loc': False, 'choose_xs': False,
        'xs_list': [0.0], 'pad': 1.0, 'leader_pad': 1.0, 'xs_quad': 5, 'eval_times': False, 'eval_array': [1.0], 'boundary_on': [0, 0], 'boundary_source': False,
        'boundary_source_strength': 0.0, 'finite': False, 'domain_width': 1.0, 'Msigma': 0, 'sigma_func': {'constant': True, 'gaussian': False}, 'fake_sedov_v0': 0.1}
for name in ('plot', 'scatter', 'legend', 'show', 'figure', 'xlabel', 'ylabel', 'xlim'):
    setattr(solver.plt, name, lambda *q, **k: None)
solver.plot_edges = lambda *q, **k: None
want = []
def fake(*q, **k):
    N, z = q[1], np.zeros(1)
    xs = np.linspace(-3.0, 3.0, 9)
    exact = ratio * np.exp(-(1 - ratio) * 2.0) * flux(np.abs(xs * ratio)) if setting['c_scaling'] else flux(np.abs(xs))
    want.append(1.0 / N**3)
    return (xs, exact + want[-1], np.zeros((2, 9)), np.zeros((2, 2)), np.zeros(2), xs * 0, 0.5, np.zeros((2, 2, 1)), np.zeros(2), np.ones(2),
            np.linspace(-3, 3, 3), np.zeros((1, 1, 1)), z, z, z, z, z, z, np.zeros(2))
solver.solve = fake
o = solver.main_class(setting['source'], {'all': a, setting['source']: sec}, mesh)
out = io.StringIO()
with contextlib.redirect_stdout(out):
    o.main(True, True)
assert np.allclose(o.RMS_list, want, rtol=1e-6), (o.RMS_list, want)
got = [float(v) for v in re.findall(r'radiation energy density convergence order ([-0-9.]+)', out.getvalue())]
assert got == [3.0] * (n - 1), got
"""
for p_ in PLANTS:
    if p_['demo'].startswith('BENCH:'):
        p_['demo'] = BENCH % p_['demo'][6:]
