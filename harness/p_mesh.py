"""P01 P02 P03: the deforming grid, against spec/mesh.qnt."""
import json
from common import fl, fx, geometry

ST = {'plane': [1, 0, 0, 0, 0, 0], 'dipole': [2, 0, 0, 0, 0, 0], 'squareIC': [0, 1, 0, 0, 0, 0],
      'squareSrc': [0, 0, 1, 0, 0, 0], 'gaussIC': [0, 0, 0, 1, 0, 0], 'mms': [0, 0, 0, 0, 1, 0],
      'gaussSrc': [0, 0, 0, 0, 0, 1], 'boundary': [0, 0, 0, 0, 0, 0]}


class Maker:
    def __init__(self, ctx):
        self.ctx = ctx
        import numpy as np

        def imp():
            from moving_mesh_transport.solver_classes.mesh import mesh_class
            from moving_mesh_transport.solver_classes.functions import quadrature
            return mesh_class, quadrature
        self.np = np
        self.mesh_class, self.quadrature = ctx.call('import the mesh', imp)
        self.geo = [geometry(False), geometry(True)]

    def __call__(self, c):
        np = self.np
        n = c['n']

        def build():
            qs = self.quadrature(n // 2 + 1, 'gauss_lobatto')[0] if n // 2 + 1 > 2 else np.array([-1.0, 1.0])
            qe = self.quadrature(n // 4 + 1, 'gauss_lobatto')[0] if n // 4 + 1 > 2 else np.array([-1.0, 1.0])
            return self.mesh_class(n, fl(c['x0']), fl(c['tf']), int(c['moving']), [0, 0, 1, 0] if c['root'] else [1, 0, 0, 0], ST[c['lay']],
                                   fl(c['v']), int(c['thick']), fl(c['factor']), np.zeros((1, 4, 4)), fl(c['pad']), 1.0, qs, qe,
                                   int(c['finite']), fl(c['width']), fl(c['v0']), [0, 0], fl(c['t0']),
                                   self.geo[1 if c['sphere'] else 0])
        return self.ctx.call('make the mesh', build)

    def look(self, m, t):
        self.ctx.call('move the mesh', m.move, t)
        return self.np.array(m.edges), self.np.array(m.Dedges)


def asserts(ctx, np, c, t, e, where):
    n = c['n']
    w = {'problem': c, 't': t, 'edges': e.tolist(), 'where': where}
    ctx.true('order', len(e) == n + 1 and bool(np.all(np.diff(e) > 0)), w)
    if c['sphere']:
        ctx.true('radius', abs(e[0]) < 1e-9, w)


def run(ctx):
    jobs = ctx.quint('mesh', ctx.pick(120, 2500), ctx.pick(6, 9), jobs=ctx.pick(6, 8))
    make = Maker(ctx)
    np = make.np
    pid = ctx.pid
    h = 1e-6
    for tr in ctx.traces(jobs):
        c = tr[0]['cfg']
        # the nodes handed to the mesh for the graded layout are those of the spec
        mesh, hist = make(c), []
        smooth = lambda u: True
        for k, s in enumerate(tr):
            t = fl(s['t'])
            e, d = make.look(mesh, t)
            hist.append(t)
            det = {'problem': c, 'history': list(hist)}
            # groups of edges only 1e-12 wide: their speeds are rounded
            loose = c['thick'] and c['root']
            want_e, want_d = fl(s['edges']), fl(s['speeds'])
            if pid == 'P01':
                ctx.same('edges', e, want_e, 5e-3 if loose else 1e-9, det)
                asserts(ctx, np, c, t, e, 'after ' + str(hist))
            elif pid == 'P02':
                ctx.same('speeds', d, want_d, 5e-3 if loose else 1e-8, det)
                # the derivative of what the code itself reports
                if c['moving'] and s['wide']:
                    probe = make(c)
                    a, _ = make.look(probe, max(0.0, t - h))
                    b, _ = make.look(probe, t + h)
                    fd = (b - a) / (t + h - max(0.0, t - h))
                    ctx.same('derivative', d, fd, 1e-5, det, scale=1.0)
            else:
                fresh, fd = make.look(make(c), t)
                ctx.same('history', e, fresh, 1e-12, det)
                ctx.same('history speeds', d, fd, 1e-12, det)
                again, ad = make.look(mesh, t)
                ctx.same('repeat', again, e, 0.0, det)
                ctx.same('repeat speeds', ad, d, 0.0, det)
                # a time approached in ever smaller steps, from one side or the other
                if t > 0 and c['moving']:
                    for i in range(1, 46):
                        make.look(mesh, max(0.0, t + (-1) ** k * t * 2.0 ** -i))
                    near, nd = make.look(mesh, t)
                    ctx.same('approach', near, fresh, 1e-12, det)
                    ctx.same('approach speeds', nd, fd, 1e-12, det)
                if not c['moving']:
                    ctx.same('static', e, want_e, 5e-3 if loose else 1e-9, det)
                    ctx.same('static speeds', d, np.zeros(len(d)), 0.0, det)
        ctx.done_trace(json.dumps(c, sort_keys=True), {'problem': c, 'times': hist, 'last_edges': e.tolist()})
        if ctx.full():
            return
