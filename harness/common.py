"""Shared machinery of the conformance harness.

A worker process (one per check) runs `run(ctx)` of a harness module.  The
specification (spec/*.qnt) is simulated by `quint run`; every trace it writes
(ITF JSON) is replayed into the code in /repo and compared state by state."""
import glob
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, 'spec')
REPO = os.environ.get('VERIF_REPO', '/repo')
SCALE = 10 ** 24


class Machinery(Exception):
    """The check itself could not run (no verdict)."""


# ---- ITF ---------------------------------------------------------------------
def plain(v):
    if isinstance(v, dict):
        if '#bigint' in v:
            return int(v['#bigint'])
        if '#tup' in v:
            return [plain(x) for x in v['#tup']]
        if '#set' in v:
            return [plain(x) for x in v['#set']]
        if '#map' in v:
            return {json.dumps(plain(k)) if not isinstance(plain(k), str) else plain(k): plain(w) for k, w in v['#map']}
        return {k: plain(w) for k, w in v.items() if k != '#meta'}
    if isinstance(v, list):
        return [plain(x) for x in v]
    return v


def load_itf(path):
    with open(path) as f:
        return [plain(s) for s in json.load(f)['states']]


def fl(v):
    """fixed point -> float, elementwise over nested lists"""
    if isinstance(v, list):
        return [fl(x) for x in v]
    return v / SCALE


def fx(x):
    """float -> the fixed point integer nearest to it (exact for doubles up to 24 decimals)"""
    from fractions import Fraction
    f = Fraction(float(x)) * SCALE
    return (2 * f.numerator + f.denominator) // (2 * f.denominator)


# ---- quint -------------------------------------------------------------------
class QuintJob:
    def __init__(self, ctx, module, samples, steps, seed, invariant, main=None, extra=()):
        self.ctx, self.module = ctx, module
        self.dir = tempfile.mkdtemp(prefix='itf_', dir=ctx.scratch)
        self.samples, self.steps, self.invariant = samples, steps, invariant
        path = module if os.path.isabs(module) else os.path.join(SPEC, module + '.qnt')
        cmd = ['quint', 'run', '--backend', 'typescript', path, '--max-samples', str(samples),
               '--n-traces', str(samples), '--max-steps', str(steps), '--seed', str(seed),
               '--verbosity', '1', '--out-itf', os.path.join(self.dir, 't_{seq}.itf.json')]
        if main:
            cmd += ['--main', main]
        if invariant:
            cmd += ['--invariant', invariant]
        cmd += list(extra)
        self.cmd = cmd
        self.log = open(os.path.join(self.dir, 'log'), 'w+')
        self.p = subprocess.Popen(['nice', '-n', '10'] + cmd, stdout=self.log, stderr=subprocess.STDOUT, cwd=self.dir,
                                  stdin=subprocess.DEVNULL)

    def traces(self):
        rc = self.p.wait()
        self.log.seek(0)
        out = self.log.read()
        if rc != 0:
            raise Machinery('quint run failed (%s): %s\n%s' % (rc, ' '.join(self.cmd), out[-3000:]))
        files = sorted(glob.glob(os.path.join(self.dir, '*.itf.json')))
        if not files:
            raise Machinery('quint wrote no trace: ' + ' '.join(self.cmd) + '\n' + out[-2000:])
        for f in files:
            try:
                t = load_itf(f)
            except ValueError as e:
                raise Machinery('cannot read the trace %s: %s' % (f, e))
            yield t
        shutil.rmtree(self.dir, ignore_errors=True)


def quint_check(ctx, path, main=None, invariant=None, steps=10, samples=1, init=None, step=None):
    """Run a (generated) specification; returns None when its invariant held on
    everything explored, else the violating trace."""
    d = tempfile.mkdtemp(prefix='chk_', dir=ctx.scratch)
    cmd = ['quint', 'run', '--backend', 'typescript', path, '--max-samples', str(samples),
           '--max-steps', str(steps), '--seed', str(ctx.seed), '--verbosity', '1',
           '--out-itf', os.path.join(d, 'v.itf.json')]
    if main:
        cmd += ['--main', main]
    if invariant:
        cmd += ['--invariant', invariant]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=d, text=True,
                       stdin=subprocess.DEVNULL)
    if p.returncode == 0:
        return None
    if 'Invariant violated' in p.stdout or 'violation' in p.stdout:
        try:
            return load_itf(os.path.join(d, 'v.itf.json'))
        except Exception:
            return [{'log': p.stdout[-2000:]}]
    raise Machinery('quint failed: ' + ' '.join(cmd) + '\n' + p.stdout[-3000:])


# ---- context -----------------------------------------------------------------
class RepoFailure(Exception):
    pass


class Ctx:
    def __init__(self, pid, tier, seed, scratch, result, stage):
        self.pid, self.tier, self.seed, self.scratch = pid, tier, seed, scratch
        self.result_path = result
        self.stage_fd = os.open(stage, os.O_RDWR | os.O_CREAT)
        self.t0 = time.time()
        self.violations, self.known_hits, self.samples = [], [], []
        self.states = self.transitions = self.validated = self.comparisons = 0
        self.distinct = set()
        self.notes, self.assumptions = {}, []
        kf = os.path.join(ROOT, 'known_findings.json')
        self.known = {}
        if os.path.exists(kf):
            for e in json.load(open(kf))['findings']:
                if e['status'] == 'known':
                    self.known[(e['property'], e['key'])] = e
        self.thorough = tier == 'thorough'
        self.limit = 12

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- specification side
    def quint(self, module, samples, steps, jobs=1, invariant='safe', main=None, extra=(), salt=0):
        return [QuintJob(self, module, samples, steps, 1000003 * self.seed + 7919 * (j + 1) + salt,
                         invariant, main, extra) for j in range(jobs)]

    def traces(self, jobs):
        for j in jobs:
            for t in j.traces():
                self.states += len(t)
                self.transitions += len(t) - 1
                yield t

    def done_trace(self, key=None, sample=None):
        self.validated += 1
        if key is not None:
            self.distinct.add(key)
        if sample is not None and len(self.samples) < 3:
            self.samples.append(sample)

    # -- implementation side
    def call(self, what, fn, *args, **kw):
        """Run code of the repository: an exception is a finding, a hang or a
        crash is attributed to it by the parent."""
        os.pwrite(self.stage_fd, (what[:190] + '\0').encode().ljust(200, b'\0'), 0)
        try:
            return fn(*args, **kw)
        except (KeyboardInterrupt, SystemExit) as e:
            raise RepoFailure('%s: %r' % (what, e))
        except BaseException as e:
            tb = traceback.format_exc()
            raise RepoFailure('%s raised %s: %s\n%s' % (what, type(e).__name__, str(e)[:1500], tb[-2500:]))
        finally:
            os.pwrite(self.stage_fd, b'\0' * 200, 0)

    def violation(self, key, detail):
        if (self.pid, key) in self.known:
            if key not in self.known_hits:
                self.known_hits.append(key)
            return
        self.violations.append({'key': key, 'detail': detail})

    def full(self):
        return len(self.violations) >= self.limit

    def same(self, key, got, want, tol=1e-9, detail=None, scale=None):
        """got (floats from the code) agrees with want (floats of the specification)"""
        import numpy as np
        self.comparisons += 1
        g = np.asarray(got, dtype=float)
        w = np.asarray(want, dtype=float)
        if g.shape != w.shape:
            self.violation(key, dict(detail or {}, got_shape=list(g.shape), want_shape=list(w.shape)))
            return False
        if g.size == 0:
            return True
        s = (1.0 + np.abs(w)) if scale is None else (scale + np.abs(w))
        bad = ~(np.abs(g - w) <= tol * s)
        if bad.any():
            k = int(np.argmax(np.where(np.isfinite(g), np.abs(g - w) / s, np.inf)))
            self.violation(key, dict(detail or {}, index=[int(i) for i in np.unravel_index(k, g.shape)] if g.ndim else [],
                                     got=_short(g), want=_short(w)))
            return False
        return True

    def true(self, key, ok, detail=None):
        self.comparisons += 1
        if not ok:
            self.violation(key, detail or {})
        return bool(ok)

    def finish(self):
        json.dump({'violations': self.violations, 'known_hits': self.known_hits, 'samples': self.samples,
                   'states': self.states, 'transitions': self.transitions, 'validated': self.validated,
                   'comparisons': self.comparisons, 'distinct': len(self.distinct), 'notes': self.notes,
                   'assumptions': self.assumptions},
                  open(self.result_path + '.tmp', 'w'), default=_js)
        os.replace(self.result_path + '.tmp', self.result_path)


def _js(o):
    import numpy as np
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, set):
        return sorted(o)
    return repr(o)


def _short(a):
    v = a.tolist()
    return v if a.size <= 60 else str(v)[:1500]


# ---- helpers for the code under test -------------------------------------------
def D(**k):
    import numba as nb
    d = nb.typed.Dict.empty(key_type=nb.typeof('par_1'), value_type=nb.typeof(1))
    for a, b in k.items():
        d[a] = b
    return d


def geometry(sphere):
    return D(slab=0 if sphere else 1, sphere=1 if sphere else 0)


def worker_main(argv):
    module, pid, tier, seed, scratch, result, stage = argv
    # whatever the code prints goes to a file, not to the check's output
    log = os.open(os.path.join(scratch, 'repo.out'), os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.dup2(log, 1)
    sys.path.insert(0, REPO)
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    sys.setrecursionlimit(10000)
    os.chdir(scratch)
    ctx = Ctx(pid, tier, int(seed), scratch, result, stage)
    try:
        mod = importlib.import_module(module)
        mod.run(ctx)
    except RepoFailure as e:
        ctx.violation('failure', {'failure': str(e)})
    except (IndexError, ValueError):
        # the answers of the code do not have the shape their contract gives them (numpy refuses to combine them)
        ctx.violation('failure', {'failure': 'the results cannot be compared: ' + traceback.format_exc()[-3000:]})
    except Exception:
        sys.stderr.write(traceback.format_exc())
        sys.stderr.flush()
        ctx.finish()
        os._exit(2)
    ctx.finish()
    sys.stderr.flush()
    os._exit(0)


if __name__ == '__main__':
    worker_main(sys.argv[1:])
