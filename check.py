#!/opt/venv/bin/python
"""check.py <property> [quick|thorough]: decides one property of /repo.

exit 0: the property held on everything explored
exit 1: VIOLATION property=<id> replay=<path>
exit 2: the check itself could not run"""
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'harness'))
from registry import CHECKS  # noqa: E402

PY = '/opt/venv/bin/python'


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    spec = CHECKS[pid]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='verif_%s_' % pid)
    out = os.path.join(ROOT, 'out', pid)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out, exist_ok=True)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    result, stage = os.path.join(scratch, 'result.json'), os.path.join(scratch, 'stage')
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', PYTHONHASHSEED='0',
               NUMBA_CACHE_DIR=os.path.join(scratch, 'numba'), HOME=scratch,
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1')
    if tier == 'quick' and not spec.get('optimised'):
        # same code, compiled without optimisation: halves the time to the first call
        env['NUMBA_OPT'] = '0'
    if os.path.isdir('/opt/venv/mplconfig'):
        env['MPLCONFIGDIR'] = '/opt/venv/mplconfig'
    err = open(os.path.join(scratch, 'err'), 'w+')
    limit = 780 if tier == 'quick' else 6 * 3600
    p = subprocess.Popen([PY, os.path.join(ROOT, 'harness', 'common.py'), spec['module'], pid, tier, str(seed),
                          scratch, result, stage], stdout=subprocess.DEVNULL, stderr=err, env=env, cwd=scratch,
                         start_new_session=True, stdin=subprocess.DEVNULL)
    timed_out = False
    try:
        rc = p.wait(timeout=limit)
    except subprocess.TimeoutExpired:
        timed_out, rc = True, None
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()
    where = ''
    try:
        where = open(stage, 'rb').read().split(b'\0')[0].decode(errors='replace')
    except OSError:
        pass
    err.seek(0)
    errtext = err.read()[-6000:]
    res = json.load(open(result)) if os.path.exists(result) else {
        'violations': [], 'known_hits': [], 'samples': [], 'states': 0, 'transitions': 0, 'validated': 0,
        'comparisons': 0, 'distinct': 0, 'notes': {}, 'assumptions': []}
    broken = None
    if timed_out or (rc not in (0, 2)):
        what = 'did not return within %d s' % limit if timed_out else 'the process died with status %s' % rc
        if where:
            res['violations'].append({'key': 'failure', 'detail': {'failure': '%s: %s' % (where, what), 'stderr': errtext}})
        else:
            broken = what
    elif rc == 2:
        broken = 'machinery error'
    viol = res['violations']
    cov = {'states': res['states'], 'transitions': res['transitions'],
           'traces_validated_against_impl': res['validated'],
           'evaluations': res['comparisons'], 'distinct_nontrivial': res['distinct'],
           'rule': spec['rule'], 'samples': res['samples'] or ['none']}
    cov.update(res['notes'])
    ev = {'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed,
          'level': spec.get('level', 'model_checking'), 'coverage': cov,
          'assumptions': spec.get('assumptions', []) + res['assumptions'],
          'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    known = {}
    kf = os.path.join(ROOT, 'known_findings.json')
    if os.path.exists(kf):
        known = {(e['property'], e['key']): e for e in json.load(open(kf))['findings']}
    for k in res['known_hits']:
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, k, known[(pid, k)]['what']))
    code = 0
    if viol:
        keys = {}
        for v in viol:
            keys.setdefault(v['key'], v)
        for n, (k, v) in enumerate(sorted(keys.items())[:8]):
            path = os.path.join(out, 'violation_%d.json' % n)
            with open(path, 'w') as f:
                json.dump(dict(v, property=pid, tier=tier, seed=seed), f, indent=1)
            print('VIOLATION property=%s replay=%s' % (pid, path))
            print('  %s: %s' % (k, json.dumps(v['detail'])[:600]))
        code = 1
    elif broken:
        print('ERROR property=%s %s\n%s' % (pid, broken, errtext))
        code = 2
    else:
        print('OK property=%s traces=%d states=%d comparisons=%d wall=%.0fs' % (
            pid, res['validated'], res['states'], res['comparisons'], time.time() - t0))
    shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)


main()
