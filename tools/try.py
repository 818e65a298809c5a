"""Runs the check of every planted bug on a scratch copy with the bug: try.py [id...] (all when none is named)."""
import json, os, shutil, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(ROOT, 'seeded')))
for i in ids:
    d = os.path.join(ROOT, 'seeded', i)
    copy, ver = '/tmp/try_repo_' + i, '/tmp/try_verif_' + i
    shutil.rmtree(copy, ignore_errors=True)
    shutil.rmtree(ver, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', copy])
    subprocess.check_call(['cp', '-a', ROOT, ver])
    subprocess.check_call(['git', '-C', copy, 'apply', os.path.join(d, 'patch.diff')])
    props = [json.load(open(os.path.join(d, 'meta.json')))['property']]
    for pid in os.environ.get('PROPS', '').split(',') if os.environ.get('PROPS') else props:
        t = time.time()
        r = subprocess.run(['/opt/venv/bin/python', os.path.join(ver, 'check.py'), pid, 'quick'], cwd=ver, stdin=subprocess.DEVNULL,
                           env=dict(os.environ, VERIF_REPO=copy, VERIF_SEED='1', VERIF_TIER='quick'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = r.stdout.decode().splitlines()
        v = [l for l in out if l.startswith('VIOLATION')]
        print(i, pid, 'caught' if r.returncode == 1 and v else 'MISSED rc=%d' % r.returncode, '%d s' % (time.time() - t), (v or out)[-1:])
        sys.stdout.flush()
    shutil.rmtree(copy, ignore_errors=True)
    shutil.rmtree(ver, ignore_errors=True)
