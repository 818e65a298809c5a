"""Makes /verif/seeded/<id>/ from plants.py and confirms it on a scratch copy.
usage: plant.py [id...]"""
import json, os, re, shutil, subprocess, sys, textwrap
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = os.path.join(ROOT, 'harness')


def lib():
    common = open(os.path.join(H, 'common.py')).read()
    helpers = common[common.index('# ---- helpers for the code under test'):common.index('def worker_main')]
    kit = open(os.path.join(H, 'kit.py')).read().replace('from common import D, geometry', '')
    kit = re.sub(r'    from common import fl\n', '', kit)
    tab = open(os.path.join(H, 'tables.py')).read()
    return ('"""Builds the objects of the solver (cwd is the repository)."""\nimport os, shutil, sys, tempfile\n'
            'sys.path.insert(0, os.getcwd())\nsys.dont_write_bytecode = True\n'
            'scratch = tempfile.mkdtemp()\nimport atexit\natexit.register(shutil.rmtree, scratch, True)\nos.chdir(scratch)\n'
            'class Ctx:\n    def call(self, what, fn, *a, **k):\n        return fn(*a, **k)\n'
            'def fl(v):\n    return [fl(x) for x in v] if isinstance(v, list) else v / 10**24\n' + helpers + kit +
            '\nclass tables:\n    pass\n' + tab + '\ntables.read = staticmethod(read)\n')


def main():
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    from plants import PLANTS
    want = sys.argv[1:]
    head = '/tmp/plant_repo'
    for p in PLANTS:
        if want and p['id'] not in want:
            continue
        d = os.path.join(ROOT, 'seeded', p['id'])
        shutil.rmtree(head, ignore_errors=True)
        subprocess.check_call(['cp', '-a', '/repo', head])
        files = []
        for f, old, new in p['edits']:
            path = os.path.join(head, 'moving_mesh_transport', f)
            s = open(path, newline='').read()
            if '\r\n' in s:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            assert s.count(old) == 1, (p['id'], f, s.count(old), old)
            open(path, 'w', newline='').write(s.replace(old, new))
        diff = subprocess.check_output(['git', '-C', head, 'diff']).decode('utf-8')
        # every removed line must be of the original repository
        base = '827ab45'
        for f in {e[0] for e in p['edits']}:
            orig = subprocess.check_output(['git', '-C', head, 'show', '%s:moving_mesh_transport/%s' % (base, f)]).decode().splitlines()
            for l in diff.splitlines():
                if l.startswith('-') and not l.startswith('---') and l[1:].strip() not in [x.strip() for x in orig] and len({e[0] for e in p['edits']}) == 1:
                    print('WARNING', p['id'], 'removes a line that is not original:', l)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w', newline='').write(diff)
        open(os.path.join(d, 'demo.py'), 'w').write(textwrap.dedent(p['demo']).lstrip())
        if 'lib' in p['demo']:
            open(os.path.join(d, 'lib.py'), 'w').write(lib())
        open(os.path.join(d, 'demo.sh'), 'w').write(
            '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 NUMBA_OPT=0\nexec /opt/venv/bin/python "$(dirname "$(readlink -f "$0")")/demo.py" > /dev/null\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': p['property'], 'needs': p['needs'], 'what_it_breaks': p['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        bad = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=head, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL)
        subprocess.check_call(['git', '-C', head, 'checkout', '-q', '--', '.'])
        good = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=head, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL)
        ok = bad.returncode != 0 and good.returncode == 0
        print(p['id'], p['property'], 'OK' if ok else 'NOT CONFIRMED', 'with:', bad.returncode, bad.stderr.decode().strip().splitlines()[-1:], 'without:', good.returncode, good.stderr.decode()[-300:] if good.returncode else '')
        sys.stdout.flush()
    shutil.rmtree(head, ignore_errors=True)


main()
