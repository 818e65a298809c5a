"""setup_cmd: checks that the tools are there and that every specification typechecks."""
import concurrent.futures
import glob
import os
import subprocess
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def check(f):
    p = subprocess.run(['quint', 'typecheck', f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return f, p.returncode, p.stdout


specs = sorted(glob.glob(os.path.join(ROOT, 'spec', '*.qnt')))
bad = 0
with concurrent.futures.ThreadPoolExecutor(6) as ex:
    for f, rc, out in ex.map(check, specs):
        print(os.path.basename(f), 'ok' if rc == 0 else out)
        bad |= rc != 0
sys.exit(1 if bad else 0)
