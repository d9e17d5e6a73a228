"""Run the quick check of each planted bug's property with the bug applied to a copy of /repo.

usage: tools/seeded.py [ID...]    (the registered checks always read /repo; this tool sets SYMX_REPO)"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
S = '/verif/seeded'
for i in sys.argv[1:] or sorted(os.listdir(S)):
    prop = json.load(open(f'{S}/{i}/meta.json'))['property']
    if not os.path.exists(f'/verif/harness/{prop.lower()}.py'):
        print(i, prop, 'no check yet')
        continue
    tmp = tempfile.mkdtemp(prefix='seeded.')
    try:
        subprocess.run(['cp', '-a', '/repo', tmp + '/repo'], check=True)
        subprocess.run(['git', '-C', tmp + '/repo', 'apply', f'{S}/{i}/patch.diff'], check=True)
        r = subprocess.run(['./check', prop, 'quick'], cwd='/verif', capture_output=True, text=True,
                           env=dict(os.environ, SYMX_REPO=tmp + '/repo'))
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        print(i, prop, 'CAUGHT' if r.returncode == 1 and v else f'missed rc={r.returncode}', len(v), r.stderr[-200:], flush=True)
    finally:
        shutil.rmtree(tmp)
