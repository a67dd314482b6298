"""Development helper: runs every planted bug against the check of its
property (in a scratch copy of /repo).  plants.py [id...]"""
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/dev/shm/plants_%d' % os.getpid()
ids = sys.argv[1:] or sorted(os.listdir(HERE + '/seeded'))
V = W + '_verif'
shutil.copytree(HERE, V, ignore=shutil.ignore_patterns('seeded', '.git',
                                                       'evidence'))
missed = []
for i in ids:
    d = os.path.join(HERE, 'seeded', i)
    prop = json.load(open(d + '/meta.json'))['property']
    shutil.rmtree(W, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', W])
    subprocess.check_call(['git', 'apply', d + '/patch.diff'], cwd=W)
    t = time.time()
    r = subprocess.run([V + '/run_check.py', prop, '--tier', 'quick'], cwd=V,
                       capture_output=True, text=True,
                       env=dict(os.environ, SYMX_REPO=W))
    out = r.stdout.strip().splitlines()
    print(i, prop, 'CAUGHT' if r.returncode == 1 and any(
        x.startswith('VIOLATION property=' + prop) for x in out)
        else 'MISSED rc=%d' % r.returncode,
        '%.0fs' % (time.time() - t),
        [x[:100] for x in out if x.startswith(('scenario', 'INCON'))][:2],
        flush=True)
    shutil.rmtree(W)
shutil.rmtree(V)
