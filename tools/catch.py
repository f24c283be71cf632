"""catch.py [--tier T] ID...: apply each planted bug to a scratch copy of /repo and run the check
of its property (or those given by --props) against that copy."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, 'seeded')))
for i in ids:
    d = os.path.join(HERE, 'seeded', i)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    tmp = tempfile.mkdtemp(prefix='catch')
    try:
        w = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', w, symlinks=True)
        subprocess.check_call(['git', '-C', w, 'apply', os.path.join(d, 'patch.diff')])
        t = time.time()
        r = subprocess.run([sys.executable, 'check.py', prop], cwd=HERE, capture_output=True,
                           text=True, env=dict(os.environ, VERIF_REPO=w))
        hit = r.returncode == 1 and 'VIOLATION property=%s' % prop in r.stdout
        print('%-34s %s %s %.0fs' % (i, prop, 'CAUGHT' if hit else 'MISSED rc=%d' % r.returncode,
                                     time.time() - t), flush=True)
        if not hit:
            print('   ', r.stdout[-600:], r.stderr[-300:])
        elif '-v' in os.environ.get('CATCH', ''):
            print(r.stdout[-500:])
    finally:
        shutil.rmtree(tmp)
