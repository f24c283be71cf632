"""plant.py SPECFILE: make /verif/seeded/<id> from a Python file that defines ID, PROP, NEEDS,
BREAKS, FILE, EDITS [(old, new)] (or FILES {file: edits}) and DEMO (Python source that exits non-zero when the
property is broken); verified in a scratch copy."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def plant(path):
    g = {}
    exec(open(path).read(), g)
    files = g.get('FILES') or {g['FILE']: g['EDITS']}
    tmp = tempfile.mkdtemp(prefix='plant')
    w = os.path.join(tmp, 'repo')
    try:
        shutil.copytree('/repo', w, symlinks=True)
        for f, edits in files.items():
            p = os.path.join(w, f)
            s = open(p, newline='').read()
            for old, new in edits:
                n = s.count(old)
                assert n == 1, (g['ID'], n, old)
                s = s.replace(old, new)
            open(p, 'w', newline='').write(s)
        diff = sh('git -C %s diff' % w).stdout
        assert diff
        d = os.path.join(tmp, g['ID'])
        os.makedirs(d)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.py'), 'w').write(g['DEMO'].lstrip('\n'))
        open(os.path.join(d, 'demo.sh'), 'w').write(
            '#!/bin/bash\n# run with cwd = the repository\n'
            'export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\n'
            'D="$(cd "$(dirname "$0")" && pwd)"\n'
            'exec timeout 120 python3 "$D/demo.py"\n')
        json.dump(dict(property=g['PROP'], needs=g['NEEDS'], what_it_breaks=g['BREAKS']),
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        a = sh('bash %s/demo.sh' % d, cwd='/repo')
        b = sh('bash %s/demo.sh' % d, cwd=w)
        if a.returncode != 0:
            print(g['ID'], 'DEMO FAILS ON CLEAN', a.stdout[-500:], a.stderr[-800:])
            return False
        if b.returncode == 0:
            print(g['ID'], 'DEMO DOES NOT FAIL WITH PATCH')
            return False
        r = sh('PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=%s %s -m pytest -q -p no:cacheprovider '
               '2>&1 | tail -1' % (w, PY), cwd=w).stdout
        loc = sh('cd %s && %s -c "import jpylyzer; print(jpylyzer.__file__)"' % (w, PY)).stdout
        if '175 passed' not in r or w not in loc:
            print(g['ID'], 'TESTS', r, loc)
            return False
        out = os.path.join(HERE, 'seeded', g['ID'])
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
        print(g['ID'], 'ok; demo with patch: rc', b.returncode, (b.stderr or b.stdout).strip()[-120:])
        return True
    finally:
        shutil.rmtree(tmp)


ok = [plant(p) for p in sys.argv[1:]]
sys.exit(0 if all(ok) else 1)
