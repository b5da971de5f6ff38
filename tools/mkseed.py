#!/usr/bin/env python3
"""Build /verif/seeded/<id>/ from tools/seeds.py: apply the replacement in a scratch copy of /repo,
confirm that the stable tests still pass and that the demonstration passes without and fails with it."""
import sys, os, subprocess, shutil, json, tempfile
sys.path.insert(0, os.path.dirname(__file__))
from seeds import SEEDS
PY = '/opt/venv/bin/python'
DEMO = '#!/bin/bash\nexport PYTHONPATH="$PWD" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, **kw):
    env = dict(os.environ, PYTHONPATH=cwd, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1',
               OPENBLAS_NUM_THREADS='1', MPLCONFIGDIR='/opt/vp/mplconfig')
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, **kw)


def build(s):
    d = tempfile.mkdtemp(prefix='seed_')
    try:
        w = d + '/repo'
        shutil.copytree('/repo', w, symlinks=True)
        demo = d + '/demo'
        os.mkdir(demo)
        open(demo + '/demo.sh', 'w').write(DEMO)
        open(demo + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
        r = sh(['bash', demo + '/demo.sh'], w)
        if r.returncode:
            return 'demo fails on the unchanged tree\n' + r.stdout + r.stderr
        for f, edits in s['edits'].items():
            t = open(w + '/' + f).read()
            for old, new in edits:
                if t.count(old) != 1:
                    return f'{t.count(old)} matches of {old!r}'
                t = t.replace(old, new)
            open(w + '/' + f, 'w').write(t)
        r = sh(['bash', demo + '/demo.sh'], w)
        if not r.returncode:
            return 'demo passes on the patched tree'
        why = (r.stderr.strip().splitlines() or ['?'])[-1]
        r = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '--continue-on-collection-errors',
                '--doctest-modules', 'tests', 'solidspy'], w)
        import re
        if not int((re.search(r'(\d+) passed', r.stdout) or [0, 0])[1]) >= 71:
            return 'tests: ' + '\n'.join(r.stdout.splitlines()[-12:])
        diff = subprocess.run(['git', 'diff', '--', 'solidspy'], cwd=w, capture_output=True, text=True).stdout
        out = '/verif/seeded/' + s['id']
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.sh', 'w').write(DEMO)
        open(out + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']),
                  open(out + '/meta.json', 'w'), indent=1)
        return 'ok  (' + why[:100] + ')'
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    for s in SEEDS:
        if len(sys.argv) > 1 and s['id'] not in sys.argv[1:]:
            continue
        print(s['id'], build(s), flush=True)
