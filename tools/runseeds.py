#!/usr/bin/env python3
"""Run the checks against the planted bugs: runseeds.py [id ...] [-j N]. Each runs in a scratch copy of /verif against
a scratch copy of /repo (VF_REPO)."""
import sys, os, subprocess, shutil, json, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(i, props=None):
    meta = json.load(open(f'{ROOT}/seeded/{i}/meta.json'))
    d = tempfile.mkdtemp(prefix='rs_')
    try:
        shutil.copytree('/repo', d + '/repo', symlinks=True)
        r = subprocess.run(['git', 'apply', f'{ROOT}/seeded/{i}/patch.diff'], cwd=d + '/repo', capture_output=True, text=True)
        if r.returncode:
            return i, 'patch: ' + r.stderr
        shutil.copytree(ROOT, d + '/verif', ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', '__pycache__'))
        out = []
        for p in props or [meta['property']]:
            r = subprocess.run(['python3', 'vf/check.py', p], cwd=d + '/verif', capture_output=True, text=True,
                               env=dict(os.environ, VF_REPO=d + '/repo', VERIF_SEED='1', VERIF_TIER='quick'))
            ls = r.stdout.strip().splitlines()
            out.append('%s rc=%d %s | %s | %s' % (p, r.returncode, ls[0] if ls else r.stderr[-300:], [l for l in ls if 'refuted' in l][1:2],
                       'no-failing-input' if 'no-failing-input-found' in r.stdout else ''))
            ev = d + f'/verif/evidence/{p}.json'
            if os.path.exists(ev):
                e = json.load(open(ev))['coverage']['obligation_list']
                out.append('      sym: ' + '; '.join(sorted({o['name'] + ':' + o.get('kind', o['status']) for o in e if o['status'] != 'proved'}))[:400])
            out.append('      ' + ' '.join(l.strip() for l in ls if l.startswith('  ') and 'undischarged' not in l)[:300])
        return i, '\n'.join(out)
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    a = [x for x in sys.argv[1:]]
    j = 3
    if '-j' in a:
        k = a.index('-j'); j = int(a[k + 1]); del a[k:k + 2]
    ids = a or sorted(os.listdir(f'{ROOT}/seeded'))
    with ThreadPoolExecutor(j) as ex:
        for i, s in ex.map(one, ids):
            print('==', i, s, flush=True)
