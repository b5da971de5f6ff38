#!/usr/bin/env python3
"""Behaviour-preserving edits: the obligations (and with --check the whole check) must stay quiet on each.
refactorings.py [--check] [--prop Cxx] [rNN ...]     each file of refac/ holds replacement functions per module."""
import ast, os, re, shutil, subprocess, sys, tempfile, json
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SYMPY = "/opt/veriftools/pyvenv/bin/python"


def rewrite(path, new):
    src = open(path).read()
    old = {n.name: n for n in ast.parse(src).body if isinstance(n, ast.FunctionDef)}
    tree = ast.parse(new)
    nl = new.splitlines()
    lines = src.splitlines()
    edits, pend = [], []
    for n in tree.body:
        text = nl[(n.decorator_list[0] if getattr(n, 'decorator_list', None) else n).lineno - 1:n.end_lineno]
        if isinstance(n, ast.FunctionDef) and n.name in old:
            edits.append((old[n.name], text))
            if pend:
                edits[-1] = (old[n.name], sum(pend, []) + text)
                pend = []
        else:
            pend.append(text + ['', ''])
    tail = sum(pend, [])
    for o, text in sorted(edits, key=lambda e: -e[0].lineno):
        lines[o.lineno - 1:o.end_lineno] = text
    out = '\n'.join(lines) + '\n'
    if tail:
        m = re.search(r'\nif __name__', out)
        k = m.start() if m else len(out)
        out = out[:k] + '\n' + '\n'.join(tail) + out[k:]
    ast.parse(out)
    open(path, 'w').write(out)


def one(job):
    f, prop, check = job
    txt = open(f'{ROOT}/tools/refac/{f}.py').read()
    d = tempfile.mkdtemp(prefix='rf_')
    try:
        shutil.copytree('/repo', d + '/repo', symlinks=True)
        for part in txt.split('### ')[1:]:
            mod, body = part.split('\n', 1)
            rewrite(d + f'/repo/solidspy/{mod.strip()}.py', body)
        env = dict(os.environ, VF_REPO=d + '/repo', VERIF_SEED='1', VERIF_TIER='quick')
        if check:
            shutil.copytree(ROOT, d + '/verif', ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', '__pycache__'))
            r = subprocess.run(['python3', 'vf/check.py', prop], cwd=d + '/verif', capture_output=True, text=True, env=env)
            return f, prop, 'rc=%d %s' % (r.returncode, (r.stdout + r.stderr)[-1500:] if r.returncode else '')
        o = d + '/o.json'
        r = subprocess.run([SYMPY, 'vf/symrun.py', '--prop', prop, '--out', o], cwd=ROOT, capture_output=True, text=True, env=env)
        if not os.path.exists(o):
            return f, prop, 'CRASH ' + r.stderr[-600:]
        bad = [b for b in json.load(open(o))['obligations'] if b['status'] != 'proved']
        return f, prop, '\n'.join('   %s %s/%s: %s' % (b['status'], b.get('kind'), b['name'], str(b.get('detail', b.get('reason', '')))[:260]) for b in bad)
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    a = sys.argv[1:]
    check = '--check' in a
    props = None
    if '--prop' in a:
        k = a.index('--prop'); props = a[k + 1].split(','); del a[k:k + 2]
    a = [x for x in a if not x.startswith('--')]
    jobs = []
    for f in sorted(os.listdir(f'{ROOT}/tools/refac')):
        f = f[:-3]
        if a and f not in a: continue
        ps = re.search(r'# props: (.*)', open(f'{ROOT}/tools/refac/{f}.py').read()).group(1).split()
        jobs += [(f, p, check) for p in ps if not props or p in props]
    with ThreadPoolExecutor(4) as ex:
        for f, p, s in ex.map(one, jobs):
            print(f, p, s if s.startswith(('rc', 'CRASH')) else ('\n' + s if s else 'quiet'), flush=True)
