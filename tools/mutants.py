#!/usr/bin/env python3
"""Systematic mutants of the functions under contract against the deductive layer: mutants.py FILE [function ...] [-n MAX] [-j N]
A mutant survives when every obligation of the properties of its function is still discharged."""
import ast, copy, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SYMPY = "/opt/veriftools/pyvenv/bin/python"
PROPS = {
    'assemutil': {'eqcounter': 'C10', 'DME': 'C10', 'ele_fun': 'C22', 'retriever': 'C22 C11', 'assembler': 'C11 C13', 'sparse_assem': 'C11',
                  'dense_assem': 'C11', 'loadasem': 'C12'},
    'femutil': {'eletype': 'C22', 'umat': 'C05', 'elast_mat': 'C05', 'elast_mat_2d': 'C05', 'elast_mat_axi': 'C05',
                'jacoper': 'C03', 'elast_diff_2d': 'C04', 'elast_diff_axi': 'C04', 'elast_diff_3d': 'C04', 'str_el3': 'C04 C15', 'str_el4': 'C04 C15',
                'str_el6': 'C04 C15', '*': 'C01'},
    'uelutil': {'spring': 'C08 C09', 'truss2D': 'C08 C09', 'beam2DU': 'C08 C07 C09', 'beam2D': 'C08 C07 C09', '*': 'C06 C07'},
    'gaussutil': {'*': 'C02'},
    'postprocesor': {'complete_disp': 'C13', 'strain_nodes': 'C15', 'stress_truss': 'C08', 'eigvals': 'C19', 'principal_dirs': 'C19', 'energy': 'C13',
                     'mesh2tri': 'C20', 'plot_node_field': 'C20', 'fields_plot': 'C20', 'tri_plot': 'C20', 'plot_truss': 'C20'},
    'preprocesor': {'readin': 'C14', 'initial_params': '', 'echomod': '', '*': 'C16 C17'},
    'solutil': {'*': 'C13'},
    'blochutil': {'*': 'C18'},
    'solids_GUI': {'solids_GUI': 'C14', 'solids_auto': 'C13'},
}


def sites(fn):
    """(description, function applied to a fresh copy of the tree node list) for each mutation"""
    nodes = list(ast.walk(fn))
    doc = fn.body[0].value if fn.body and isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else None
    out = []
    for k, n in enumerate(nodes):
        if isinstance(n, ast.BinOp):
            alt = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult}.get(type(n.op))
            if alt and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                out.append((k, 'op', alt))
        elif isinstance(n, ast.AugAssign):
            out.append((k, 'aug', None))
            if isinstance(n.op, ast.Add):
                out.append((k, 'op', ast.Sub))
        elif isinstance(n, ast.Constant) and n is not doc and type(n.value) in (int, float):
            out.append((k, 'const', n.value + 1))
            if n.value not in (0, -1):
                out.append((k, 'const', n.value - 1))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant):
            out.append((k, 'unary', None))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            for alt in {ast.Eq: [ast.NotEq, ast.LtE, ast.GtE], ast.NotEq: [ast.Eq, ast.Gt], ast.Lt: [ast.LtE, ast.Gt], ast.Gt: [ast.GtE, ast.Lt],
                        ast.LtE: [ast.Lt], ast.GtE: [ast.Gt], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}.get(type(n.ops[0]), []):
                out.append((k, 'cmp', alt))
        elif isinstance(n, (ast.Assign, ast.Expr)) and not (isinstance(n, ast.Expr) and n.value is doc):
            out.append((k, 'drop', None))
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Tuple) and len(n.slice.elts) == 2:
            out.append((k, 'swapix', None))
        elif isinstance(n, ast.Attribute) and n.attr == 'T':
            out.append((k, 'noT', None))
        elif isinstance(n, ast.Tuple) and len(n.elts) == 2 and isinstance(n.ctx, ast.Load) and not any(isinstance(e, ast.Slice) for e in n.elts):
            out.append((k, 'swap', None))
    return out


def apply(fn, site):
    k, what, arg = site
    fn = copy.deepcopy(fn)
    n = list(ast.walk(fn))[k]
    if what == 'op':
        n.op = arg()
    elif what == 'aug':
        new = ast.Assign(targets=[n.target], value=n.value, lineno=n.lineno)
        for p in ast.walk(fn):
            for f in ('body', 'orelse'):
                b = getattr(p, f, None)
                if isinstance(b, list) and n in b:
                    b[b.index(n)] = new
    elif what == 'const':
        n.value = arg
    elif what == 'unary':
        n.op = ast.UAdd()
    elif what == 'cmp':
        n.ops = [arg()]
    elif what == 'drop':
        for p in ast.walk(fn):
            for f in ('body', 'orelse'):
                b = getattr(p, f, None)
                if isinstance(b, list) and n in b:
                    b[b.index(n)] = ast.Pass()
    elif what in ('swapix',):
        n.slice.elts = n.slice.elts[::-1]
    elif what == 'swap':
        n.elts = n.elts[::-1]
    elif what == 'noT':
        for p in ast.walk(fn):
            for f, v in ast.iter_fields(p):
                if v is n:
                    setattr(p, f, n.value)
                elif isinstance(v, list) and n in v:
                    v[v.index(n)] = n.value
    return ast.fix_missing_locations(fn)


def run(job):
    mod, fn, site, props = job
    src = open(f'/repo/solidspy/{mod}.py').read()
    try:
        new = ast.unparse(apply(fn, site))
    except Exception as e:
        return None
    old = ast.unparse(fn)
    diff = [b for a, b in zip(old.splitlines(), new.splitlines()) if a != b][:1]
    lines = src.splitlines()
    lines[fn.lineno - 1:fn.end_lineno] = new.splitlines()
    d = tempfile.mkdtemp(prefix='mu_')
    try:
        shutil.copytree('/repo/solidspy', d + '/solidspy')
        open(d + f'/solidspy/{mod}.py', 'w').write('\n'.join(lines) + '\n')
        for p in props:
            o = d + '/o.json'
            if os.path.exists(o):
                os.remove(o)
            try:
                r = subprocess.run([SYMPY, 'vf/symrun.py', '--prop', p, '--limit', '150', '--out', o], cwd=ROOT, capture_output=True, text=True,
                                   env=dict(os.environ, VF_REPO=d), timeout=400)
            except subprocess.TimeoutExpired:
                return fn.name, site, diff, 'TIME'
            if not os.path.exists(o):
                return fn.name, site, diff, 'CRASH ' + r.stderr[-200:]
            bad = [b for b in json.load(open(o))['obligations'] if b['status'] != 'proved']
            if bad:
                ks = sorted({b.get('kind') or b['status'] for b in bad})
                return fn.name, site, diff, 'killed %s %s' % (p, ','.join(ks))
        return fn.name, site, diff, 'SURVIVED'
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    a = sys.argv[1:]
    nmax, j = 40, 6
    for o in ('-n', '-j'):
        if o in a:
            k = a.index(o)
            if o == '-n': nmax = int(a[k + 1])
            else: j = int(a[k + 1])
            del a[k:k + 2]
    mod, names = a[0], a[1:]
    tree = ast.parse(open(f'/repo/solidspy/{mod}.py').read())
    rng = random.Random(7)
    jobs = []
    for fn in tree.body:
        if not isinstance(fn, ast.FunctionDef) or names and fn.name not in names:
            continue
        ps = PROPS[mod].get(fn.name, PROPS[mod].get('*'))
        if not ps:
            continue
        ss = sites(fn)
        if len(ss) > nmax:
            ss = rng.sample(ss, nmax)
        jobs += [(mod, fn, s, ps.split()) for s in ss]
    tot = {}
    with ThreadPoolExecutor(j) as ex:
        for r in ex.map(run, jobs):
            if r is None: continue
            k = r[3].split()[0] + ' ' + (r[3].split()[-1] if r[3].startswith('killed') else '')
            tot[k] = tot.get(k, 0) + 1
            if not r[3].startswith('killed') or 'outside' in r[3] or 'verifier' in r[3] or 'time' in r[3]:
                print(r[0], r[1][:2], r[1][2] if r[1][1] == 'const' else '', r[2], '->', r[3], flush=True)
    print(mod, tot)
