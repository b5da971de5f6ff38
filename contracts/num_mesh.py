"""Executable contracts, mesh level: C10-C18, C20, C22."""
import itertools
import math
import os
import shutil
import tempfile
import numpy as np
from vf.runtime import check, close, raises, same, Known
from contracts import spec, gen


# ------------------------------------------------------------------- C10
def numbering(cons, nd):
    """oracle: (neq, table)"""
    bc = np.array(cons, dtype=float).astype(int)
    k = 0
    for i in range(bc.shape[0]):
        for j in range(nd):
            if bc[i, j] == 0:
                bc[i, j] = k
                k += 1
    return k, bc


@check("C10")
class eqcounter:
    def gen(env, rng, i):
        nd = int(rng.integers(1, 7))
        n = env.size(rng, 1, 12, 700)
        if i % 150 in (3, 4):   # beyond the range of 16-bit numbers
            n = {3: 33500, 4: 67000}[i % 150]//nd
        c = gen.cons_table(rng, n, nd, .01 if n > 3000 else None)
        if i % 9 == 0:
            c[...] = -1
        if i % 9 == 1:
            c[...] = 0
        if rng.random() < .15:  # columns the numbering does not look at
            c = np.column_stack([c, gen.cons_table(rng, n, int(rng.integers(1, 3))).astype(c.dtype)])
        return dict(cons=c, nd=None if nd == 2 and rng.random() < .5 else nd)

    def chk(env, cons, nd):
        neq, bc = env.ass.eqcounter(cons) if nd is None else env.ass.eqcounter(cons, ndof_node=nd)
        e, b = numbering(cons, nd or 2)
        if neq != e:
            return "number of equations %r, expected %r" % (neq, e)
        bc = np.asarray(bc)
        if bc.dtype.kind != "i":
            return "equation numbers are not integers"
        if bc.ndim != 2 or bc.shape[0] != b.shape[0] or bc.shape[1] < (nd or 2):
            return "table of equation numbers of shape %s" % (bc.shape,)
        return close(bc[:, :nd or 2], b[:, :nd or 2], 0, 0, "equation number")


@check("C10")
class DME:
    def gen(env, rng, i):
        user = rng.random() < .35
        n = env.size(rng, 2, 12, 700)
        ne = env.size(rng, 1, 12, 700)
        if user:
            nn, nd = int(rng.integers(1, 10)), int(rng.integers(1, 7))
            types = [int(t) for t in rng.choice(np.arange(0, 100), size=3, replace=False)]
            mx = nn*nd + int(rng.integers(0, 4))
        else:
            nd = int(rng.choice([2, 2, 3]))
            if nd == 3:
                types, nn = [7, 8], 2
            else:
                t = int(rng.integers(1, 7))
                types, nn = ([5, 6] if t in (5, 6) else [t]), spec.CATALOGUE[t][1]
            mx = max(18, nn*nd) if rng.random() < .6 else nn*nd
        els = np.zeros((ne, 3 + nn), dtype=int)
        els[:, 0] = np.arange(ne)
        els[:, 1] = rng.choice(types, size=ne)
        els[:, 2] = rng.integers(0, 4, size=ne)
        els[:, 3:] = rng.integers(0, n, size=(ne, nn))
        return dict(cons=gen.cons_table(rng, n, nd), els=els, nd=nd, mx=int(mx), user=bool(user),
                    plain=bool(nd == 2 and mx == 18 and not user and rng.random() < .5))

    def chk(env, cons, els, nd, mx, user, plain):
        nn = els.shape[1] - 3
        asked = []
        if plain:
            op, bc, neq = env.ass.DME(cons, els)
        elif user:
            def f(t):
                asked.append(int(t))
                return nn*nd
            op, bc, neq = env.ass.DME(cons, els, ndof_node=nd, ndof_el_max=mx, ndof_el=f)
        else:
            op, bc, neq = env.ass.DME(cons, els, ndof_node=nd, ndof_el_max=mx)
        if user and not set(asked) <= set(int(t) for t in els[:, 1]):
            return "user catalogue asked for types %s" % sorted(set(asked))
        e, b = numbering(cons, nd)
        if neq != e:
            return "number of equations %r, expected %r" % (neq, e)
        r = close(bc, b, 0, 0, "equation number")
        if r:
            return r
        op = np.asarray(op)
        if op.dtype.kind != "i" or op.ndim != 2 or op.shape[0] != len(els) or op.shape[1] < nn*nd:
            return "assembly map has shape %s type %s" % (op.shape, op.dtype)
        want = b[els[:, 3:]].reshape(len(els), -1)
        return close(op[:, :nn*nd], want, 0, 0, "assembly map")


# ------------------------------------------------------------------- C11
def user_element(seed, sizes):
    def uel(coord, params):
        n = sizes[int(round(float(np.ravel(params)[0]))) % len(sizes)]
        r = np.random.default_rng([seed, int(abs(float(np.sum(coord)))*1e6) % (2**31)])
        K, M = r.standard_normal((n, n)), r.standard_normal((n, n))
        u = r.random()
        if u < .2:      # a point mass, a massless connection
            (K if u < .1 else M)[...] = 0.0
        return K, M
    return uel


class EmptyRoutine(list):
    """a user element kept as an (empty, hence false) container with a call method"""
    def __init__(self, f):
        self.f = f

    def __call__(self, coord, params):
        return self.f(coord, params)


def dense_oracle(els, mats, nodes, neq, op, f):
    K, M = np.zeros((neq, neq)), np.zeros((neq, neq))
    for e in range(len(els)):
        k, m = f(nodes[els[e, 3:], 1:], mats[els[e, 2]], int(els[e, 1]))
        k, m = np.asarray(k, float), np.asarray(m, float)
        for a in range(k.shape[0]):
            A = int(op[e, a])
            if A == -1:
                continue
            for b in range(k.shape[0]):
                Bq = int(op[e, b])
                if Bq != -1:
                    K[A, Bq] += k[a, b]
                    M[A, Bq] += m[a, b]
    return K, M


def assembled(env, args, uel):
    els, mats, nodes, neq, op = args
    out = []
    for f, kw in ((env.ass.assembler, {}), (env.ass.assembler, dict(sparse=True)),
                  (env.ass.assembler, dict(sparse=False)), (env.ass.sparse_assem, {}),
                  (env.ass.dense_assem, {})):
        kw = dict(kw)
        if uel is not None:
            kw["uel"] = uel
        out.append((f.__name__ + str(sorted(k for k in kw if k != "uel")) + str(kw.get("sparse", "")),
                    f(els, mats, nodes, neq, op, **kw)))
    return out


def cmp_assembled(env, res, K, M):
    for name, (a, b) in res:
        dense = "dense" in name or "False" in name
        for nm, g, w in (("stiffness", a, K), ("mass", b, M)):
            if dense != isinstance(g, np.ndarray):
                return "%s returns %s" % (name, type(g).__name__)
            if not dense:
                if g.format != "csr":
                    return "%s returns format %s" % (name, g.format)
                g = g.toarray()
            r = close(g, w, 1e-10, 1e-12, "%s %s" % (name, nm))
            if r:
                return r


@check("C11")
class assembly_user:
    """arbitrary nonsymmetric element matrices, arbitrary maps"""
    def gen(env, rng, i):
        nn = int(rng.integers(1, 6))
        nd = int(rng.integers(1, 4))
        n = int(rng.integers(2, 8))
        ne = env.size(rng, 0 if i % 10 == 0 else 1, 7, 260)
        full = nn*nd
        sizes = [full] if rng.random() < .6 else [int(x) for x in rng.integers(1, full + 1, size=3)]
        els = np.zeros((ne, 3 + nn), dtype=int)
        els[:, 0] = np.arange(ne) if rng.random() < .6 else rng.permutation(ne)
        els[:, 1] = rng.integers(0, 12, size=ne)
        nmat = int(rng.integers(1, 5))
        els[:, 2] = rng.integers(0, nmat, size=ne)
        els[:, 3:] = rng.integers(0, n, size=(ne, nn))
        neq = env.size(rng, 1, 10, 60)
        op = rng.integers(-1, neq, size=(ne, full + int(rng.integers(0, 3))))
        if rng.random() < .3:
            op[rng.random(op.shape) < .5] = -1
        nodes = np.column_stack([np.arange(n), rng.standard_normal((n, 2))])
        mats = np.column_stack([np.arange(nmat).astype(float), rng.standard_normal((nmat, 2))])
        return dict(els=els, mats=mats, nodes=nodes, neq=neq, op=op, seed=int(rng.integers(10**6)), sizes=sizes)

    def chk(env, els, mats, nodes, neq, op, seed, sizes):
        u = user_element(seed, sizes)
        K, M = dense_oracle(els, mats, nodes, neq, op, lambda c, p, t: u(c, p))
        return cmp_assembled(env, assembled(env, (els, mats, nodes, neq, op), u), K, M)


def catalogue_model(env, rng, i, types=(1, 2, 3, 4, 5, 6, 7, 8)):
    t = int(types[i % len(types)])
    if t <= 4:
        nodes, els, nmat = gen.grid_mesh(env, rng, t)
        mats = gen.mats_table(env, rng, nmat)
        nd = 2
    else:
        ne = env.size(rng, 1, 8, 200)
        nodes, els, nmat = gen.truss_mesh(env, rng, etype=t, ne=ne)
        nd = 3 if t in (7, 8) else 2
        cols = {5: 1, 6: int(rng.choice([2, 3])), 7: int(rng.choice([2, 4])), 8: int(rng.choice([3, 4]))}[t]
        mats = 10**rng.uniform(-1, 1, size=(nmat, cols))
    cons = gen.cons_table(rng, len(nodes), nd)
    return t, nodes, els, mats, cons, nd


@check("C11")
class assembly_catalogue:
    def gen(env, rng, i):
        t, nodes, els, mats, cons, nd = catalogue_model(env, rng, i)
        return dict(t=t, nodes=nodes, els=els, mats=mats, cons=cons, nd=nd)

    def chk(env, t, nodes, els, mats, cons, nd):
        neq, bc = numbering(cons, nd)
        if neq == 0:
            return None
        op = bc[els[:, 3:]].reshape(len(els), -1)
        with np.errstate(all="ignore"):
            K, M = dense_oracle(els, mats, nodes, neq, op,
                                lambda c, p, ty: getattr(env.uel, spec.FUNC[ty])(c, p))
            return cmp_assembled(env, assembled(env, (els, mats, nodes, neq, op), None), K, M)


# ------------------------------------------------------------------- C12
@check("C12")
class loads:
    def gen(env, rng, i):
        nd = int(rng.integers(1, 7))
        n = env.size(rng, 1, 10, 500)
        cons = gen.cons_table(rng, n, nd)
        nl = 0 if i % 12 == 0 else env.size(rng, 1, 12, 500)
        L = np.zeros((nl, 1 + nd))
        L[:, 0] = rng.integers(0, n, size=nl)
        if rng.random() < .5 and nl > 1:
            L[rng.integers(nl), 0] = L[rng.integers(nl), 0]
        L[:, 1:] = rng.standard_normal((nl, nd))*10**rng.uniform(-3, 3)
        if rng.random() < .3:       # records of very different size
            L[:, 1:] *= 10**rng.uniform(-12, 3, size=(nl, 1))
        L[rng.random(L.shape) < .2] = 0
        L[:, 0] = np.clip(np.round(L[:, 0]), 0, n - 1)
        if rng.random() < .2:
            L[:, 1:] = np.round(L[:, 1:])
            L = L.astype(int)
        elif rng.random() < .2:
            L = L.astype(np.float32)
        return dict(cons=cons, nd=None if nd == 2 and rng.random() < .5 else nd, L=L)

    def chk(env, cons, nd, L):
        neq, bc = numbering(cons, nd or 2)
        got = env.ass.loadasem(L, bc, neq) if nd is None else env.ass.loadasem(L, bc, neq, ndof_node=nd)
        want = np.zeros(neq)
        for r in L:
            for d in range(nd or 2):
                q = bc[int(r[0]), d]
                if q != -1:
                    want[q] += float(r[d + 1])
        return close(np.asarray(got, float), want, 1e-12, 1e-13, "load")


# ------------------------------------------------------------------- C13
def stable_model(env, rng, etype, p_extra=0.15):
    nodes, els, nmat = gen.grid_mesh(env, rng, etype)
    mats = gen.mats_table(env, rng, nmat)
    mats[:, 0] = 10**rng.uniform(-1, 3)*rng.uniform(.5, 2, size=nmat)
    mats[:, 1] = rng.uniform(0, .4, size=nmat)
    cons = np.where(rng.random((len(nodes), 2)) < p_extra, -1, 0)
    a = int(rng.integers(len(nodes)))
    b = int(np.argmax(np.sum((nodes[:, 1:] - nodes[a, 1:])**2, axis=1)))
    cons[a] = -1
    cons[b] = -1
    if (cons == 0).sum() == 0:
        cons[(a + 1) % len(nodes)] = 0
    nl = int(rng.integers(1, 6))
    free = np.argwhere((cons == 0).any(axis=1)).ravel()
    L = np.zeros((nl, 3))
    L[:, 0] = rng.choice(free if len(free) and rng.random() < .8 else np.arange(len(nodes)), size=nl)
    L[:, 1:] = rng.standard_normal((nl, 2))*10**rng.uniform(-2, 2)
    return nodes, els, mats, cons, L


def oracle_solution(env, nodes, els, mats, cons, L):
    neq, bc = numbering(cons, 2)
    op = bc[els[:, 3:]].reshape(len(els), -1)
    K, _ = dense_oracle(els, mats, nodes[:, :3], neq, op,
                        lambda c, p, ty: spec.element_num(spec.FUNC[ty], c, p[0], p[1], 1.0))
    f = np.zeros(neq)
    for r in L:
        for d in range(2):
            q = bc[int(r[0]), d]
            if q != -1:
                f[q] += r[1 + d]
    u = np.linalg.solve(K, f) if neq else np.zeros(0)
    full = np.zeros((len(nodes), 2))
    for i in range(len(nodes)):
        for d in range(2):
            if bc[i, d] != -1:
                full[i, d] = u[bc[i, d]]
    return K, f, u, bc, full, np.linalg.cond(K) if neq else 1.0


def node_strains(els, nodes, mats, full):
    """oracle: (strain, stress) averaged, sampled at the Gauss point nearest to each node"""
    n = len(nodes)
    E, S, cnt = np.zeros((n, 3)), np.zeros((n, 3)), np.zeros(n)
    for e in els:
        t = int(e[1])
        name = {1: "quad4", 2: "tri6", 3: "tri3"}[t]
        pts = {1: [(x*3**-.5, y*3**-.5) for x, y in spec.REF["quad4"]], 2: spec.RULE["tri6"]()[0],
               3: spec.RULE["tri3"]()[0]}[t]
        c = nodes[e[3:], 1:3]
        u = full[e[3:]].ravel()
        C = np.array(spec.C_plane_stress(*[float(x) for x in mats[e[2], :2]]), float)
        for k, node in enumerate(e[3:]):
            _, dN = spec.shape(name, [float(x) for x in pts[k]])
            dN = np.array(dN, float)
            dx = np.linalg.solve(dN @ c, dN)
            _, B = spec.HB2d([0]*len(c), dx)
            eps = np.array(B, float) @ u
            E[node] += eps
            S[node] += C @ eps
            cnt[node] += 1
    return E/cnt[:, None], S/cnt[:, None]


@check("C13")
class one_call_analysis:
    def gen(env, rng, i):
        t = [1, 3, 2, 4][i % 4]
        nodes, els, mats, cons, L = stable_model(env, rng, t)
        if rng.random() < .5:
            cons = cons.astype(float)
        return dict(nodes=nodes, els=els, mats=mats, cons=cons, L=L, strains=bool(t != 4 and rng.random() < .5),
                    default=bool(rng.random() < .3))

    def chk(env, nodes, els, mats, cons, L, strains, default):
        K, f, u, bc, full, cond = oracle_solution(env, nodes, els, mats, cons, L)
        if cond > 1e10:
            return None
        data = dict(nodes=nodes, elements=els, mats=mats, cons=cons, loads=L)
        kw = {} if default and not strains else dict(compute_strains=strains)
        r = env.gui.solids_auto(data, plot_contours=False, **kw)
        t = 1e-13*cond + 1e-9
        if strains:
            if not isinstance(r, tuple) or len(r) != 3:
                return "solids_auto returned %s" % type(r)
            disp, En, Sn = r
        else:
            disp = r
        if not isinstance(disp, np.ndarray):
            return "solids_auto returned %s without strains requested" % type(disp).__name__
        m = close(disp, full, t, t, "displacement")
        if m:
            return m
        for i, d in zip(*np.where(np.asarray(cons) == -1)):
            if disp[i, d] != 0:
                return "constrained displacement (%d,%d) is %r" % (i, d, disp[i, d])
        work, load = u @ K @ u, sum(l[1 + d]*disp[int(l[0]), d] for l in L for d in range(2))
        if abs(work - load) > 10*t*max(abs(work), abs(f) @ abs(u)):
            return "internal work %r, external work %r" % (work, load)
        if strains:
            Ew, Sw = node_strains(els, nodes, mats, full)
            return close(En, Ew, 100*t, 100*t, "nodal strain") or close(Sn, Sw, 100*t, 100*t, "nodal stress")


@check("C13")
class solver:
    def gen(env, rng, i):
        n = env.size(rng, 1, 9, 120)
        A = rng.standard_normal((n, n)) + n*np.eye(n)
        if rng.random() < .5:
            A = A @ A.T
        A[np.abs(A) < .3] *= rng.random() < .5
        A = A + 0.0 + np.eye(n)*n
        b = rng.standard_normal(n)*10**rng.uniform(-3, 3)
        if rng.random() < .1:
            b[...] = 0
        if rng.random() < .2:
            b = np.round(b*5).astype(int)
        return dict(A=A, b=b)

    def chk(env, A, b):
        from scipy.sparse import csr_matrix, csc_matrix
        want = np.linalg.solve(A, b)
        t = 1e-12*np.linalg.cond(A) + 1e-11
        return close(env.sol.static_sol(A, b), want, t, t, "dense solution") or \
            close(env.sol.static_sol(csr_matrix(A), b), want, t, t, "sparse solution") or \
            raises(TypeError, env.sol.static_sol, A.tolist(), b)


@check("C13", weight=.4)
class graded_solver:
    """models whose parts have very different stiffness"""
    def gen(env, rng, i):
        n = env.size(rng, 2, 9, 60)
        A = rng.standard_normal((n, n))
        A = A @ A.T/n + np.eye(n)
        A[np.abs(A) < .3] = 0
        A = A + np.diag(np.abs(A).sum(axis=1))
        return dict(A=A, d=10**rng.uniform(-1, 1, size=n)**3 if rng.random() < .3 else 10**rng.uniform(-7, 7, size=n)
                    if rng.random() < .5 else np.where(rng.random(n) < .5, 1.0, 10.0**rng.integers(-8, 8)),
                    b=rng.standard_normal(n))

    def chk(env, A, d, b):
        from scipy.sparse import csr_matrix
        want = np.linalg.solve(A, b)
        K, f = A*np.outer(d, d), b*d
        return close(env.sol.static_sol(K, f)*d, want, 1e-8, 1e-8, "dense solution") or \
            close(env.sol.static_sol(csr_matrix(K), f)*d, want, 1e-8, 1e-8, "sparse solution")


@check("C13")
class completion:
    def gen(env, rng, i):
        nd = int(rng.integers(1, 7))
        n = env.size(rng, 1, 10, 700)
        cons = gen.cons_table(rng, n, nd)
        neq, bc = numbering(cons, nd)
        sol = rng.standard_normal(neq)
        if rng.random() < .2:
            sol = np.round(sol*3).astype(int)
        return dict(bc=bc, sol=sol, nd=nd, plain=bool(nd == 2 and rng.random() < .5),
                    nodes=np.column_stack([np.arange(n), rng.standard_normal((n, 2))]))

    def chk(env, bc, sol, nd, plain, nodes):
        got = env.pos.complete_disp(bc, nodes, sol) if plain else \
            env.pos.complete_disp(bc, nodes, sol, ndof_node=nd)
        want = np.zeros((len(nodes), nd))
        for i in range(len(nodes)):
            for j in range(nd):
                want[i, j] = 0 if bc[i, j] == -1 else sol[bc[i, j]]
        if np.asarray(got).dtype.kind != "f":
            return "displacements of type %s" % np.asarray(got).dtype
        return close(got, want, 0, 0, "displacement")


@check("C13", weight=.3)
class energy:
    def gen(env, rng, i):
        n = env.size(rng, 1, 9, 100)
        A = rng.standard_normal((n, n))
        return dict(u=rng.standard_normal(n), K=A @ A.T if rng.random() < .7 else A, sp=bool(rng.random() < .5))

    def chk(env, u, K, sp):
        from scipy.sparse import csr_matrix
        e = env.pos.energy(u, csr_matrix(K) if sp else K)
        want = -.5*(u @ K @ u)
        if not abs(e - want) <= 1e-11*(np.abs(u) @ np.abs(K) @ np.abs(u)):
            return "energy %r, expected %r" % (e, want)


# ------------------------------------------------------------------- C14
def write_model(folder, nodes5, mats, els, L, rng):
    """text tables as a user or another program may write them (rng: a variety of layouts)"""
    def number(x, integer):
        if integer:
            return "%d" % x
        if x == int(x) and abs(x) < 1e6 and (rng is None or rng.random() < .7):
            return "%d" % x
        return repr(float(x)) if rng is None or rng.random() < .8 else "%.17e" % x if rng.random() < .7 else "%+.17g" % x

    def w(name, A, integer=False):
        sep, lead, end = (" ", "", "\n") if rng is None else (
            [" ", "  ", "\t", " \t "][rng.integers(4)], ["", "  ", "\t"][rng.integers(3)], ["\n", " \n", "\r\n"][rng.integers(3)])
        out = []
        for r in A:
            if rng is not None and rng.random() < .1:
                out.append(["# a remark", "", "#1 2 3"][rng.integers(3)] + end)
            out.append(lead + sep.join(number(x, integer) for x in r) +
                       (" # comment" if rng is not None and rng.random() < .05 else "") + end)
        text = "".join(out)
        if rng is not None and rng.random() < .2:
            text = text.rstrip("\r\n")
        with open(os.path.join(folder, name), "w", newline="") as f:
            f.write(text)
    w("nodes.txt", nodes5)
    w("mater.txt", mats)
    w("eles.txt", els, True)
    w("loads.txt", L)


@check("C14")
class files:
    def gen(env, rng, i):
        one = i % 4 == 0
        t = 3 if one else [1, 3, 2][i % 3]
        if one:
            nodes = np.array([[0, 0, 0], [1, 1, 0], [2, .25, 1.0]]) + np.array([0, 1, 1])*rng.uniform(-2, 2)
            els = np.array([[0, 3, 0, 0, 1, 2]])
            mats = gen.mats_table(env, rng, 1)
            mats[:, 0], mats[:, 1] = rng.uniform(1, 100), rng.uniform(0, .4)
            cons = np.array([[-1, -1], [0, -1], [0, 0]])
            L = np.array([[2, 1.5, -.5]])
        else:
            nodes, els, mats, cons, L = stable_model(env, rng, t)
        if mats.shape[1] == 3 and rng.random() < .3:    # tables may carry more columns (beams have four)
            mats = np.column_stack([mats, 10**rng.uniform(-2, 2, size=len(mats))])
        return dict(nodes=nodes, els=els, mats=mats, cons=cons, L=L, strains=bool(rng.random() < .5),
                    here=bool(rng.random() < .25), layout=int(rng.integers(1 << 30)) if rng.random() < .7 else None)

    def chk(env, nodes, els, mats, cons, L, strains, here=False, layout=None):
        d = tempfile.mkdtemp(dir=env.scratch)
        cwd = os.getcwd()
        try:
            n5 = np.column_stack([nodes, cons])
            write_model(d, n5, mats, els, L, None if layout is None else np.random.default_rng(layout))
            folder = d + "/"
            if here:
                os.chdir(d)
                folder = ""
            a, b, c, e = env.pre.readin(folder=folder) if not here or strains else env.pre.readin()
            for nm, g, w in (("nodes", a, n5), ("materials", b, mats), ("elements", c, els), ("loads", e, L)):
                r = close(g, w, 0, 0, nm)
                if r:
                    return r
            if c.dtype.kind != "i":
                return "element records are not integers"
            K, f, u, bc, full, cond = oracle_solution(env, nodes, els, mats, cons, L)
            if cond > 1e10:
                return None
            data = dict(nodes=nodes, elements=els, mats=mats, cons=cons, loads=L)
            x = env.gui.solids_GUI(plot_contours=False, compute_strains=strains, folder=folder)
            y = env.gui.solids_auto(data, plot_contours=False, compute_strains=strains)
            if isinstance(x, tuple) != strains or isinstance(y, tuple) != strains:
                return "strain flag not honoured"
            x, y = (x, y) if strains else ((x,), (y,))
            t = 1e-13*cond + 1e-9
            for nm, p, q in zip(("displacement", "strain", "stress"), x, y):
                r = close(p, q, 1e-12*cond + 1e-12, 1e-12*cond + 1e-12, nm + " (files vs arrays)")
                if r:
                    return r
            r = close(x[0], full, t, t, "displacement")
            if r:
                return r
            if strains:
                Ew, Sw = node_strains(els, nodes, mats, full)
                return close(x[1], Ew, 100*t, 100*t, "strain") or close(x[2], Sw, 100*t, 100*t, "stress")
        finally:
            os.chdir(cwd)
            shutil.rmtree(d)


@check("C14", weight=.4)
class tables:
    """the reader alone, on tables of any content"""
    def gen(env, rng, i):
        def size():
            return 1 if rng.random() < .3 else env.size(rng, 2, 9, 200)

        def real(n, m):
            a = rng.standard_normal((n, m))*10**rng.uniform(-12, 12, size=(n, m))
            return np.where(rng.random((n, m)) < .4, np.round(rng.uniform(-9, 10, size=(n, m))), a)
        n = size()
        t = [real(n, 5 + int(rng.integers(0, 3))), real(size(), int(rng.integers(2, 7))),
             rng.integers(-3, 10**int(rng.integers(1, 10)), size=(size(), int(rng.integers(5, 13)))), real(size(), int(rng.integers(2, 5)))]
        return dict(t=t, layout=int(rng.integers(1 << 30)) if rng.random() < .7 else None)

    def chk(env, t, layout):
        d = tempfile.mkdtemp(dir=env.scratch)
        try:
            write_model(d, t[0], t[1], t[2], t[3], None if layout is None else np.random.default_rng(layout))
            got = env.pre.readin(folder=d + "/")
            for nm, g, w in zip(("nodes", "materials", "elements", "loads"), got, t):
                r = close(g, w, 0, 0, nm)
                if r:
                    return r
        finally:
            shutil.rmtree(d)


@check("C14", weight=.15, cap=3)
class plotting_run:
    """plotting does not change what is returned"""
    def gen(env, rng, i):
        nodes, els, mats, cons, L = stable_model(env, rng, [1, 3, 2][i % 3])
        return dict(nodes=nodes, els=els, mats=mats, cons=cons, L=L, strains=bool(i % 2))

    def chk(env, nodes, els, mats, cons, L, strains):
        import matplotlib.pyplot as plt
        data = dict(nodes=nodes, elements=els, mats=mats, cons=cons, loads=L)
        x = env.gui.solids_auto(data, plot_contours=True, compute_strains=strains)
        y = env.gui.solids_auto(data, plot_contours=False, compute_strains=strains)
        plt.close("all")
        return None if same(x, y) else "plotting changes the results"


# ------------------------------------------------------------------- C15
@check("C15")
class recovery:
    def gen(env, rng, i):
        t = [1, 3, 2][i % 3]
        big = rng.random() < .05
        if i % 50 == 20:        # more elements at a node than a byte can count
            nodes, els, nmat = gen.fan_mesh(rng, t, n=int(rng.choice([140, 270])))
        else:
            nodes, els, nmat = gen.grid_mesh(env, rng, t, *((int(rng.integers(5, 9)), int(rng.integers(5, 9))) if big else ()))
        mats = gen.mats_table(env, rng, nmat)
        lin = rng.random() < .3
        if lin:
            G = rng.standard_normal((2, 2))
            disp = nodes[:, 1:3] @ G.T + rng.standard_normal(2)
        else:
            disp = rng.standard_normal((len(nodes), 2))*10**rng.uniform(-4, 1)
            u = rng.random()
            if u < .3:          # parts at rest
                disp[rng.random(len(nodes)) < rng.uniform(.3, 1)] = 0
            elif u < .4:        # parts moving as a rigid body
                disp[nodes[:, 1] < np.median(nodes[:, 1])] = disp[0]
            elif u < .5:
                disp[:, int(rng.integers(2))] = 0
        if rng.random() < .3:
            nodes = np.column_stack([nodes, np.zeros(len(nodes)), -np.ones(len(nodes))])
        return dict(nodes=nodes, els=els, mats=mats, disp=disp)

    def chk(env, nodes, els, mats, disp):
        E, S = env.pos.strain_nodes(nodes, els, mats, disp)
        Ew, Sw = node_strains(els, nodes, mats, disp)
        h = np.ptp(nodes[:, 1:3])
        e0 = np.abs(disp).max()/h*1e3
        t = 1e-9
        for nm, g, w in (("nodal strain", E, Ew), ("nodal stress", S, Sw)):
            g = np.asarray(g)
            if g.shape != w.shape:
                return "%s has shape %s" % (nm, g.shape)
            sc = max(np.abs(w).max(), (1 if nm.endswith("strain") else mats[:, 0].max())*e0*1e-4)
            bad = ~(np.abs(g - w) <= 1e-8*np.abs(w) + t*sc)
            if bad.any():
                k = tuple(int(x) for x in np.argwhere(bad)[0])
                return "%s %s = %r, expected %r" % (nm, k, float(g[k]), float(w[k]))


@check("C15", weight=.5)
class element_sampling:
    """str_el3/4/6: exact strain at the points they report, one per node or Gauss point"""
    def gen(env, rng, i):
        fn, nm, ef = [("str_el3", "tri3", "elast_tri3"), ("str_el4", "quad4", "elast_quad4"),
                      ("str_el6", "tri6", "elast_tri6")][i % 3]
        c = gen.element_coords(env, rng, ef)
        return dict(fn=fn, nm=nm, c=c, u=rng.standard_normal(2*len(c)))

    def chk(env, fn, nm, c, u):
        eps, x = getattr(env.fem, fn)(c, u)
        cc = np.asarray(c, float)
        pts = {"tri3": spec.RULE["tri3"]()[0], "tri6": spec.RULE["tri6"]()[0],
               "quad4": spec.gl_points(2, 2)[0]}[nm]
        we, wx = [], []
        for p in pts:
            N, dN = spec.shape(nm, [float(v) for v in p])
            dN = np.array(dN, float)
            _, B = spec.HB2d(N, np.linalg.solve(dN @ cc, dN))
            we.append(np.array(B, float) @ u)
            wx.append(np.array(N) @ cc)
        t = gen.cond_tol(cc)*10
        k = close(eps, np.array(we), t, t, fn + " strain") or close(x, np.array(wx), t, t, fn + " points")
        return k


# ------------------------------------------------------------------- C16
@check("C16")
class rect_grid:
    def gen(env, rng, i):
        nx, ny = (env.size(rng, 1, 9, 300) for _ in range(2))
        if nx*ny > 20000:
            ny = 1 + ny % 20
        l, hh = (abs(env.fl(rng, .1, 20)) or 1.0 for _ in range(2))
        if i < 16:
            nx, ny = 1 + i % 4, 1 + i//4
        if i % 600 == 20:       # beyond the range of 16-bit numbers
            nx, ny = int(rng.integers(250, 320)), 265
        if rng.random() < .3:
            l, hh = int(np.ceil(l)), int(np.ceil(hh))
        elif rng.random() < .3:
            l, hh = l*10**rng.uniform(-9, 9), hh*10**rng.uniform(-9, 9)
        return dict(l=l, h=hh, nx=nx, ny=ny)

    def chk(env, l, h, nx, ny):
        x, y, els = env.pre.rect_grid(l, h, nx, ny)
        X = np.array([-l/2 + l*i/nx for j in range(ny + 1) for i in range(nx + 1)])
        Y = np.array([-h/2 + h*j/ny for j in range(ny + 1) for i in range(nx + 1)])
        r = close(x, X, 1e-12, 1e-13, "x") or close(y, Y, 1e-12, 1e-13, "y")
        if r:
            return r
        els = np.asarray(els)
        if els.shape != (nx*ny, 7) or els.dtype.kind != "i":
            return "element table %s %s" % (els.shape, els.dtype)
        want = np.array([[j*nx + i, 1, 0, j*(nx + 1) + i, j*(nx + 1) + i + 1,
                          (j + 1)*(nx + 1) + i + 1, (j + 1)*(nx + 1) + i] for j in range(ny) for i in range(nx)])
        return close(els, want, 0, 0, "element table")


# ------------------------------------------------------------------- C17
FAM = {"triangle": 3, "triangle6": 6, "quad": 4}


def fake_gmsh(env, rng):
    n = env.size(rng, 4, 25, 400)
    cells, data = {}, {}
    for fam, k in list(FAM.items()) + [("line", 2)]:
        m = env.size(rng, 1, 14, 300)
        a = rng.integers(0, n, size=(m, k))
        cells[fam] = a
        ntag = int(rng.integers(1, 4))
        tags = rng.choice(np.arange(0, 3000), size=ntag, replace=False)
        if env.ints and rng.random() < .3:
            tags[0] = env.ints[rng.integers(len(env.ints))]
        if ntag > 1 and rng.random() < .2:
            tags[1] = -tags[0]
        data[fam] = {"gmsh:physical": rng.choice(tags, size=m), "gmsh:geometrical": rng.integers(0, 9, size=m)}
    pts = rng.standard_normal((n, 3))
    return pts, cells, data


@check("C17")
class elements_from_mesh:
    def gen(env, rng, i):
        pts, cells, data = fake_gmsh(env, rng)
        fam = list(FAM)[i % 3]
        tag = int(rng.choice(data[fam]["gmsh:physical"])) if rng.random() < .85 else 9999
        return dict(cells=cells, data=data, fam=fam, tag=tag, et=int(rng.integers(1, 9)),
                    mt=int(rng.integers(0, 9)), nini=int(rng.choice([0, 1, 5, 17, 1000])))

    def chk(env, cells, data, fam, tag, et, mt, nini):
        nf, E = env.pre.ele_writer(cells, data, fam, tag, et, mt, nini)
        rows = [cells[fam][k] for k in range(len(cells[fam])) if data[fam]["gmsh:physical"][k] == tag]
        want = np.array([[nini + q, et, mt, *r] for q, r in enumerate(rows)], dtype=int).reshape(len(rows), 3 + FAM[fam])
        if nf != nini + len(rows):
            return "next identifier %r, expected %r" % (nf, nini + len(rows))
        E = np.asarray(E)
        if E.dtype.kind != "i":
            return "element records of type %s" % E.dtype
        if E.shape != want.shape:
            return "element table has shape %s, expected %s" % (E.shape, want.shape)
        # cells may be listed in any order, identifiers are consecutive
        if close(E, want, 0, 0) is None:
            return None
        if not np.array_equal(E[:, 0], want[:, 0]) or \
                sorted(map(tuple, E[:, 1:].tolist())) != sorted(map(tuple, want[:, 1:].tolist())):
            return close(E, want, 0, 0, "element record")


@check("C17", weight=.4)
class nodes_from_mesh:
    def gen(env, rng, i):
        n = env.size(rng, 1, 20, 600)
        p = rng.standard_normal((n, int(rng.choice([2, 3]))))
        if rng.random() < .2:
            p = np.round(p*4).astype(int)
        return dict(p=p)

    def chk(env, p):
        N = env.pre.node_writer(p, {})
        return close(N, np.column_stack([np.arange(len(p)), p[:, :2], np.zeros((len(p), 2))]), 0, 0, "node record")


@check("C17")
class groups:
    """constraints and loads of several boundary groups, one after another"""
    def gen(env, rng, i):
        pts, cells, data = fake_gmsh(env, rng)
        nodes = np.column_stack([np.arange(len(pts)), pts[:, :2], np.zeros((len(pts), 2))])
        if rng.random() < .5:
            nodes[:, 3:] = rng.integers(-1, 1, size=(len(pts), 2))
        tags = [int(rng.choice(data["line"]["gmsh:physical"])) for _ in range(int(rng.integers(1, 4)))]
        bcs = [[int(rng.integers(-1, 1)), int(rng.integers(-1, 1))] for _ in tags]
        P = [float(x) if rng.random() < .7 else int(np.round(x*5)) for x in rng.standard_normal(2)*10**rng.uniform(-2, 3)]
        return dict(cells=cells, data=data, nodes=nodes, tags=tags, bcs=bcs, P=P)

    def chk(env, cells, data, nodes, tags, bcs, P):
        want = nodes.copy()
        cur = nodes
        for t, (bx, by) in zip(tags, bcs):
            cur = env.pre.boundary_conditions(cells, data, t, cur, bx, by)
            for c, tag in zip(cells["line"], data["line"]["gmsh:physical"]):
                if tag == t:
                    want[c, 3], want[c, 4] = bx, by
            r = close(cur, want, 0, 0, "node record")
            if r:
                return r
        for t in tags:
            L = np.asarray(env.pre.loading(cells, data, t, *P), float)
            S = sorted({int(v) for c, tag in zip(cells["line"], data["line"]["gmsh:physical"]) if tag == t for v in c})
            w = np.array([[s, P[0]/len(S), P[1]/len(S)] for s in S])
            if L.shape != w.shape:
                return "load table has shape %s for %d nodes" % (L.shape, len(S))
            r = close(L[np.argsort(L[:, 0], kind="stable")], w, 1e-13, 1e-14, "load record")
            if r:
                return r


# ------------------------------------------------------------------- C18
def bloch_case(env, rng):
    nd = int(rng.integers(1, 4))
    n = env.size(rng, 2, 12, 60)
    d = int(rng.choice([1, 2, 2, 3]))
    coords = rng.standard_normal((n, d)) if rng.random() < .7 else rng.integers(-3, 4, size=(n, d))
    perm = rng.permutation(n)
    k = int(rng.integers(0, n))
    ima = [int(v) for v in perm[:k]]
    if not ima and rng.random() < .8:
        ima = [int(perm[0])]
    rest = [int(v) for v in perm[len(ima):]]
    ref = [int(rng.choice(rest)) for _ in ima]
    # dof numbering: blockwise or permuted
    num = np.arange(n*nd).reshape(n, nd) if rng.random() < .6 else rng.permutation(n*nd).reshape(n, nd)
    kv = rng.standard_normal(d) if rng.random() < .8 else np.zeros(d)
    if env.odd_floats and rng.random() < .1:
        kv[0] = env.odd_floats[rng.integers(len(env.odd_floats))]
    if rng.random() < .3:       # cells from nanometres to kilometres
        f = 10.0**rng.integers(-10, 7)
        coords, kv = coords*f, kv/f
    elif rng.random() < .2:     # whole numbers of one, fractions of the other
        kv = rng.integers(-4, 5, size=d)
    dr = [int(num[r, q]) for r in ref for q in range(nd)]
    di = [int(num[i, q]) for i in ima for q in range(nd)]
    return dict(nd=nd, coords=coords, ima=ima, ref=ref, kv=kv, dr=dr, di=di, num=num,
                arr=bool(rng.random() < .3))


def bloch_num(nt, di, dr):
    S = set(di)
    new = [None]*nt
    k = 0
    for q in range(nt):
        if q not in S:
            new[q] = k
            k += 1
    for a, b in zip(di, dr):
        new[a] = new[b]
    return new


@check("C18")
class renumber:
    def gen(env, rng, i):
        a = bloch_case(env, rng)
        return dict(nt=a["num"].size, di=a["di"], dr=a["dr"])

    def chk(env, nt, di, dr):
        got = env.blo.reassign_dof_bloch(nt, di, dr)
        want = bloch_num(nt, di, dr)
        return close(np.asarray(got, float), np.array(want, float), 0, 0, "new number")


@check("C18")
class transform:
    def gen(env, rng, i):
        return bloch_case(env, rng)

    def chk(env, nd, coords, ima, ref, kv, dr, di, num, arr):
        nt = num.size
        new = bloch_num(nt, di, dr)
        rd = {r: [int(v) for v in num[r]] for r in ref}
        im = {r: [int(v) for v in num[r]] for r in ima}
        T = env.blo.bloch_transform_mat(kv if arr else kv.tolist(), coords, nt, ref, ima, dr, di, rd, im, new)
        want = np.zeros((nt, nt - len(di)), complex)
        for q in range(nt):
            if q not in di:
                want[q, new[q]] = 1
        for r, i in zip(ref, ima):
            ph = np.exp(1j*float(np.dot(kv, np.asarray(coords[i], float) - np.asarray(coords[r], float))))
            for a, b in zip(num[r], num[i]):
                want[b, new[a]] = ph
        T = T.toarray()
        r = close(T.astype(complex), want, 1e-12, 1e-13, "transformation")
        if r:
            return r
        A = np.random.default_rng(0).standard_normal((nt, nt))
        Kr = T.conj().T @ (A + A.T) @ T
        return None if np.allclose(Kr, Kr.conj().T, atol=1e-9) else "reduced matrix is not Hermitian"


# ------------------------------------------------------------------- C20
@check("C20")
class triangulation:
    def gen(env, rng, i):
        t = [1, 2, 3, 4][i % 4]
        un = (0, 0)
        nodes, els, _ = gen.grid_mesh(env, rng, t, distort=float(rng.uniform(0, .15)), units=un)
        if t != 3 and rng.random() < .5:        # several element types in one (padded) table
            for t2 in rng.permutation([q for q in (1, 2, 4) if q != t])[:rng.integers(1, 3)]:
                n2, e2, _ = gen.grid_mesh(env, rng, int(t2), distort=float(rng.uniform(0, .15)), units=un)
                n2[:, 0] += len(nodes)
                n2[:, 1] += nodes[:, 1].max() - n2[:, 1].min() + 1
                e2[:, 3:] += len(nodes)
                w = max(els.shape[1], e2.shape[1])
                both = [np.column_stack([e, np.full((len(e), w - e.shape[1]), e[0, 3])]) for e in (els, e2)]
                nodes, els = np.vstack([nodes, n2]), np.vstack(both)
            els = els[rng.permutation(len(els))]
            els[:, 0] = np.arange(len(els))
        if rng.random() < .25:                  # layers: elements on the same nodes
            k = int(rng.integers(1, len(els) + 1))
            els = np.vstack([els, els[rng.permutation(len(els))[:k]]])
            els = els[rng.permutation(len(els))]
            els[:, 0] = np.arange(len(els))
        if rng.random() < .25:
            nodes[:, 1:] *= 10**rng.uniform(-9, 9)
        if rng.random() < .4:
            nodes = np.column_stack([nodes, np.zeros(len(nodes)), -np.ones(len(nodes))])
        if rng.random() < .3:
            els[:, 0] = rng.permutation(len(els))
        return dict(nodes=nodes, els=els)

    def chk(env, nodes, els):
        tri = env.pos.mesh2tri(nodes, els)
        x, y = nodes[:, 1], nodes[:, 2]
        r = close(tri.x, x, 0, 0, "x") or close(tri.y, y, 0, 0, "y")
        if r:
            return r
        T = np.asarray(tri.triangles)
        outline = {1: [0, 1, 2, 3], 2: [0, 3, 1, 4, 2, 5], 3: [0, 1, 2], 4: [0, 4, 1, 5, 2, 6, 3, 7]}

        def area(ix):
            return .5*sum(x[a]*y[b] - x[b]*y[a] for a, b in zip(ix, list(ix[1:]) + [ix[0]]))
        tot = sum(area([int(v) for v in e[3:][outline[int(e[1])]]]) for e in els)
        got = sum(abs(area([int(v) for v in q])) for q in T)
        if abs(tot - got) > 1e-9*abs(tot) + 1e-12*np.abs(nodes[:, 1:3]).max()**2:
            return "triangles cover the area %r of %r" % (got, tot)
        # each element: its own triangles tile it with its orientation
        left = [tuple(int(v) for v in q) for q in T]
        layers = {}
        for e in els:
            k = tuple(int(v) for v in e[1:2]) + tuple(int(v) for v in e[3:3 + len(outline[int(e[1])]) + (e[1] == 4)])
            layers.setdefault(k, []).append(e)
        for same_nodes in layers.values():
            e = same_nodes[0]
            own = set(int(v) for v in e[3:3 + len(outline[int(e[1])]) + (e[1] == 4)])
            mine = [q for q in left if set(q) <= own]
            poly = area([int(v) for v in e[3:][outline[int(e[1])]]])*len(same_nodes)
            ar = [area(list(q)) for q in mine]
            if any(a <= 0 for a in ar):
                return "element %s has a triangle with the wrong orientation or no area" % e.tolist()
            if abs(sum(ar) - poly) > 1e-9*abs(poly) + 1e-13*np.abs(nodes[:, 1:3]).max()**2:
                return "triangles of element %s cover %r of %r" % (e.tolist(), sum(ar), poly)
            for q in mine:
                left.remove(q)
        if left:
            return "triangle %s belongs to no element" % (left[0],)
        if len(set(map(tuple, map(sorted, T.tolist()))))*max(map(len, layers.values())) < len(T):
            return "repeated triangle"


@check("C20", weight=.3, cap=12)
class plotted_fields:
    """each component is drawn, once, with its own values on the triangulation"""
    def gen(env, rng, i):
        nodes, els, _ = gen.grid_mesh(env, rng, [1, 2, 3, 4][i % 4], units=(-9, 9))
        n = len(nodes)
        f = [10.0**rng.integers(-12, 7) if rng.random() < .5 else 1.0 for _ in range(3)]
        return dict(nodes=nodes, els=els, disp=rng.standard_normal((n, 2))*f[0],
                    E=rng.standard_normal((n, 3))*f[1] if i % 2 else None,
                    S=rng.standard_normal((n, 3))*f[2] if i % 3 else None)

    def chk(env, nodes, els, disp, E, S):
        seen = []
        plt = env.pos.plt
        from matplotlib.axes import Axes
        from matplotlib.tri import Triangulation
        old = {k: getattr(Axes, k) for k in ("tricontourf", "tripcolor")}

        def rec(f):
            def g(self, *a, **k):
                if len(a) > 1 and isinstance(a[0], Triangulation):
                    seen.append((np.array(a[0].triangles), np.array(a[1])))
                return f(self, *a, **k)
            return g
        for k in old:
            setattr(Axes, k, rec(old[k]))
        try:
            env.pos.fields_plot(els, nodes, disp, E_nodes=E, S_nodes=S)
            plt.close("all")
            env.pos.plot_node_field(disp, nodes, els, plt_type="pcolor")
        finally:
            for k in old:
                setattr(Axes, k, old[k])
            plt.close("all")
        want = [f[:, k] for f in (disp, E, S, disp) if f is not None for k in range(f.shape[1])]
        if len(seen) != len(want):
            if not seen:
                return None          # drawn by other means
            return "%d fields drawn, expected %d" % (len(seen), len(want))
        for (_, g), w in zip(seen, want):
            r = close(g, w, 0, 0, "plotted field")
            if r:
                return r


# ------------------------------------------------------------------- C22
@check("C22", weight=.3)
class catalogue:
    def gen(env, rng, i):
        if i % 5 == 4:      # numbers that are no type at all
            return dict(t=float(rng.integers(-2, 12)) + float(rng.choice([.5, .25, 1e-9, -1e-9, .999])))
        i -= i//5
        vals = sorted(set(range(-5, 40)) | {v for v in env.ints if abs(v) < 10**6} | {99, 100, 1000})
        return dict(t=vals[i]) if i < len(vals) else None

    def chk(env, t):
        for x in (t, np.int64(t)) if t == int(t) else (t, np.float64(t)):
            if t not in spec.CATALOGUE:
                r = raises(ValueError, env.fem.eletype, x) or raises(ValueError, env.ass.ele_fun, x)
                if r:
                    return "element type %r: %s" % (t, r)
                continue
            nd, nn = spec.CATALOGUE[t]
            a = env.fem.eletype(x)
            if tuple(a)[:2] != (nd, nn):
                return "eletype(%d) = %r, expected (%d, %d, ...)" % (t, a, nd, nn)
            if a[2] != spec.NGPT[t]:
                return "eletype(%d): %r integration points, expected %d" % (t, a[2], spec.NGPT[t])
            f = env.ass.ele_fun(x)
            if f is not getattr(env.uel, spec.FUNC[t]) and getattr(f, "__name__", "") != spec.FUNC[t]:
                return "ele_fun(%d) = %r" % (t, f)
        return None


@check("C22")
class dispatch:
    def gen(env, rng, i):
        t, nodes, els, mats, cons, nd = catalogue_model(env, rng, i)
        e = int(rng.integers(len(els)))
        els = els.copy()
        bad = None
        if rng.random() < .1:
            els[e, 1] = bad = int(rng.choice([0, 9, 10, 12, 99, -1]))
        return dict(nodes=nodes, els=els, mats=mats, e=e, bad=bad, extra=int(rng.choice([0, 0, 1, 3])))

    def chk(env, nodes, els, mats, e, bad, extra=0):
        c, p = nodes[els[e, 3:], 1:], mats[els[e, 2]]
        if bad is not None:
            r = raises(ValueError, env.ass.retriever, els, mats, nodes, e)
            if r:
                return "type %d: %s" % (bad, r)
        else:
            k, m = env.ass.retriever(els, mats, nodes, e)
            ke, me = getattr(env.uel, spec.FUNC[int(els[e, 1])])(c.copy(), p.copy())
            if np.asarray(k).shape != (spec.CATALOGUE[int(els[e, 1])][0],)*2:
                return "element matrix has shape %s" % (np.asarray(k).shape,)
            r = close(k, ke, 1e-13, 1e-14, "stiffness") or close(m, me, 1e-13, 1e-14, "mass")
            if r:
                return r
        if e % 2:       # and have more parameters than the elements here
            mats = np.column_stack([mats] + [mats[:, 0]*.25 + q for q in range(1 + e % 5)])
            p = mats[els[e, 2]]
        if extra:       # a user element may live in another space
            nodes = np.column_stack([nodes] + [nodes[:, 1]*.5 + q for q in range(extra)])
            c = nodes[els[e, 3:], 1:]
        seen = []
        mark = (np.full((3, 3), 7.5), np.full((3, 3), 2.5))
        if bad is None and e % 3 == 0:      # a row the material table does not have
            wrong = els.copy()
            wrong[e, 2] = len(mats) + e
            try:
                env.ass.retriever(wrong, mats, nodes, e, uel=lambda a, b: mark)
            except Exception:
                pass
            else:
                return "material row %d of a table of %d rows is accepted" % (len(mats) + e, len(mats))

        def u(a, b):
            seen.append((np.array(a), np.array(b)))
            return mark
        k, m = env.ass.retriever(els, mats, nodes, e, uel=EmptyRoutine(u) if e % 4 == 1 else u)
        if len(seen) != 1:
            return "user element called %d times" % len(seen)
        return close(seen[0][0], c, 0, 0, "user element coordinates") or \
            close(seen[0][1], p, 0, 0, "user element parameters") or \
            close(k, mark[0], 0, 0, "user stiffness") or close(m, mark[1], 0, 0, "user mass")
