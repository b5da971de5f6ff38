"""Executable contracts: C19 (principal values) and C21 (purity)."""
import copy
import numpy as np
from vf.runtime import check, close, same
from contracts import spec, gen
from contracts.num_mesh import (catalogue_model, numbering, stable_model, user_element, fake_gmsh, bloch_case,
                                bloch_num)
from contracts import num_elements as ne


def tensor(env, rng):
    u = rng.random()
    if u < .35:
        a, b, c = rng.standard_normal(3)*10**rng.uniform(-3, 6)
    elif u < .5:
        a, b, c = [env.fl(rng) for _ in range(3)]
    elif u < .6:
        a = b = float(rng.standard_normal())
        c = float(rng.standard_normal())
    elif u < .7:
        a, b, c = float(rng.standard_normal()), float(rng.standard_normal()), 0.0
    elif u < .75:
        a, b, c = 0.0, 0.0, float(rng.standard_normal())
    elif u < .8:
        a = float(rng.standard_normal())
        b, c = -a, float(rng.standard_normal())
    elif u < .88:
        a, b, c = rng.standard_normal(3)
        c *= 10**rng.uniform(-8, -4)
    elif u < .94:
        a, b, c = rng.standard_normal(3)*10**rng.uniform(-9, -4)
    else:
        a, b, c = (float(x) for x in rng.integers(-4, 5, size=3))
    return float(a), float(b), float(c)


def near(x, y, f=1e-3):
    return abs(x - y) <= f*abs(y)


def judge(a, b, c, tol, e1, e2, v1, v2):
    mx = max(abs(a), abs(b), abs(c))
    if near(mx, tol):
        return None
    v1, v2 = np.asarray(v1, float), np.asarray(v2, float)
    if v1.shape != (2,) or v2.shape != (2,):
        return "directions of shape %s %s" % (v1.shape, v2.shape)
    if mx < tol:
        if e1 == 0 and e2 == 0 and np.isnan(v1).all() and np.isnan(v2).all():
            return None
        return "tensor below the tolerance gives %r %r %r %r" % (e1, e2, v1, v2)
    M = np.array([[a, c], [c, b]])
    slack = 1e-9*mx + (1.5*tol*mx if abs(c)/mx < tol*1.001 else 1e-14*mx*mx/abs(c))
    if not (np.isfinite(e1) and np.isfinite(e2)):
        return "principal values %r %r" % (e1, e2)
    if abs(e1) < abs(e2) - 1e-12*mx:
        return "first principal value %r smaller in magnitude than %r" % (e1, e2)
    if not abs(v1 @ v1 - 1) < 1e-9 or not abs(v2 @ v2 - 1) < 1e-9 or not abs(v1 @ v2) < 1e-9:
        return "directions not orthonormal: %r %r" % (v1, v2)
    R = e1*np.outer(v1, v1) + e2*np.outer(v2, v2)
    if not np.abs(R - M).max() <= slack:
        return "reproduced tensor %r, given %r" % (R.tolist(), M.tolist())
    w = sorted(np.linalg.eigvalsh(M), key=abs, reverse=True)
    if max(abs(sorted([e1, e2])[k] - sorted(w)[k]) for k in (0, 1)) > slack:
        return "principal values %r %r, expected %r" % (e1, e2, w)


@check("C19")
class tensors:
    def gen(env, rng, i):
        a, b, c = tensor(env, rng)
        if i % 5 == 0:
            a, b, c = (int(round(x)) for x in (a, b, c))
            if max(abs(a), abs(b), abs(c)) > 10**5:
                a, b, c = 5, 9, 6
        return dict(M=np.array([[a, c], [c, b]]), tol=None if rng.random() < .7 else float(10**rng.uniform(-9, -3)))

    def chk(env, M, tol):
        with np.errstate(all="ignore"):
            r = env.pos.eigvals(M) if tol is None else env.pos.eigvals(M, tol=tol)
        m = judge(float(M[0, 0]), float(M[1, 1]), float(M[0, 1]), tol or 1e-6, *r)
        return m and "eigvals(%s): %s" % (M.tolist(), m)


@check("C19")
class field:
    def gen(env, rng, i):
        n = env.size(rng, 1, 12, 300)
        F = np.array([tensor(env, rng) for _ in range(n)])
        if rng.random() < .2:
            F = np.round(np.clip(F, -50, 50)).astype(int)
        return dict(F=F)

    def chk(env, F):
        with np.errstate(all="ignore"):
            e1, e2, v1, v2 = env.pos.principal_dirs(F)
        n = len(F)
        if np.shape(e1) != (n,) or np.shape(e2) != (n,) or np.shape(v1) != (n, 2) or np.shape(v2) != (n, 2):
            return "shapes %s %s %s %s" % (np.shape(e1), np.shape(e2), np.shape(v1), np.shape(v2))
        for k in range(n):
            m = judge(*[float(x) for x in F[k]], 1e-6, e1[k], e2[k], v1[k], v2[k])
            if m:
                return "node %d %s: %s" % (k, F[k].tolist(), m)


# --------------------------------------------------------------------- C21
def sp(env, K):
    from scipy.sparse import csr_matrix
    return csr_matrix(K)


def call_table():
    """name -> generator of (function path, args, kwargs)"""
    T = {}

    def reg(name):
        def d(f):
            T[name] = f
            return f
        return d

    @reg("element")
    def _(env, rng):
        f = list(spec.CONT)[rng.integers(len(spec.CONT))]
        return "uel." + f, [gen.element_coords(env, rng, f), gen.params(env, rng, f)], {}

    @reg("bar")
    def _(env, rng):
        a = ne.bars.gen(env, rng, int(rng.integers(100)))
        return "uel." + a["fn"], [a["c"], a["p"]], {}

    @reg("beam")
    def _(env, rng):
        a = ne.beams.gen(env, rng, int(rng.integers(100)))
        return "uel." + a["fn"], [a["c"], a["p"]], {}

    @reg("rule")
    def _(env, rng):
        k = rng.integers(4)
        return [("gau.gauss_1d", [int(rng.integers(2, 11))], {}), ("gau.gauss_tri", [int(rng.integers(1, 8))], {}),
                ("gau.gauss_tet", [int(rng.integers(1, 11))], {}),
                ("gau.gauss_nd", [int(rng.integers(2, 5))], dict(ndim=int(rng.integers(1, 4))))][k]

    @reg("shape")
    def _(env, rng):
        n = spec.ELEMS[rng.integers(7)]
        return "fem." + ne.FUN[n], [float(x) for x in rng.uniform(-1, 1, size=spec.DIM[n])], {}

    @reg("moduli")
    def _(env, rng):
        a = ne.moduli.gen(env, rng, int(rng.integers(1000)))
        return "fem." + a["fn"], [a["p"]], {}

    @reg("jacoper")
    def _(env, rng):
        c = gen.element_coords(env, rng, "elast_quad4")
        return "fem.jacoper", [np.array(spec.shape("quad4", [.1, .2])[1], float), c], {}

    @reg("eletype")
    def _(env, rng):
        return "fem.eletype", [int(rng.integers(1, 9))], {}

    @reg("str_el")
    def _(env, rng):
        f, e = [("str_el3", "elast_tri3"), ("str_el4", "elast_quad4"), ("str_el6", "elast_tri6")][rng.integers(3)]
        c = gen.element_coords(env, rng, e)
        return "fem." + f, [c, rng.standard_normal(2*len(c))], {}

    @reg("numbering")
    def _(env, rng):
        t, nodes, els, mats, cons, nd = catalogue_model(env, rng, int(rng.integers(8)))
        if rng.random() < .5:
            return "ass.eqcounter", [cons], dict(ndof_node=nd)
        return "ass.DME", [cons, els], dict(ndof_node=nd)

    @reg("assembly")
    def _(env, rng):
        t, nodes, els, mats, cons, nd = catalogue_model(env, rng, int(rng.integers(8)))
        neq, bc = numbering(cons, nd)
        op = bc[els[:, 3:]].reshape(len(els), -1)
        k = rng.integers(4)
        if k == 3:
            return "ass.retriever", [els, mats, nodes, int(rng.integers(len(els)))], {}
        return ["ass.assembler", "ass.dense_assem", "ass.sparse_assem"][k], [els, mats, nodes, neq, op], \
            (dict(sparse=bool(rng.random() < .5)) if k == 0 else {})

    @reg("loads")
    def _(env, rng):
        nodes, els, mats, cons, L = stable_model(env, rng, 3)
        neq, bc = numbering(cons, 2)
        if rng.random() < .3:       # nodes counted from the end
            L = L.copy()
            L[rng.integers(len(L)), 0] -= len(nodes)
        return "ass.loadasem", [L, bc, neq], {}

    @reg("solve")
    def _(env, rng):
        n = int(rng.integers(1, 7))
        A = rng.standard_normal((n, n)) + 3*n*np.eye(n)
        b = rng.standard_normal(n)
        return "sol.static_sol", [A if rng.random() < .5 else ("csr", A), b], {}

    @reg("complete")
    def _(env, rng):
        nodes, els, mats, cons, L = stable_model(env, rng, 3)
        neq, bc = numbering(cons, 2)
        return "pos.complete_disp", [bc, nodes, rng.standard_normal(neq)], {}

    @reg("strains")
    def _(env, rng):
        nodes, els, mats, cons, L = stable_model(env, rng, int(rng.choice([1, 2, 3])))
        if rng.random() < .3:       # records of other types after the first
            els = np.array(els)
            els[1:, 1] = rng.integers(1, 9, size=len(els) - 1)
        return "pos.strain_nodes", [nodes, els, mats, rng.standard_normal((len(nodes), 2))], {}

    @reg("stress_truss")
    def _(env, rng):
        a = ne.truss_stress.gen(env, rng, 0)
        return "pos.stress_truss", [a["nodes"], a["els"], a["mats"], a["disp"]], {}

    @reg("truss drawing")
    def _(env, rng):
        a = ne.truss_stress.gen(env, rng, 0)
        els = np.array(a["els"])[:6]
        els[:, 0] = np.arange(len(els))
        return "pos.plot_truss", [a["nodes"], els, a["mats"]], \
            (dict(stresses=rng.standard_normal(len(els))) if rng.random() < .5 else {})

    @reg("principal")
    def _(env, rng):
        if rng.random() < .5:
            a, b, c = tensor(env, rng)
            # (only the upper triangle is read: principal_dirs leaves the other entry at zero)
            return "pos.eigvals", [np.array([[a, c], [c if rng.random() < .7 else 0.0, b]])], {}
        return "pos.principal_dirs", [np.array([tensor(env, rng) for _ in range(int(rng.integers(1, 6)))])], {}

    @reg("energy")
    def _(env, rng):
        n = int(rng.integers(1, 6))
        return "pos.energy", [rng.standard_normal(n), rng.standard_normal((n, n))], {}

    @reg("tri")
    def _(env, rng):
        nodes, els, _ = gen.grid_mesh(env, rng, int(rng.integers(1, 5)))
        return "pos.mesh2tri", [nodes, els], {}

    @reg("grid")
    def _(env, rng):
        return "pre.rect_grid", [float(rng.uniform(1, 3)), 2.0, int(rng.integers(1, 5)), int(rng.integers(1, 5))], {}

    @reg("gmsh")
    def _(env, rng):
        pts, cells, data = fake_gmsh(env, rng)
        k = rng.integers(3)
        if k == 0:
            return "pre.ele_writer", [cells, data, "triangle", int(data["triangle"]["gmsh:physical"][0]), 3, 1, 4], {}
        if k == 1:
            return "pre.node_writer", [pts, {}], {}
        return "pre.loading", [cells, data, int(data["line"]["gmsh:physical"][0]), 1.0, 2.0], {}

    @reg("bloch")
    def _(env, rng):
        a = bloch_case(env, rng)
        nt = a["num"].size
        if rng.random() < .5:
            return "blo.reassign_dof_bloch", [nt, a["di"], a["dr"]], {}
        num = a["num"]
        return "blo.bloch_transform_mat", [
            a["kv"], a["coords"], nt, a["ref"], a["ima"], a["dr"], a["di"],
            {r: [int(v) for v in num[r]] for r in a["ref"]}, {r: [int(v) for v in num[r]] for r in a["ima"]},
            bloch_num(nt, a["di"], a["dr"])], {}

    @reg("analysis")
    def _(env, rng):
        t = int(rng.choice([1, 2, 3]))
        nodes, els, mats, cons, L = stable_model(env, rng, t)
        if rng.random() < .3:       # nodes counted from the end
            L = L.copy()
            L[rng.integers(len(L)), 0] -= len(nodes)
        return "gui.solids_auto", [dict(nodes=nodes, elements=els, mats=mats, cons=cons, loads=L)], \
            dict(plot_contours=False, compute_strains=bool(rng.random() < .5))
    return T


TABLE = call_table()


def setup(env, args):
    return [sp(env, a[1]) if isinstance(a, tuple) and len(a) == 2 and isinstance(a[0], str) and a[0] == "csr"
            else a for a in args]


def stored(rng, call):
    """the call, some of its tables stored by columns"""
    path, args, kw = call
    return [path, [np.asfortranarray(a) if isinstance(a, np.ndarray) and a.ndim > 1 and rng.random() < .3 else a
                   for a in args], kw]


def scramble(x):
    """overwrite everything reachable from a result, as a caller may do"""
    if isinstance(x, np.ndarray):
        if x.flags.writeable:
            if x.dtype.kind in "fc":
                x[...] = -12345.678
            elif x.dtype.kind in "iu":
                x[...] = -77
    elif isinstance(x, list):
        for y in x:
            scramble(y)
        for k in range(len(x)):
            if isinstance(x[k], (int, float, np.number)):
                x[k] = -99
    elif isinstance(x, tuple):
        for y in x:
            scramble(y)
    elif isinstance(x, dict):
        for y in x.values():
            scramble(y)
    elif hasattr(x, "toarray") and hasattr(x, "data"):
        x.data[...] = -12345.678
    elif hasattr(x, "triangles"):
        scramble(x.triangles)


def freeze(x):
    if hasattr(x, "triangles"):
        return [np.array(x.x), np.array(x.y), np.array(x.triangles)]
    if hasattr(x, "toarray"):
        return x.copy()
    return copy.deepcopy(x)


def closing(f, args, kw):
    import matplotlib.pyplot as plt
    try:
        return f(*args, **kw)
    finally:
        plt.close("all")


def invoke(env, path, args, kw):
    mod, fn = path.split(".")
    f = getattr(getattr(env, mod), fn)
    try:
        with np.errstate(all="ignore"):
            return f(*args, **kw) if fn != "plot_truss" else closing(f, args, kw)
    except (ValueError, IndexError) as e:
        if fn.startswith("elast") or fn in ("jacoper", "strain_nodes", "loadasem", "solids_auto"):
            return ("ValueError", str(e))
        raise


@check("C21")
class purity:
    """frame and independence of the call history"""
    def gen(env, rng, i):
        names = list(TABLE)
        a = names[i % len(names)]
        calls = [stored(rng, TABLE[a](env, rng))]
        for _ in range(int(rng.integers(1, 4))):
            b = a if rng.random() < .5 else names[rng.integers(len(names))]
            calls.append(stored(rng, TABLE[b](env, rng)))
        return dict(calls=calls)

    def chk(env, calls):
        def one(c):
            args = setup(env, copy.deepcopy(c[1]))
            kw = copy.deepcopy(c[2])
            keep = [a.copy() if hasattr(a, "toarray") else copy.deepcopy(a) for a in args]
            r = invoke(env, c[0], args, kw)
            for k, (p, q) in enumerate(zip(keep, args)):
                if not same(p, q):
                    return None, None, None, "%s changes its argument %d" % (c[0], k)
            return r, freeze(r), args, None
        r0, f0, args0, m = one(calls[0])
        if m:
            return m
        # the result must not be backed by the arguments
        live = freeze(r0)
        for c in calls[1:]:
            rb, fb, ab, m = one(c)
            if m:
                return m
            if not same(freeze(r0), live):
                return "%s changes a result returned earlier by %s" % (c[0], calls[0][0])
            scramble(rb)
        again = invoke(env, calls[0][0], setup(env, copy.deepcopy(calls[0][1])), calls[0][2])
        if not same(freeze(again), f0):
            return "%s gives another result after other calls (%s)" % (calls[0][0], [c[0] for c in calls[1:]])
        scramble(r0)
        third = invoke(env, calls[0][0], setup(env, copy.deepcopy(calls[0][1])), calls[0][2])
        if not same(freeze(third), f0):
            return "%s gives another result after the caller edited an earlier result" % calls[0][0]
        # editing a result must not reach the arguments either, except the returned data containers
        return None


@check("C21", weight=.5)
class argument_reuse:
    """the same argument objects used twice; edits of a result do not reach the inputs"""
    def gen(env, rng, i):
        names = list(TABLE)
        return dict(call=stored(rng, TABLE[names[i % len(names)]](env, rng)))

    def chk(env, call):
        path, a, kw = call
        args = setup(env, a)
        keep = [x.copy() if hasattr(x, "toarray") else copy.deepcopy(x) for x in args]
        r = invoke(env, path, args, kw)
        f = freeze(r)
        if path not in ("pos.mesh2tri",):
            scramble(r)
        for k, (p, q) in enumerate(zip(keep, args)):
            if not same(p, q):
                return "editing the result of %s changes its argument %d" % (path, k)
        r2 = invoke(env, path, args, kw)
        if not same(freeze(r2), f):
            return "%s gives another result the second time" % path
