"""Contracts of the element matrices: C06-C09 (symbolic coordinates and
parameters; callers are checked against the contracts of the operators,
Jacobians and moduli proved for C01-C05)."""
import itertools
import math
import random
from fractions import Fraction as Q
import numpy as np
from vf import terms as tm, poly as pl, exec as ex, smt
from vf.terms import R, I, T
from vf.symnp import NP, wrap
from vf.contract import (Case, World, rv, iv, arr, variables_of, pairs, raw, lemma, Result, merge, exc_kind)
from vf.symrun import group
from contracts import spec
from contracts.sym_elements import rp, mat_assume

TOL = Q(1, 10**9)


class Shape:
    """atoms of one element: gradients, interpolation, hoop factors and
    determinant at each point of the documented rule"""
    def __init__(self, fname, affine=False, values=False):
        """affine (straight simplex): gradients and determinant are constant, any
        rule is admitted and the result must be the exact integral"""
        self.affine = affine
        self.name, self.kind, self.needrho = spec.CONT[fname]
        self.dim, self.n = spec.DIM[self.name], spec.NN[self.name]
        self.pts, self.wts = spec.RULE[self.name]()
        self.pts = [tuple(float(c) for c in p) for p in self.pts]
        q = len(self.pts)
        d, n = self.dim, self.n
        self.N = [[rv("N%d_%d" % (k, i)) for i in range(n)] for k in range(q)]
        if values:
            # what C01 gives for the interpolation at the points of the rule
            self.N = [[tm._co(x) for x in spec.shape(self.name, [tm.const(Q(c)) for c in p])[0]] for p in self.pts]
        self.dx = [[[rv("dx%d_%d_%d" % (k, a, i)) for i in range(n)] for a in range(d)] for k in range(q)]
        self.det = [rv("det%d" % k) for k in range(q)]
        self.rad = [rv("rad%d" % k) for k in range(q)]
        self.degenerate = [tm.var("degenerate%d" % k, "B") for k in range(q)]
        self.HB = []
        for k in range(q):
            H, B = spec.HB3d(self.N[k], self.dx[k]) if self.kind == "3d" else spec.HB2d(self.N[k], self.dx[k])
            if self.kind == "axi":
                B.append([0]*(2*n))
                for i in range(n):
                    B[3][2*i] = self.N[k][i]/self.rad[k]
            self.HB.append((H, B))
        m = {"2d": 3, "axi": 4, "3d": 6}[self.kind]
        c = [[rv("C%d%d" % (min(i, j), max(i, j))) for j in range(m)] for i in range(m)]
        # zero pattern of the isotropic law: no coupling between normal and shear
        for i in range(m):
            for j in range(m):
                if isinstance(spec.Cmat(self.kind, rv("E"), rv("nu"))[i][j], int):
                    c[i][j] = tm.const(0)
        self.C = c
        self.facts = [tm.lt(tm.const(Q(99, 10**10)), x) for x in self.det] + \
            ([tm.lt(tm.const(0), x) for x in self.rad] if self.kind == "axi" else [])

        if affine:
            self.dx = [self.dx[0]]*q
            self.det = [self.det[0]]*q
            self.HB = [self.HB[0]]*q
            self.degenerate = [self.degenerate[0]]*q

    def K(self, C, radius=None):
        if self.affine:
            S = self
            keep = S.HB, S.wts, S.det
            S.wts, S.HB, S.det = [Q(1, math.factorial(S.dim))], S.HB[:1], S.det[:1]
            try:
                return S._sum(1, C, None, radius)
            finally:
                S.HB, S.wts, S.det = keep
        return self._sum(1, C, None, radius)

    def M(self, rho, radius=None):
        if self.affine:
            d, n = self.dim, self.n
            f = Q(1, math.factorial(d + 2))
            return [[rho*self.det[0]*tm.const(f*(2 if i//d == j//d else 1)) if i % d == j % d else tm.const(0)
                     for j in range(d*n)] for i in range(d*n)]
        return self._sum(0, None, rho, radius)

    def _sum(self, which, C, rho, radius):
        nd = len(self.HB[0][0][0])
        out = [[tm.const(0)]*nd for _ in range(nd)]
        for k, w in enumerate(self.wts):
            G = self.HB[k][which]
            f = tm.const(w if isinstance(w, Q) else float(w))*self.det[k]
            if radius is not None:
                f = f*radius(self.rad[k])
            if which == 0:
                f = f*rho
            rows = len(G)
            z = lambda v: isinstance(v, int) and v == 0
            for i in range(nd):
                for j in range(nd):
                    s = None
                    for a in range(rows):
                        if z(G[a][i]):
                            continue
                        for b in (range(rows) if which else (a,)):
                            if z(G[b][j]) or (which and C[a][b].op == "const" and C[a][b].args[0] == 0):
                                continue
                            t = G[a][i]*G[b][j]
                            if which:
                                t = t*C[a][b]
                            s = t if s is None else s + t
                    if s is not None:
                        out[i][j] = out[i][j] + f*s
        return out

    def index(self, pt):
        for k, p in enumerate(self.pts):
            if all(abs(a - b) < 1e-9 for a, b in zip(p, pt)):
                return k
        return None


def _num(x):
    x = tm._co(x)
    if x is None or x.op != "const":
        raise tm.Unsupported("evaluation point is not a number")
    return float(x.args[0])


class OpStub:
    """contract of elast_diff_*: H, B, det of the given interpolation at a point
    of the element, or ValueError when the element is degenerate there"""
    wants_orig = True

    def __init__(self, S, co, dim):
        self.S, self.co, self.dim = S, co, dim

    def __call__(self, orig, world):
        S, dim = self.S, self.dim

        def f(*a, **k):
            names = ["r", "s", "t"][:dim] + ["coord", "element"]
            for nm, v in zip(names, a):
                k[nm] = v
            if set(k) - set(names) or not set(names[:-1]) <= set(k):
                raise tm.Unsupported("operator called with %s" % sorted(k))
            pt = tuple(_num(k[c]) for c in names[:dim])
            q = 0 if S.affine else S.index(pt)
            c = raw(k["coord"])
            if c.shape != self.co.shape or any(tm._co(x) is not y for x, y in zip(c.flat, self.co.raw().flat)):
                raise tm.Unsupported("operator evaluated on other coordinates")
            if q is None:
                raise tm.Unsupported("operator evaluated at %s, not a point of the documented rule" % (pt,))
            el = k.get("element")
            if el is None:
                if dim == 2:
                    raise tm.Unsupported("no interpolation given")
                el = world.fem.shape_hex8
            N, dN = el(*[tm.const(x) for x in pt])
            Ns, dNs = spec.shape(S.name, list(pt))
            N, dN = raw(N), raw(dN)
            if N.shape != (S.n,) or dN.shape != (S.dim, S.n) or \
                    any(abs(_num(x) - y) > 1e-9 for x, y in zip(N.flat, Ns)) or \
                    any(abs(_num(x) - y) > 1e-9 for x, y in zip(dN.flat, [z for r in dNs for z in r])):
                raise tm.Unsupported("interpolation is not the element's")
            if bool(S.degenerate[q]):
                raise ValueError("degenerate")
            H, B = S.HB[q]
            if S.affine:
                if min(pt) < -1e-9 or sum(pt) > 1 + 1e-9:
                    raise tm.Unsupported("operator evaluated outside the element")
                H = (spec.HB2d if dim == 2 else spec.HB3d)([tm.const(float(x)) for x in Ns],
                                                           S.dx[0])[0]
            for fct in S.facts:
                ex.CURRENT.extra.append(fct)
            return NP.array([[tm._co(x) for x in r] for r in H]), NP.array([[tm._co(x) for x in r] for r in B]), S.det[q]
        return f


def _matstub(S, E, nu):
    def f(p):
        p = raw(p)
        if p.shape != (2,) or tm._co(p[0]) is not E or tm._co(p[1]) is not nu:
            raise tm.Unsupported("moduli of other parameters")
        return NP.array([[tm._co(x) for x in r] for r in S.C])
    return f


_OP = {"2d": "elast_diff_2d", "axi": "elast_diff_axi", "3d": "elast_diff_3d"}
_MATFN = {"2d": "umat", "axi": "elast_mat_axi", "3d": "elast_mat"}


def geometry(name, rng):
    """a valid element geometry"""
    ref = np.array(spec.REF[name], float)
    d = ref.shape[1]
    for _ in range(50):
        A = np.eye(d)*rng.uniform(.5, 2) + np.array([[rng.uniform(-.4, .4) for _ in range(d)] for _ in range(d)])
        if np.linalg.det(A) < .1:
            continue
        x = ref @ A.T
        x = x + np.array([[rng.uniform(-.05, .05) for _ in range(d)] for _ in range(len(ref))])
        x[:, 0] += 4
        ok = True
        for p in spec.RULE[name]()[0]:
            _, dN = spec.shape(name, [float(c) for c in p])
            if np.linalg.det(np.array(dN) @ x) < 1e-3:
                ok = False
        if ok:
            return x
    return ref + 4


def _replay(fname, co, prmv, pc, check, form, ints=False):
    """inputs of the real element satisfying the path condition on the real
    inputs (coordinates, parameters)"""
    S = Shape(fname, values=True)

    def f(w):
        rng = random.Random(3)
        out = []
        rel = [c for c in pc if all(v.args[0].split("_")[0] == "x" or any(v is q for q in prmv) for v in _vars(c))]
        cv = {v for c in rel for v in _vars(c)}
        for trial in range(60):
            g = geometry(S.name, rng)
            env = {}
            for i, v in np.ndenumerate(co.raw()):
                env[v.id] = g[i]
            base = {"E": 10**rng.uniform(0, 3), "nu": rng.uniform(-.5, .45), "rho": rng.choice([0, rng.uniform(.5, 3)])}
            if ints:
                base["E"], base["rho"] = rng.randint(1, 1000), rng.randint(0, 3)
            for v in prmv:
                env[v.id] = w.get(v.args[0], base[v.args[0]]) if trial % 2 == 0 else base[v.args[0]]
            good = ex._safe(lambda e: all(ex.evaluate(c, e) for c in rel))(env)
            if not good and trial < 12:
                fix = [tm.eq(v, tm.const(float(env[v.id]))) for v in co.raw().flat if all(v is not q for q in cv)]
                near = [tm.lt(tm.absv(tm.add(v, tm.const(-float(env[v.id])))), tm.const(.3))
                        for v in co.raw().flat if any(v is q for q in cv)]
                p = ex.solver_point(rel + fix + near + mat_assume(*prmv[:2]), list(cv))
                if p is not None:
                    env.update({k: float(x) for k, x in p.items()})
                    good = True
            if good:
                p = [int(env[v.id]) if v.sort == I else float(env[v.id]) for v in prmv]
                c = np.array([float(env[v.id]) for v in co.raw().flat]).reshape(co.shape)
                if form == "array":
                    p = np.array(p)
                elif form == "tuple":
                    p = tuple(p)
                out += rp(check, fname=fname, c=c, p=p)
                if len(out) >= 4:
                    break
        return out
    return f


_vm = {}


def _vars(t):
    r = _vm.get(t.id)
    if r is None:
        r = _vm[t.id] = {s for s in tm.subterms(t) if s.op == "var"}
    return r


def _element(ctx, fname, which, form, np_, ints=False):
    """which: 0 stiffness, 1 mass"""
    from vf.symarr import VList
    S = Shape(fname, spec.CONT[fname][0] in ("tri3", "tet4"), values=True)
    E, nu, rho = (iv("E"), rv("nu"), iv("rho")) if ints else (rv("E"), rv("nu"), rv("rho"))
    prmv = [E, nu, rho][:np_]
    co = arr("x", (S.n, S.dim), I if ints else R)
    nm = "%s(%s of %d%s)" % (fname, form, np_, ", integer coordinates and parameters" if ints else "")

    def call(W):
        p = {"tuple": lambda: tuple(prmv), "list": lambda: VList(list(prmv)), "array": lambda: NP.array(prmv)}[form]()
        return getattr(W.uel, fname)(co, p)
    st = {"femutil." + _OP[S.kind]: OpStub(S, co, S.dim)}
    mode1 = dict(st)
    mode1["femutil." + _MATFN[S.kind]] = _matstub(S, E, nu)
    dens = rho if np_ == 3 else tm.const(1)
    Creal = [[tm._co(x) for x in r] for r in spec.Cmat(S.kind, E, nu)]
    radii = [None] if S.kind != "axi" else [lambda r: r, lambda r: r*tm.const(2*math.pi), None]
    best = None
    why = []
    for stubs, C in ((mode1, S.C), (st, Creal)):
        if which == 1 and stubs is mode1:
            pass
        try:
            c = Case(ctx, nm, call, mat_assume(E, nu) + ([tm.le(tm.const(0), rho)] if np_ == 3 else []),
                     stubs=stubs, function="uelutil." + fname, tol=TOL)
            c.run()
        except tm.Unsupported as e:
            why.append(str(e))
            continue
        for rad in radii:
            want = S.K(C, rad) if which == 0 else S.M(dens, rad)
            res, sides, exc = [], [], []
            lastpc = None
            for p in c.paths:
                facts = c.assume + p.pc
                if p.exc is None:
                    if not isinstance(p.value, tuple) or len(p.value) != 2:
                        res.append(Result("refuted", "path exploration", "does not return (K, M)", {}))
                        continue
                    its = pairs("KM"[which], p.value[which], want)
                    if isinstance(its, list):
                        its = [(l, tm._co(g), w) for l, g, w in its]
                    r = merge(c._items(its, facts, None))
                    if r.status != "proved":
                        lastpc = p.pc
                    res.append(r)
                    res.append(ex.prove(tm.not_(tm.or_(*S.degenerate)), facts))
                elif isinstance(p.exc, ValueError):
                    exc.append(ex.prove(tm.or_(*S.degenerate), facts))
                    if exc[-1].status != "proved":
                        lastpc = p.pc
                else:
                    exc.append(Result("unknown", "", "raises %r" % p.exc, kind=exc_kind(p.exc)))
                    lastpc = p.pc
                for f, taken, _ in p.sides:
                    sides.append(ex.prove(f, c.assume + S.facts + list(taken)))
            if not any(p.exc is None for p in c.paths):
                res.append(Result("unknown", "", "no returning path"))
            rr = merge(res)
            re_ = merge(exc) if exc else Result("refuted", "path exploration",
                                                "degenerate element does not raise", {})
            rs = merge(sides) if sides else None
            tot = merge([rr, re_] + ([rs] if rs else []))
            if best is None or (best[0].status != "proved" and tot.status == "proved"):
                best = (tot, rr, re_, rs, rad, lastpc)
            if tot.status == "proved":
                break
        if best and best[0].status == "proved":
            break
    ctx.cover(nm, smt.check(mat_assume(E, nu), 2000)[0] == "sat")
    lab = "stiffness" if which == 0 else "mass"
    if best is None:
        ctx.unknown(nm + "/" + lab, "outside the verifier's subset: " + "; ".join(why), "uelutil." + fname, kind="outside")
        return
    tot, rr, re_, rs, rad, pc = best
    pc = pc or []

    def put(what, r):
        rep = []
        if r.status != "proved":
            w = r.witness or {}
            if not w:
                rel = [c for c in pc if all(v.args[0].split("_")[0] == "x" or any(v is q for q in prmv) for v in _vars(c))]
                p = ex.solver_point(rel + mat_assume(E, nu), list(prmv)) if rel else None
                w = ex.named(p, prmv) if p else {}
            rep = _replay(fname, co, prmv, pc, "stiffness" if which == 0 else "mass", form, ints)(w)
            if what == "raises":
                rep += [dict(check="degenerate", args=x["args"]) for x in []]
            r = Result("refuted" if rep else "unknown", r.backend, r.detail, w)
        ctx.put(nm + "/" + what, r.status, r.backend, r.detail, r.witness, rep, "uelutil." + fname)
    put(lab + (" (meridian-section quadrature: known finding axi-radius)"
               if S.kind == "axi" and rad is None and tot.status == "proved" else ""), rr)
    put("raises ValueError exactly for a degenerate element", re_)
    if rs is not None:
        put("defined", rs)


def _forms(fname):
    need = spec.CONT[fname][2]
    return [(f, 3) for f in ("tuple", "list", "array")] + ([] if need else [(f, 2) for f in ("tuple", "list", "array")])


def _mk(fname, which):
    def g(ctx):
        for form, k in _forms(fname):
            _element(ctx, fname, which, form, k)
        _element(ctx, fname, which, "tuple", 3, ints=True)
    g.__name__ = fname + ("_K" if which == 0 else "_M")
    group("C06" if which == 0 else "C07", ["uelutil." + fname, "gaussutil.gauss_*"], limit=230)(g)


for _f in spec.CONT:
    _mk(_f, 0)
    _mk(_f, 1)


# -------------------------------------------------------------- lemmas C06/C07
def _dot(a, b):
    s = tm.const(0)
    for x, y in zip(a, b):
        if (isinstance(x, int) and x == 0) or (isinstance(y, int) and y == 0):
            continue
        s = s + tm._co(x)*tm._co(y)
    return s


@group("C06", ["uelutil.elast_*"], limit=200)
def stiffness_lemmas(ctx):
    for m in (3, 4, 6):
        n = 2
        B = arr("B", (m, n)).raw()
        C = [[rv("C%d%d" % (min(i, j), max(i, j))) for j in range(m)] for i in range(m)]
        BCB = [[sum((B[a, i]*C[a][b]*B[b, j] for a in range(m) for b in range(m)), tm.const(0)) for j in range(n)]
               for i in range(n)]
        lemma(ctx, "lemma/B^T C B symmetric (%d strains)" % m, equal=[("K01", BCB[0][1], BCB[1][0])])
        u = arr("u", (n,)).raw()
        e = [sum((B[a, i]*u[i] for i in range(n)), tm.const(0)) for a in range(m)]
        lemma(ctx, "lemma/u^T B^T C B u is the energy of the strain B u (%d strains)" % m, equal=[
            ("energy", sum((u[i]*BCB[i][j]*u[j] for i in range(n) for j in range(n)), tm.const(0)),
             sum((e[a]*C[a][b]*e[b] for a in range(m) for b in range(m)), tm.const(0)))])
    w, d, q = rv("w"), rv("det"), rv("q")
    lemma(ctx, "lemma/weight x det x energy is nonnegative",
          goal=tm.le(tm.const(0), w*d*q), facts=[tm.lt(tm.const(0), w), tm.lt(tm.const(0), d), tm.le(tm.const(0), q)])
    for f in spec.CONT:
        ok = all(x > 0 for x in spec.RULE[spec.CONT[f][0]]()[1])
        ctx.put("lemma/weights of %s positive" % f, "proved" if ok else "unknown", "evaluation", function="(lemma)")
    # rigid motions and linear fields, every element: B u depends on the field
    # only through sum dN/dx (= 0) and dN/dx . x (= identity)
    for f, (name, kind, _) in spec.CONT.items():
        d, n = spec.DIM[name], spec.NN[name]
        dx = arr("dx", (d, n)).raw()
        X = arr("x", (n, d)).raw()
        g, t = arr("g", (d, d)).raw(), arr("t", (d,)).raw()
        N = arr("N", (n,)).raw()
        if kind == "axi":
            t[0] = tm.const(0)
            g = np.full((d, d), tm.const(0), dtype=object)
        H, B = spec.HB3d(list(N), dx.tolist()) if d == 3 else spec.HB2d(list(N), dx.tolist())
        u = [sum((g[k, b]*X[i, b] for b in range(d)), t[k]) for i in range(n) for k in range(d)]
        eps = [_dot(r, u) for r in B]
        if kind == "axi":
            eps.append(_dot([N[i//2] if i % 2 == 0 else 0 for i in range(2*n)], u))
        S = [sum((dx[a, i] for i in range(n)), tm.const(0)) for a in range(d)]
        P = [[sum((dx[a, i]*X[i, b] for i in range(n)), tm.const(0)) for b in range(d)] for a in range(d)]
        G = [[sum((g[k, b]*P[a][b] for b in range(d)), t[k]*S[a]) for a in range(d)] for k in range(d)]
        want = [G[0][0], G[1][1], G[0][1] + G[1][0]] if d == 2 else \
            [G[0][0], G[1][1], G[2][2], G[1][2] + G[2][1], G[0][2] + G[2][0], G[0][1] + G[1][0]]
        if kind == "axi":
            want.append(tm.const(0))
        lemma(ctx, "lemma/%s: strain of a linear field through its invariants" % f,
              equal=[("eps%d" % i, a, b) for i, (a, b) in enumerate(zip(eps, want))])
    for d in (2, 3):
        J = arr("J", (d, d)).raw().tolist()
        D, A = tm._co(spec.dt(J)), spec.adj(J)
        ps = []
        for a in range(d):
            for b in range(d):
                ps.append(("%d%d" % (a, b), sum((tm._co(A[a][c])*J[c][b] for c in range(d)), tm.const(0)),
                           D if a == b else tm.const(0)))
        lemma(ctx, "lemma/adj(J) J = det(J) I (%dD): dN/dx . x is the identity" % d, equal=ps)
    for name in spec.ELEMS:
        xs = [rv(c) for c in "rst"[:spec.DIM[name]]]
        _, dN = spec.shape(name, xs)
        lemma(ctx, "lemma/%s: derivatives sum to zero" % name, equal=[
            ("d%d" % a, sum((tm._co(x) for x in dN[a]), tm.const(0)), tm.const(0)) for a in range(len(xs))])


def _exact_volume(name, X):
    """integral of det J over the reference domain, exactly"""
    d = spec.DIM[name]
    xs = [rv(c) for c in "rst"[:d]]
    _, dN = spec.shape(name, xs)
    J = spec.jac([[tm._co(x) for x in r] for r in dN], X)
    p = pl.poly(tm._co(spec.dt(J)))
    out = {}
    ids = [x.id for x in xs]
    for m, c in p.items():
        dd = dict(m)
        e = tuple(dd.pop(i, 0) for i in ids)
        k = spec.mono_simplex(e) if name[:3] in ("tri", "tet") else spec.mono_cube(e)
        if k:
            mm = tuple(sorted(dd.items()))
            out[mm] = out.get(mm, 0) + c*k
    return pl.term_of({m: c for m, c in out.items() if c}, R)


@group("C07", ["uelutil.elast_*"], limit=230)
def mass_lemmas(ctx):
    for f, (name, kind, _) in spec.CONT.items():
        if kind == "axi":
            continue
        d, n = spec.DIM[name], spec.NN[name]
        S = Shape(f)
        M = S.M(rv("rho"))
        bad = [(i, j) for i in range(d*n) for j in range(d*n) if i % d != j % d and not
               (tm._co(M[i][j]).op == "const" and M[i][j].args[0] == 0)]
        ctx.put("lemma/%s: components are not coupled" % f, "unknown" if bad else "proved", "normal form",
                function="(lemma)")
        # translation: sum of a component block, with sum N = 1
        sub = {}
        for k in range(len(S.pts)):
            sub[S.N[k][n - 1]] = tm.const(1) - sum(S.N[k][:n - 1], tm.const(0))
        tot = tm.const(0)
        for i in range(n):
            for j in range(n):
                tot = tot + M[d*i][d*j]
        want = tm.const(0)
        for k, w in enumerate(S.wts):
            want = want + rv("rho")*tm.const(float(w))*S.det[k]
        lemma(ctx, "lemma/%s: a unit translation carries rho x sum of w det" % f,
              equal=[("mass", tm.subst(tot, sub), want)], tol=TOL)
        X = [list(r) for r in arr("x", (n, d)).raw()]
        s = tm.const(0)
        for p, w in zip(S.pts, S.wts):
            _, dN = spec.shape(name, [tm.const(c) for c in p])
            s = s + tm.const(float(w))*tm._co(spec.dt(spec.jac([[tm._co(x) for x in r] for r in dN], X)))
        lemma(ctx, "lemma/%s: sum of w det is the exact area or volume" % f,
              equal=[("volume", s, _exact_volume(name, X))], tol=TOL)
    n = 2
    N = arr("N", (n,)).raw()
    u = arr("u", (n,)).raw()
    lemma(ctx, "lemma/u^T N N^T u is a square", equal=[
        ("q", sum((u[i]*N[i]*N[j]*u[j] for i in range(n) for j in range(n)), tm.const(0)),
         (N[0]*u[0] + N[1]*u[1])*(N[0]*u[0] + N[1]*u[1]))])
    w, d, r, q = rv("w"), rv("det"), rv("rho"), rv("q")
    lemma(ctx, "lemma/nonnegative sum", goal=tm.le(tm.const(0), r*w*d*(q*q)),
          facts=[tm.lt(tm.const(0), w), tm.lt(tm.const(0), d), tm.le(tm.const(0), r)])


# ------------------------------------------------------------------- C08, C09
def _bar_sampler(vs):
    def s(rng):
        e = {v: rng.uniform(.2, 5) for v in vs}
        for v in vs:
            if v.args[0].startswith("x_"):
                e[v] = rng.uniform(-3, 3)
        if rng.random() < .4:
            x = [v for v in vs if v.args[0].startswith("x_")]
            by = {v.args[0]: v for v in x}
            k = rng.choice("01")
            e[by["x_1_" + k]] = e[by["x_0_" + k]]
        return e
    return s


def _bar(co):
    c = co.raw()
    dx, dy = c[1, 0] - c[0, 0], c[1, 1] - c[0, 1]
    L = tm.sqrt(dx*dx + dy*dy)
    return dx, dy, L


def _bar_case(ctx, prop, fn, form, names, ints=False):
    from vf.symarr import VList
    co = arr("x", (2, 2), I if ints else R)
    P = [rv(k) for k in names]
    dx, dy, L = _bar(co)
    assume = [(tm.le if k == "rho" else tm.lt)(tm.const(0), p) for k, p in zip(names, P)] + [tm.not_(tm.and_(tm.eq(dx, tm.const(0)), tm.eq(dy, tm.const(0)))),
                                                   tm.lt(tm.const(0), dx*dx + dy*dy), tm.lt(tm.const(0), L)]
    vs = P + variables_of(co)
    samp = _bar_sampler(vs)
    if ints:
        base = samp

        def samp(rng):
            e = base(rng)
            return {v: (rng.randint(-4, 4) if v.sort == I else x) for v, x in e.items()}

    def call(W):
        p = {"tuple": lambda: tuple(P), "list": lambda: VList(list(P)), "array": lambda: NP.array(P),
             "scalar": lambda: P[0]}[form]()
        return getattr(W.uel, fn)(co, p)

    def replay(w):
        p = [w[v.args[0]] for v in P]
        p = p[0] if form == "scalar" else np.array(p) if form == "array" else tuple(p) if form == "tuple" else p
        c = np.array([[w[v.args[0]] for v in r] for r in co.raw()])
        return rp("bars" if prop == "C08" else "beams", fn=fn, c=c, p=p)
    c, s = dx/L, dy/L
    if fn == "spring":
        K, M = spec.bar_K(P[0], c, s), [[0]*4]*4
    elif fn == "truss2D":
        dens = P[2] if len(P) > 2 else tm.const(1)
        K, M = spec.bar_K(P[0]*P[1]/L, c, s), spec.truss_M(dens*P[1]*L)
    elif fn == "beam2DU":
        dens, area = (tm.const(1), tm.const(1)) if len(P) == 2 else P[2:]
        k, m = spec.beam_local(P[0]*P[1], 0, L, dens*area*L, False)
        K, M = spec.beam_rotate(k, c, s), spec.beam_rotate(m, c, s)
    else:
        dens = tm.const(1) if len(P) == 3 else P[3]
        k, m = spec.beam_local(P[0]*P[1], P[0]*P[2], L, dens*P[2]*L, True)
        K, M = spec.beam_rotate(k, c, s), spec.beam_rotate(m, c, s)
    z = lambda A: [[tm._co(x) for x in r] for r in A]
    cs = Case(ctx, "%s(%s of %d%s)" % (fn, form, len(P), ", integer coordinates" if ints else ""), call, assume, vs,
              samp, function="uelutil." + fn, replay=replay)

    def post(v, p):
        if not isinstance(v, tuple) or len(v) != 2:
            return Result("refuted", "path exploration", "does not return (K, M)", {})
        out = []
        for q in (pairs("K", v[0], z(K)), pairs("M", v[1], z(M))):
            out += q if isinstance(q, list) else [q]
        return out
    cs.verify(post)
    return z(K), z(M), (c, s, L)


@group("C08", ["uelutil.spring", "uelutil.truss2D"], limit=200)
def bars(ctx):
    for form in ("scalar", "array"):
        _bar_case(ctx, "C08", "spring", form, ["k"])
    _bar_case(ctx, "C08", "spring", "scalar", ["k"], ints=True)
    for form in ("tuple", "list", "array"):
        for ps in (["E", "A"], ["E", "A", "rho"]):
            _bar_case(ctx, "C08", "truss2D", form, ps)
    _bar_case(ctx, "C08", "truss2D", "tuple", ["E", "A", "rho"], ints=True)
    k, c, s, m = rv("k"), rv("c"), rv("s"), rv("m")
    K = [[tm._co(x) for x in r] for r in spec.bar_K(k, c, s)]
    u = arr("u", (4,)).raw()
    lemma(ctx, "lemma/bar stiffness symmetric", equal=[("K%d%d" % (i, j), K[i][j], K[j][i])
                                                       for i in range(4) for j in range(i)])
    el = c*(u[2] - u[0]) + s*(u[3] - u[1])
    lemma(ctx, "lemma/bar energy is k x elongation^2 (semidefinite)", equal=[
        ("energy", sum((u[i]*K[i][j]*u[j] for i in range(4) for j in range(4)), tm.const(0)), k*el*el)])
    t = arr("t", (2,)).raw()
    mo = {"translation": [t[0], t[1], t[0], t[1]], "transverse motion": [s*t[0]*-1, c*t[0], s*t[1]*-1, c*t[1]]}
    for nm, v in mo.items():
        lemma(ctx, "lemma/no force for %s" % nm, equal=[
            ("f%d" % i, sum((K[i][j]*v[j] for j in range(4)), tm.const(0)), tm.const(0)) for i in range(4)])
    f = [sum((K[i][j]*u[j] for j in range(4)), tm.const(0)) for i in range(4)]
    lemma(ctx, "lemma/equal and opposite axial forces", equal=[
        ("x", f[0], -f[2]), ("y", f[1], -f[3]), ("axial", f[2]*s, f[3]*c)])
    M = [[tm._co(x) for x in r] for r in spec.truss_M(m)]
    lemma(ctx, "lemma/truss mass is m per direction", equal=[
        ("m%d%d" % (a, b), M[a][b] + M[a][b + 2] + M[a + 2][b] + M[a + 2][b + 2], m if a == b else tm.const(0))
        for a in range(2) for b in range(2)])


def _circle(K, c, s):
    """substitute s^2 = 1 - c^2"""
    pl.poly(c), pl.poly(s)
    def red(t):
        p = pl.poly(t)
        out = {}
        for m, k in p.items():
            d = dict(m)
            e = d.pop(s.id, 0)
            q = {tuple(sorted(d.items())): k}
            if e % 2:
                q = pl.pmul(q, {((s.id, 1),): Q(1)})
            q = pl.pmul(q, pl.ppow({pl.ONE: Q(1), ((c.id, 2),): Q(-1)}, e//2))
            out = pl.padd(out, q)
        return pl.term_of(out, R)
    return red


@group("C09", ["uelutil.beam2DU", "uelutil.beam2D"], limit=230)
def beams(ctx):
    for form in ("tuple", "list", "array"):
        for ps in (["E", "Iz"], ["E", "Iz", "rho", "A"]):
            _bar_case(ctx, "C09", "beam2DU", form, ps)
        for ps in (["E", "Iz", "A"], ["E", "Iz", "A", "rho"]):
            _bar_case(ctx, "C09", "beam2D", form, ps)
    _bar_case(ctx, "C09", "beam2DU", "tuple", ["E", "Iz", "rho", "A"], ints=True)
    _bar_case(ctx, "C09", "beam2D", "tuple", ["E", "Iz", "A", "rho"], ints=True)
    EI, EA, L, m, c, s = (rv(k) for k in ("EI", "EA", "L", "m", "c", "s"))
    red = _circle(None, c, s)
    for axial in (False, True):
        nm = "beam2D" if axial else "beam2DU"
        kl, ml = spec.beam_local(EI, EA, L, m, axial)
        K = [[red(tm._co(x)) for x in r] for r in spec.beam_rotate(kl, c, s)]
        lemma(ctx, "lemma/%s symmetric" % nm, equal=[("K%d%d" % (i, j), K[i][j], K[j][i])
                                                     for i in range(6) for j in range(i)])
        t, th = arr("t", (2,)).raw(), rv("theta")
        # small rigid motion: u = t + theta x r
        v = [t[0], t[1], th, t[0] - th*(L*s), t[1] + th*(L*c), th]
        lemma(ctx, "lemma/%s: rigid motions produce no force" % nm, equal=[
            ("f%d" % i, red(sum((K[i][j]*v[j] for j in range(6)), tm.const(0))), tm.const(0)) for i in range(6)])
        u = arr("u", (6,)).raw()
        ul = [c*u[0] + s*u[1], -s*u[0] + c*u[1], u[2], c*u[3] + s*u[4], -s*u[3] + c*u[4], u[5]]
        al, be = ul[2] - (ul[4] - ul[1])/L, ul[5] - (ul[4] - ul[1])/L
        en = (EI/L)*(3*((al + be)*(al + be)) + (al - be)*(al - be))
        if axial:
            en = en + (EA/L)*((ul[3] - ul[0])*(ul[3] - ul[0]))
        lemma(ctx, "lemma/%s: energy is a sum of squares" % nm, equal=[
            ("energy", red(sum((u[i]*K[i][j]*u[j] for i in range(6) for j in range(6)), tm.const(0))), red(en))])
        # covariance: rotating the bar by (a, b) conjugates the matrix
        a, b = rv("a"), rv("b")
        K2 = spec.beam_rotate(kl, a*c - b*s, a*s + b*c)
        Kr = spec.beam_rotate(spec.beam_rotate(kl, c, s), a, b)
        lemma(ctx, "lemma/%s: covariant under rotation" % nm, equal=[
            ("K%d%d" % (i, j), tm._co(K2[i][j]), tm._co(Kr[i][j])) for i in range(6) for j in range(6)])
