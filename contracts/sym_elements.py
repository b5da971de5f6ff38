"""Contracts of the element-level functions: C01-C09 (arrays of concrete shape,
symbolic contents: no bound on values)."""
import itertools
import math
from fractions import Fraction as Q
import numpy as np
from vf import terms as tm, poly as pl, symnp, exec as ex
from vf.terms import R, I, T
from vf.symnp import NP, wrap
from vf.contract import (Case, World, rv, iv, arr, variables_of, pairs, raw, Abstraction, lemma, Result, merge,
                         same_terms)
from vf.symrun import group
from contracts import spec

FUN = {"tri3": "shape_tri3", "tri6": "shape_tri6", "quad4": "shape_quad4", "quad8": "shape_quad8",
       "quad9": "shape_quad9", "tet4": "shape_tet4", "hex8": "shape_hex8"}


def enc(**k):
    from vf.runtime import enc as e
    return e(k)["__di__"] if False else {a: e(b) for a, b in k.items()}


def rp(check, **k):
    from vf.runtime import enc as e
    return [dict(check=check, args=e(k))]


# ------------------------------------------------------------------------ C01
def _shape_case(ctx, name, ints=()):
    xs = [iv(c) if c in ints else rv(c) for c in ("r", "s", "t")[:spec.DIM[name]]]

    def sampler(rng):
        return {x: rng.choice([0, 1, -1]) if x.sort == I else
                rng.choice([0.0, 1.0, -1.0, rng.uniform(-1, 1), rng.uniform(-1, 1)]) for x in xs}
    c = Case(ctx, name + (", whole %s" % " ".join(ints) if ints else ""), lambda W: getattr(W.fem, FUN[name])(*xs), variables=xs, sampler=sampler,
             function="femutil." + FUN[name],
             replay=lambda w: rp("shape_functions", name=name, pt=[int(w[x.args[0]]) if x.sort == I else float(w[x.args[0]]) for x in xs]))
    N, dN = spec.shape(name, xs)

    def post(v, p):
        if not isinstance(v, tuple) or len(v) != 2:
            return Result("refuted", "evaluation", "does not return a pair", {})
        a, b = pairs("N", v[0], N), pairs("dN", v[1], dN)
        return [x for q in (a, b) for x in (q if isinstance(q, list) else [q])]
    c.verify(post)


@group("C01", ["femutil." + f for f in FUN.values()],
       expects=["%s/result" % n for n in FUN])
def shape_functions(ctx):
    for name in FUN:
        _shape_case(ctx, name)
        # coordinates given as integers, alone or mixed with fractional ones
        cs = ("r", "s", "t")[:spec.DIM[name]]
        for k in range(1, len(cs) + 1):
            for ints in itertools.combinations(cs, k):
                _shape_case(ctx, name, ints)
    # lemma: the specification functions interpolate, are complete and the
    # derivative table is the gradient (exact rational arithmetic)
    for name in FUN:
        xs = [rv(c) for c in ("r", "s", "t")[:spec.DIM[name]]]
        N, dN = spec.shape(name, xs)
        ps = []
        for i, x in enumerate(spec.REF[name]):
            Ni = spec.shape(name, x)[0]
            ps += [("N%d(x%d)" % (j, i), tm.const(Q(Ni[j])), tm.const(Q(int(i == j)))) for j in range(len(Ni))]
        for m in spec.SPACE[name]:
            v = lambda p: math.prod((p[k]**e if not isinstance(p[k], (int, Q)) else Q(p[k])**e
                                     for k, e in enumerate(m)), start=1)
            s = tm.const(0)
            for i, x in enumerate(spec.REF[name]):
                c = Q(1)
                for k, e in enumerate(m):
                    c *= Q(x[k])**e
                s = s + tm.const(c)*N[i]
            ps.append(("monomial %s" % (m,), s, tm._co(v(xs)) if m != (0,)*len(m) else tm.const(1)))
        for d in range(len(xs)):
            for i in range(len(N)):
                ps.append(("dN%d/d%d" % (i, d), tm._co(dN[d][i]), _derive(tm._co(N[i]), xs[d])))
        lemma(ctx, "lemma/%s interpolates, reproduces its space, derivatives are gradients" % name, equal=ps)


def _derive(t, x):
    """derivative of a polynomial term"""
    r = {}
    for m, c in pl.poly(t).items():
        d = dict(m)
        e = d.pop(x.id, 0)
        if e:
            if e > 1:
                d[x.id] = e - 1
            k = tuple(sorted(d.items()))
            r[k] = r.get(k, 0) + c*e
    return pl.term_of(r, R)


# ------------------------------------------------------------------------ C02
def _fr(x):
    x = tm._co(x)
    if x is None or x.op != "const":
        raise tm.Unsupported("quadrature constant is not a number")
    return x.args[0]


def _rule_ok(pts, wts, rule, n):
    P = raw(pts)
    W = raw(wts)
    if rule == "1d":
        deg, dim, tol = 2*n - 1, 1, Q(2, 10**14)
        if P.ndim == 1:
            P = P.reshape(-1, 1)
        if len(P) != n:
            return "%d points" % len(P)
    else:
        deg, dim, tol = n, 2 if rule == "tri" else 3, Q(5, 10**12) if rule == "tri" else Q(2, 10**14)
    if P.ndim != 2 or P.shape[1] != dim or W.shape != (P.shape[0],):
        return "shapes %s %s" % (P.shape, W.shape)
    P = [[_fr(x) for x in p] for p in P]
    W = [_fr(x) for x in W]
    for p in P:
        if rule == "1d":
            if abs(p[0]) > 1:
                return "point outside"
        elif min(p) < 0 or sum(p) > 1:
            return "point %s outside the simplex" % ([float(x) for x in p],)
    pw = [[[Q(1)] for _ in range(dim)] for _ in P]
    for q, p in zip(pw, P):
        for k in range(dim):
            for _ in range(deg):
                q[k].append(q[k][-1]*p[k])
    for m in itertools.product(range(deg + 1), repeat=dim):
        if sum(m) > deg:
            continue
        q = sum(w*math.prod(pw[i][k][e] for k, e in enumerate(m)) for i, w in enumerate(W))
        e = spec.mono_cube(m) if rule == "1d" else spec.mono_simplex(m)*math.factorial(dim)
        if abs(q - e) > tol:
            return "monomial %s integrates to %.17g, exact %.17g" % (m, float(q), float(e))
    return None


def _rule_group(ctx, rule, lo, hi):
    n = iv("order")

    def sampler(rng):
        return {n: rng.choice(list(range(-3, 20)) + [rng.randint(-10**6, 10**6)])}
    fname = "gauss_" + rule
    seen = set()
    c = Case(ctx, fname, lambda W: getattr(W.gau, fname)(n), variables=[n], sampler=sampler,
             function="gaussutil." + fname,
             replay=lambda w: rp("bad_orders", rule=rule, n=int(w["order"])) if not lo <= w["order"] <= hi
             else rp("simplex_and_line_rules", rule=rule, n=int(w["order"])))
    supported = tm.and_(tm.le(tm.const(lo), n), tm.le(n, tm.const(hi)))

    def post(v, p):
        for k in range(lo, hi + 1):
            from vf import smt
            if smt.valid(p.pc, tm.eq(n, tm.const(k)), 2000) == "proved":
                seen.add(k)
                r = _rule_ok(v[0], v[1], rule, k)
                if r:
                    return Result("refuted", "exact rational arithmetic", "order %d: %s" % (k, r), {"order": k})
                return Result("proved", "exact rational arithmetic")
        env = ex.find_point(p.pc, [n], sampler, tries=200, check=lambda e: not lo <= e[n.id] <= hi) or \
            ex.solver_point(p.pc + [tm.not_(supported)], [n])
        if env is not None and not lo <= env[n.id] <= hi:
            return Result("refuted", "z3", "order %d outside the supported set accepted" % env[n.id],
                          {"order": int(env[n.id])})
        return Result("unknown", "", "path %s" % p.pc)

    def rs(e, p):
        if not isinstance(e, ValueError):
            return [Result("refuted", "path exploration", "raises %s" % type(e).__name__,
                           ex.named(ex.solver_point(p.pc, [n]) or {}, [n]))]
        return [("only unsupported orders raise", tm.not_(supported))]
    c.verify(post, raises=rs)
    ctx.put(fname + "/every supported order returns a rule", "proved" if seen == set(range(lo, hi + 1)) else "unknown",
            "path exploration", None if seen == set(range(lo, hi + 1)) else "covered %s" % sorted(seen),
            function="gaussutil." + fname)


@group("C02", ["gaussutil.gauss_1d"], expects=["gauss_1d/result", "gauss_1d/raises"])
def line_rule(ctx):
    _rule_group(ctx, "1d", 2, 10)


@group("C02", ["gaussutil.gauss_tri"], expects=["gauss_tri/result", "gauss_tri/raises"])
def triangle_rule(ctx):
    _rule_group(ctx, "tri", 1, 7)


@group("C02", ["gaussutil.gauss_tet"], expects=["gauss_tet/result", "gauss_tet/raises"])
def tetrahedron_rule(ctx):
    _rule_group(ctx, "tet", 1, 10)


@group("C02", ["gaussutil.gauss_nd"], limit=150,
       expects=["ndim=%s/result" % d for d in ("default", 1, 2, 3, 4, 5, 6)] + ["ndim=2/raises"])
def tensor_rule(ctx):
    """gauss_1d is replaced by its contract's shape: n arbitrary points and
    weights, so the tensor structure is proved for any line rule"""
    def stub(n):
        return (wrap(np.array([rv("x%d" % i) for i in range(n)], dtype=object), "f"),
                wrap(np.array([rv("w%d" % i) for i in range(n)], dtype=object), "f"))
    for d in ("default", 1, 2, 3, 4, 5, 6):
        res = []
        dim = 2 if d == "default" else d
        for n in range(2, {4: 6, 5: 4, 6: 4}.get(d, 11)):
            X = [rv("x%d" % i) for i in range(n)]
            Wt = [rv("w%d" % i) for i in range(n)]
            c = Case(ctx, "ndim=%s" % d, lambda W: W.gau.gauss_nd(n) if d == "default" else W.gau.gauss_nd(n, ndim=d),
                     stubs={"gaussutil.gauss_1d": stub})
            c.run()
            for p in c.paths:
                if p.exc is not None:
                    res.append(Result("refuted", "evaluation", "gauss_nd(%d,%s) raises %r" % (n, d, p.exc), {"n": n}))
                    continue
                P, Wg = p.value
                P, Wg = raw(P), raw(Wg)
                if P.shape != (n**dim, dim) or Wg.shape != (n**dim,):
                    res.append(Result("refuted", "evaluation", "gauss_nd(%d,%s): shapes %s %s" % (
                        n, d, P.shape, Wg.shape), {"n": n}))
                    continue
                want = {}
                for ix in itertools.product(range(n), repeat=dim):
                    want[tuple(X[i].id for i in ix)] = math.prod((Wt[i] for i in ix), start=tm.const(1))
                keys = [tuple(tm._co(x).id for x in row) for row in P]
                if sorted(keys) != sorted(want):
                    res.append(Result("refuted", "normal form", "gauss_nd(%d,%s): points are not the tensor grid" % (
                        n, d), {"n": n}))
                    continue
                res.append(ex.prove_equal([("w%s" % i, Wg[i], want[k]) for i, k in enumerate(keys)], []))
        r = merge(res)
        ctx.put("ndim=%s/result" % d, r.status, r.backend, r.detail, r.witness,
                rp("tensor_rule", n=r.witness["n"], d=None if d == "default" else d) if r.witness else [],
                "gaussutil.gauss_nd")
    n = iv("order")

    def rejecting(k):
        raise ValueError("bad order")
    c = Case(ctx, "ndim=2", lambda W: W.gau.gauss_nd(0, ndim=2), stubs={"gaussutil.gauss_1d": rejecting})
    c.run()
    ok = all(isinstance(p.exc, ValueError) for p in c.paths)
    ctx.put("ndim=2/raises", "proved" if ok else "refuted", "path exploration",
            None if ok else "ValueError of the line rule does not reach the caller", {"n": 0},
            rp("bad_orders", rule="nd", n=0), "gaussutil.gauss_nd")


# ------------------------------------------------------------------------ C03
def coords_sampler(vs, coords, name, extra=None):
    """samples non-degenerate elements: the reference element, distorted"""
    ref = np.array([[float(x) for x in r] for r in spec.REF[name]])

    def s(rng):
        d = ref.shape[1]
        while True:
            A = np.array([[rng.uniform(-2, 2) for _ in range(d)] for _ in range(d)])
            if np.linalg.det(A) > .2:
                break
        X = ref @ A.T + np.array([rng.uniform(-2, 2) for _ in range(d)]) + \
            .03*np.array([[rng.uniform(-1, 1) for _ in range(d)] for _ in range(len(ref))])
        env = {coords.raw()[i]: float(X[i]) for i in np.ndindex(*X.shape)}
        if extra:
            env.update(extra(rng))
        return env
    return s


def _jac_case(ctx, dim, n, ints=""):
    dN, co = arr("dN", (dim, n), I if "derivatives" in ints else R), arr("x", (n, dim), I if ints else R)
    J = spec.jac([list(r) for r in dN.raw()], [list(r) for r in co.raw()])
    D = tm._co(spec.dt(J))
    A = spec.adj(J)
    vs = variables_of(dN, co)

    def sampler(rng):
        e = {v: rng.randint(-4, 4) if v.sort == I else rng.uniform(-2, 2) for v in vs}
        if ints:
            return e
        # spread the determinant over many magnitudes and both signs
        f = rng.choice([1, 1, 1, 10**rng.uniform(-8, 2), 10**rng.uniform(-5, 0)])
        for v in co.raw()[:, 0]:
            e[v] *= f
        return e

    def replay(w):
        return rp("jacoper", dN=np.array([[w[v.args[0]] for v in r] for r in dN.raw()]),
                  c=np.array([[w[v.args[0]] for v in r] for r in co.raw()]))
    c = Case(ctx, "jacoper(%dx%d)" % (dim, n) + ints, lambda W: W.fem.jacoper(dN, co), variables=vs, sampler=sampler,
             function="femutil.jacoper", replay=replay)
    c.run()
    c.cover()
    d = rv("detJ")
    ab = Abstraction([(D, d)])
    lo, hi = tm.const(0.99e-8), tm.const(1.01e-8)
    eqs, refuse, accept, sides = [], [], [], []
    for p in c.paths:
        fs = [ab.go(f) for f in p.pc]
        if p.exc is not None:
            if not isinstance(p.exc, ValueError) or isinstance(p.exc, symnp.LinAlgError):
                if ex.prove(tm.FALSE, fs, [d]).status == "proved":
                    continue      # this path cannot be taken
                r = ex.solver_point(fs, [d])
                accept.append(Result("unknown" if r is None else "refuted", "z3", "raises %s: %s" % (
                    type(p.exc).__name__, p.exc), ex.named(r or {}, [d])))
            else:
                accept.append(_frontier(c, p, fs, tm.le(d, hi), d, D, "refuses"))
        else:
            refuse.append(_frontier(c, p, fs, tm.lt(lo, d), d, D, "accepts"))
            v = p.value
            if not isinstance(v, tuple) or len(v) != 2:
                eqs.append(Result("refuted", "evaluation", "does not return (det, inverse)", {}))
                continue
            inv = pairs("inv", v[1], [[tm._co(x)/D for x in r] for r in A])
            if isinstance(inv, Result):
                eqs.append(inv)
            else:
                eqs.append(ex.prove_equal([("det", v[0], D)] + inv, p.pc, vs, sampler))
        for f, taken, _ in p.sides:
            g, fs2 = ab.go(f), [ab.go(x) for x in taken]
            sides.append(ex.prove(g, fs2, [d]))
    c.put("det and inverse", merge(eqs) if eqs else Result("unknown", "", "no returning path"))
    c.put("det <= 0.99e-8 is refused", merge(refuse) if refuse else Result("unknown", "", "no returning path"))
    c.put("det > 1.01e-8 is accepted", merge(accept) if accept else Result("unknown", "", "no raising path"))
    if sides:
        m = merge(sides)
        if m.status == "refuted":
            m.status = "unknown"
        c.put("defined", m)


def _frontier(c, p, fs, goal, d, D, verb):
    """prove goal about the determinant; a counterexample is turned into inputs"""
    r = ex.prove(goal, fs, [d])
    if r.status != "refuted":
        return r
    bad = r.witness["detJ"]
    if any(v.sort == I for v in c.variables):
        return Result("unknown", "", "%s a Jacobian of %g" % (verb, bad))
    from vf import smt
    # build coordinates with that determinant (boundary margin kept by the model)
    import random
    rng = random.Random(1)
    for k in range(60):
        env = c.sampler(rng)
        e = {v.id: x for v, x in env.items()}
        try:
            d0 = float(ex.evaluate(D, e))
        except ex.NoValue:
            continue
        if d0 == 0:
            continue
        co = [v for v in env if v.args[0].startswith("x_") and v.args[0].endswith("_0")]
        for v in co:
            env[v] *= bad/d0
        w = {v.args[0]: float(x) for v, x in env.items()}
        return Result("refuted", "z3", "%s a Jacobian of %g" % (verb, bad), w)
    return Result("refuted", "z3", "%s a Jacobian of %g" % (verb, bad), r.witness)


_J = [(2, 3), (2, 4), (2, 6), (2, 8), (2, 9), (3, 4), (3, 8)]


@group("C03", ["femutil.jacoper"], limit=150,
       expects=["jacoper(%dx%d)/%s" % (d, n, w) for d, n in _J for w in
                ("det and inverse", "det <= 0.99e-8 is refused", "det > 1.01e-8 is accepted")])
def jacobian(ctx):
    for d, n in _J:
        _jac_case(ctx, d, n)
        _jac_case(ctx, d, n, ", integer coordinates")
        _jac_case(ctx, d, n, ", integer coordinates and derivatives")


# ------------------------------------------------------------------------ C04
class JacStub:
    """contract of jacoper: an uninterpreted inverse and determinant of its
    arguments, or ValueError"""
    wants_orig = False

    def __init__(self, can_raise=True):
        self.calls = []
        self.can_raise = can_raise

    def __call__(self, dN, coord):
        key = (tuple(tm._co(x).id for x in raw(dN).flat), tuple(tm._co(x).id for x in raw(coord).flat),
               raw(dN).shape, raw(coord).shape)
        for k, (kk, v) in enumerate(self.calls):
            if kk == key:
                return v
        k = len(self.calls)
        if self.can_raise and bool(tm.var("degenerate%d" % k, "B")):
            raise ValueError("Jacobian")
        n = raw(dN).shape[0]
        v = (rv("det%d" % k), arr("inv%d" % k, (n, n)))
        ex.CURRENT.extra.append(tm.lt(tm.const(0.99e-8), v[0]))
        self.calls.append((key, v))
        return v


def _shape_stub(dim, n, xs, log):
    def f(*a):
        log.append(a)
        if len(a) != dim or any(tm._co(x) is not y for x, y in zip(a, xs)):
            raise tm.Unsupported("interpolation evaluated elsewhere")
        return arr("N", (n,)), arr("dN", (dim, n))
    return f


def _op_case(ctx, kind, n, ints=""):
    dim = 3 if kind == "3d" else 2
    xs = [iv(c) if "point" in ints else rv(c) for c in ("r", "s", "t")[:dim]]
    co = arr("x", (n, dim), I if ints else R)
    N, dN = arr("N", (n,)), arr("dN", (dim, n))
    fn = {"2d": "elast_diff_2d", "axi": "elast_diff_axi", "3d": "elast_diff_3d"}[kind]
    vs = xs + variables_of(co, N, dN)

    def replay(w):
        g = lambda a: np.array([[w[v.args[0]] for v in r] for r in a.raw()]) if a.ndim == 2 else \
            np.array([w[v.args[0]] for v in a.raw()])
        return rp("user_shape", d=dim, c=g(co), N=g(N), dN=g(dN), pt=[w[x.args[0]] for x in xs], axi=kind == "axi")
    nm = "%s(n=%d)" % (fn, n) + ints
    radius = tm.const(0)
    for i in range(n):
        radius = radius + N.raw()[i]*co.raw()[i, 0]

    def sampler(rng):
        e = {v: rng.randint(-2, 2) if v.sort == I else rng.uniform(-1, 1) for v in vs}
        if kind == "axi":
            for v in co.raw()[:, 0]:
                e[v] = rng.randint(0, 3) if ints else rng.uniform(0, 2)
            for v in N.raw():
                e[v] = rng.uniform(-.2, 1)
            if rng.random() < .2:
                for v in N.raw():
                    e[v] = -e[v]
        return e
    # modular: against the contract of jacoper
    stub = []

    def stubs():
        stub.append(JacStub())
        return {"femutil.jacoper": stub[-1]}
    log = []
    el = _shape_stub(dim, n, xs, log)
    # radius exactly zero is excluded by precondition (1/r is part of the result)
    assume = [tm.not_(tm.eq(radius, tm.const(0)))] if kind == "axi" else []
    c = Case(ctx, nm, lambda W: getattr(W.fem, fn)(*xs, co, el), assume=assume, variables=vs, stubs=stubs,
             function="femutil." + fn, replay=replay, sampler=sampler)
    inv = arr("inv0", (dim, dim))
    dx = [[sum((inv.raw()[a, b]*dN.raw()[b, i] for b in range(dim)), tm.const(0)) for i in range(n)]
          for a in range(dim)]
    H, B = spec.HB(kind, list(N.raw()), dx, [list(r) for r in co.raw()])

    def post(v, p):
        if not isinstance(v, tuple) or len(v) != 3:
            return Result("refuted", "evaluation", "does not return (H, B, det)", {})
        out = []
        for q in (pairs("H", v[0], H), pairs("B", v[1], B), pairs("det", v[2], rv("det0"))):
            out += q if isinstance(q, list) else [q]
        if kind == "axi":
            out.append(("a negative radius is refused", tm.le(tm.const(0), radius)))
        return out

    def rs(e, p):
        if not isinstance(e, ValueError):
            return [Result("refuted", "path exploration", "raises %r" % e, {})]
        deg = tm.var("degenerate0", "B")
        if kind == "axi":
            return [("raises only for a degenerate Jacobian or a negative radius", tm.or_(deg, tm.lt(radius, tm.const(0))))]
        return [("raises only when jacoper does", deg)]
    vs0 = list(vs)
    ab = Abstraction([(radius, rv("radius"))]) if kind == "axi" else None
    c.run()
    good = all(len(s.calls) <= 1 and all(k[0][:2] == (tuple(x.id for x in dN.raw().flat),
                                                     tuple(x.id for x in co.raw().flat)) for k in s.calls)
               for s in stub)
    if good:
        c.sampler = None
        c.variables = vs + [rv("det0")] + variables_of(inv) + ([rv("radius")] if ab else [])
        # results: normal forms; conditions: over the abstracted radius
        res, excs, sides = [], [], []
        for p in c.paths:
            facts = [ab.go(f) if ab else f for f in assume + p.pc]
            items = post(p.value, p) if p.exc is None else rs(p.exc, p)
            its = []
            for it in items:
                if not isinstance(it, Result) and len(it) == 2 and ab:
                    it = (it[0], ab.go(it[1]))
                its.append(it)
            (res if p.exc is None else excs).extend(c._items(its, facts, None))
            for f, taken, _ in p.sides:
                sides.append(ex.prove(ab.go(f) if ab else f, [ab.go(x) if ab else x for x in assume + list(taken)]))
        rr, re_, rd = merge(res), merge(excs) if excs else Result("unknown", "", "ValueError is swallowed"), \
            merge(sides) if sides else None
        if not any(p.exc is None for p in c.paths):
            rr = Result("unknown", "", "no returning path")
        if rr.status == "proved" and re_.status == "proved" and (rd is None or rd.status == "proved"):
            c.cover_ok = True
            ctx.cover(nm, True)
            c.put("result", rr)
            c.put("raises", re_)
            if rd is not None:
                c.put("defined", rd)
            return
    # inlined: jacoper's own body
    J = spec.jac([list(r) for r in dN.raw()], [list(r) for r in co.raw()])
    D, A = tm._co(spec.dt(J)), spec.adj(J)
    if n > 4:
        # the fully inlined normal forms grow quickly: concrete point for the refutation only
        pass
    dx = [[sum((tm._co(A[a][b])/D*dN.raw()[b, i] for b in range(dim)), tm.const(0)) for i in range(n)]
          for a in range(dim)]
    H, B = spec.HB(kind, list(N.raw()), dx, [list(r) for r in co.raw()])
    c2 = Case(ctx, nm, lambda W: getattr(W.fem, fn)(*xs, co, el), assume=assume, variables=vs, sampler=sampler,
              function="femutil." + fn, replay=replay)
    c2.run()
    big = tm.lt(tm.const(1.01e-8), D)

    def post2(v, p):
        out = []
        for q in (pairs("H", v[0], H), pairs("B", v[1], B), pairs("det", v[2], D)):
            out += q if isinstance(q, list) else [q]
        return out
    res, excs = [], []
    for p in c2.paths:
        if p.exc is None:
            res += c2._items(post2(p.value, p), assume + p.pc, None)
        else:
            ok = tm.and_(big, tm.lt(tm.const(0), radius)) if kind == "axi" else big
            env = ex.find_point(assume + p.pc + [ok], vs, sampler, tries=120)
            excs.append(Result("refuted", "evaluation", "valid input refused: %s" % p.exc, ex.named(env, vs))
                        if env else Result("unknown", "", "raising path not decided without the contract of jacoper"))
    if kind == "axi":
        for p in c2.paths:
            if p.exc is None:
                env = ex.find_point(p.pc + [tm.lt(radius, tm.const(-1e-6))], vs, sampler, tries=120)
                if env:
                    excs.append(Result("refuted", "evaluation", "negative radius accepted", ex.named(env, vs)))
    c2.put("result", merge(res) if res else Result("unknown", "", "no returning path"))
    c2.put("raises", merge(excs) if excs else Result("unknown", "", "no raising path"))


_OPS = [("2d", n) for n in (3, 4, 6, 8, 9)] + [("axi", n) for n in (3, 4, 6, 8, 9)] + [("3d", n) for n in (4, 8)]
_OPN = {"2d": "elast_diff_2d", "axi": "elast_diff_axi", "3d": "elast_diff_3d"}


@group("C04", ["femutil.elast_diff_2d", "femutil.elast_diff_axi", "femutil.elast_diff_3d"], limit=150,
       expects=["%s(n=%d)/%s" % (_OPN[k], n, w) for k, n in _OPS for w in ("result", "raises")])
def operators(ctx):
    for k, n in _OPS:
        _op_case(ctx, k, n)
        _op_case(ctx, k, n, ", integer coordinates")
        _op_case(ctx, k, n, ", integer coordinates and point")


@group("C04", ["femutil.elast_diff_3d"], expects=["default interpolation is the brick"])
def default_brick(ctx):
    """elast_diff_3d without interpolation argument uses shape_hex8"""
    xs = [rv(c) for c in "rst"]
    co = arr("x", (8, 3))
    hit = []

    def stub(*a):
        hit.append([tm._co(x) for x in a])
        return arr("N", (8,)), arr("dN", (3, 8))
    c = Case(ctx, "default", lambda W: W.fem.elast_diff_3d(*xs, co),
             stubs=lambda: {"femutil.jacoper": JacStub(False), "femutil.shape_hex8": stub})
    c.run()
    ok = all(p.exc is None for p in c.paths) and hit and all(all(x is y for x, y in zip(a, xs)) for a in hit)
    ctx.put("default interpolation is the brick", "proved" if ok else "unknown", "path exploration",
            None if ok else "shape_hex8 not used at the given point", function="femutil.elast_diff_3d")


@group("C04", ["femutil.elast_diff_2d", "femutil.elast_diff_axi", "femutil.elast_diff_3d"],
       expects=["lemma/plane", "lemma/solid", "lemma/axisymmetric"])
def strain_lemmas(ctx):
    """linear fields have their exact strain, rigid motions none: from
    sum(dN/dx) = 0 and dN/dx . x = I, themselves consequences of C01 and C03"""
    for kind, dim, n in (("plane", 2, 4), ("solid", 3, 4)):
        # J inverse times J
        dN, co = arr("dN", (dim, n)), arr("x", (n, dim))
        D = [list(r) for r in dN.raw()]
        for a in range(dim):        # partition of unity: derivatives sum to zero
            D[a][n - 1] = -sum(D[a][:n - 1], tm.const(0))
        X = [list(r) for r in co.raw()]
        J = spec.jac(D, X)
        det, A = tm._co(spec.dt(J)), spec.adj(J)
        dx = [[sum((tm._co(A[a][b])/det*D[b][i] for b in range(dim)), tm.const(0)) for i in range(n)]
              for a in range(dim)]
        ps = []
        for a in range(dim):
            ps.append(("sum dN/dx%d" % a, sum(dx[a], tm.const(0)), tm.const(0)))
            for b in range(dim):
                ps.append(("d x%d/d x%d" % (b, a), sum((dx[a][i]*X[i][b] for i in range(n)), tm.const(0)),
                           tm.const(int(a == b))))
        r1 = ex.prove_equal(ps, [])
        # given those identities, B u for u = g x + c
        g = arr("g", (dim, dim)).raw()
        t = arr("c", (dim,)).raw()
        S, I1 = [rv("S%d" % a) for a in range(dim)], arr("P", (dim, dim)).raw()
        # B u expressed through S_a = sum_i dx_a,i (=0) and P_ab = sum_i dx_a,i x_i,b (=delta)
        def du(k, a):     # d u_k / d x_a
            return t[k]*tm.const(0) + sum((g[k, b]*tm.const(int(a == b)) for b in range(dim)), tm.const(0))
        H, B = spec.HB2d([tm.const(0)]*n, dx) if dim == 2 else spec.HB3d([tm.const(0)]*n, dx)
        u = [sum((g[k, b]*X[i][b] for b in range(dim)), t[k]) for i in range(n) for k in range(dim)]
        eps = [sum((tm._co(B[r][j])*u[j] for j in range(dim*n) if not (isinstance(B[r][j], int) and B[r][j] == 0)),
                   tm.const(0)) for r in range(len(B))]
        want = [g[0, 0], g[1, 1], g[0, 1] + g[1, 0]] if dim == 2 else \
            [g[0, 0], g[1, 1], g[2, 2], g[1, 2] + g[2, 1], g[0, 2] + g[2, 0], g[0, 1] + g[1, 0]]
        r2 = ex.prove_equal([("strain %d" % i, e, w) for i, (e, w) in enumerate(zip(eps, want))], [])
        r = merge([r1, r2])
        ctx.put("lemma/" + kind, r.status, r.backend, r.detail, function="(lemma over C01, C03, C04 contracts)")
    # axisymmetric: axial translation
    n = 4
    dx = arr("dx", (2, n)).raw()
    N = arr("N", (n,)).raw()
    co = arr("x", (n, 2)).raw()
    d = [[dx[a, i] if i < n - 1 else -sum((dx[a, j] for j in range(n - 1)), tm.const(0)) for i in range(n)]
         for a in range(2)]
    H, B = spec.HBaxi(list(N), d, [list(r) for r in co])
    c = rv("c")
    eps = [sum((tm._co(B[r][2*i + 1])*c for i in range(n)), tm.const(0)) for r in range(4)]
    r = ex.prove_equal([("strain %d" % i, e, tm.const(0)) for i, e in enumerate(eps)], [])
    ctx.put("lemma/axisymmetric", r.status, r.backend, r.detail, function="(lemma over C01, C03, C04 contracts)")


# ------------------------------------------------------------------------ C05
def mat_assume(E, nu):
    return [tm.lt(tm.const(0), E), tm.lt(tm.const(-1), nu), tm.lt(nu, tm.const(Q(1, 2)))]


def mat_sampler(E, nu, more=()):
    def s(rng):
        e = {E: rng.randint(1, 10**5) if E.sort == I else 10**rng.uniform(-2, 5), nu: 0 if nu.sort == I else rng.choice([rng.uniform(-.9, .49), 0.3, 0.25, 0.0, 1/3, .45, .2])}
        for v in more:
            e[v] = rng.uniform(.1, 5)
        return e
    return s


def minors(C):
    return [tm._co(spec.dt([row[:k] for row in C[:k]])) for k in range(1, len(C) + 1)]


_MAT = {"umat": spec.C_plane_stress, "elast_mat_2d": spec.C_four, "elast_mat_axi": spec.C_four,
        "elast_mat": spec.C_solid}


@group("C05", ["femutil." + f for f in _MAT],
       expects=["%s(%s)/result" % (f, k) for f in _MAT for k in ("tuple", "list", "array")])
def moduli(ctx):
    for f, sp in _MAT.items():
        for form in ("tuple", "list", "array", "tuple with an integer modulus", "list of integers", "array of integers"):
            E, nu = iv("E") if "integer" in form else rv("E"), iv("nu") if "integers" in form else rv("nu")
            C = sp(E, nu)

            def call(W):
                from vf.symarr import VList
                p = {"tuple": lambda: (E, nu), "list": lambda: VList([E, nu]), "array": lambda: NP.array([E, nu])}[form.split()[0]]()
                return getattr(W.fem, f)(p)
            c = Case(ctx, "%s(%s)" % (f, form), call, mat_assume(E, nu), [E, nu], mat_sampler(E, nu),
                     function="femutil." + f,
                     replay=lambda w: rp("moduli", fn=f, p=[w["E"], w["nu"]]))
            c.verify(lambda v, p: pairs("C", v, C))
    E, nu = rv("E"), rv("nu")
    for f, sp in (("plane stress", spec.C_plane_stress), ("plane strain / axisymmetric", spec.C_four),
                  ("solid", spec.C_solid)):
        C = sp(E, nu)
        # dependent structure: zero 1-D blocks make the leading minors products
        res = []
        for k, m in enumerate(minors([[tm._co(x) for x in r] for r in C])):
            q = pl.renorm(m)
            res.append(_posdef(m, E, nu))
        r = merge(res)
        ctx.put("lemma/%s: positive definite (leading minors)" % f, r.status, r.backend, r.detail,
                function="(lemma)")
        r = ex.prove_equal([("C%d%d" % (i, j), C[i][j], C[j][i]) for i in range(len(C)) for j in range(i)], [])
        ctx.put("lemma/%s: symmetric" % f, r.status, r.backend, r.detail, function="(lemma)")


def _posdef(m, E, nu):
    """m > 0: m is a rational function; clear denominators whose factors are
    1+nu, 1-2nu, 1-nu^2, all positive"""
    p, = [pl.poly(m)]
    k = 0
    one = pl.poly(tm.add(tm.const(1), nu))
    den = [tm.add(tm.const(1), nu), tm.add(tm.const(1), tm.neg(tm.mul(tm.const(2), nu))),
           tm.add(tm.const(1), tm.neg(nu))]
    # multiply by powers of the positive factors until polynomial
    t = m
    q = pl.clear([pl.poly(t)])[0]
    # sign of the cleared multiplier: product of denominators, each positive on the domain
    neg = set()
    for mono in pl.poly(t):
        for x, e in mono:
            if e < 0:
                neg.add(x)
    fs = mat_assume(E, nu)
    for x in neg:
        dt = pl.term_of(pl.DEN[x], R) if x < 0 else pl.ATOM[x]
        sgn = None
        if ex.prove(tm.lt(tm.const(0), dt), fs, [E, nu]).status == "proved":
            sgn = 1
        elif ex.prove(tm.lt(dt, tm.const(0)), fs, [E, nu]).status == "proved":
            sgn = -1
        if sgn is None:
            return Result("unknown", "", "sign of a denominator")
        if sgn < 0:
            pw = max(-e for mono in pl.poly(t) for y, e in mono if y == x)
            if pw % 2:
                q = pl.pscale(q, -1)
    # factor E^k out
    low = min(dict(mm).get(E.id, 0) for mm in q)
    q2 = {tuple((x, e - (low if x == E.id else 0)) for x, e in mm if not (x == E.id and e == low)): c
          for mm, c in q.items()}
    r = ex.prove(tm.lt(tm.const(0), pl.term_of(q2, R)), fs, [E, nu], mat_sampler(E, nu))
    return r
