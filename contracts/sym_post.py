"""Recovery and plotting contracts over meshes of any size (C08 stresses, C15, C20)."""
from fractions import Fraction as Q
from vf import poly as pl, terms as tm, symarr, smt
from vf.terms import R, I, B, Unsupported
from vf.symarr import SArr
from vf.symnp import NP
from vf.contract import MCase, Case, lemma, iv, rv, arr, raw, Result, World, traced, same_array, over, positive_counts
from vf.symrun import group
from contracts.sym_mesh import ZERO, ONE, nonneg, within, appf


@group("C08", ["postprocesor.stress_truss"], limit=150)
def truss_stress(ctx):
    """stress of bar e: E (u_j - u_i).(x_j - x_i)/L^2, for any mesh"""
    nn, nels, nm = iv("nn"), iv("nels"), iv("nmats")
    el = lambda e, c: tm.app("elements", [e, tm.const(c)], I)

    def given(kind):
        s = R if kind == "f" else I
        x = lambda n, c: tm.app("nodes", [n, tm.const(c)], s)
        u = lambda n, c: tm.app("disp", [n, tm.const(c)], s)
        m = lambda n, c: tm.app("mats", [n, tm.const(c)], s)
        return x, u, m

    def sq(e, x):
        d = [x(el(e, 4), c) - x(el(e, 3), c) for c in (1, 2)]
        return d[0]*d[0] + d[1]*d[1]

    def bar(coord, params):
        # contract of truss2D (C08): k (t,-t)(t,-t)^T
        c = raw(coord)
        p = [tm._co(q) for q in raw(params).flat]
        if c.shape != (2, 2):
            raise Unsupported("bar of shape %s" % (c.shape,))
        d = [c[1, k] - c[0, k] for k in (0, 1)]
        L = tm.sqrt(d[0]*d[0] + d[1]*d[1])
        k = p[0]*p[1]/L
        t = [-d[0]/L, -d[1]/L, d[0]/L, d[1]/L]
        return NP.array([[k*a*b for b in t] for a in t]), NP.array([[rv("M%d%d" % (a, b)) for b in range(4)] for a in range(4)])
    for mcols in (2, 3):
        for ncols in (3, 5):
            for ecols, kind in ((5, "f"), ("wider", "f"), (5, "i")):
                if ecols == "wider" and ncols == 3:
                    continue
                smt.SCHEMAS.clear()
                x, u, m = given(kind)

                def facts(e, c):
                    return [tm.and_(*within(el(e, 3), nn)), tm.and_(*within(el(e, 4), nn)), tm.and_(*within(el(e, 2), nm)),
                            tm.lt(ZERO, sq(e, x)), tm.lt(ZERO, m(el(e, 2), 1))]
                smt.SCHEMAS["elements"] = facts
                wv = 5 if ecols == 5 else iv("ecols")

                def call(W):
                    return W.pos.stress_truss(SArr.var("nodes", (nn, ncols), kind), SArr.var("elements", (nels, wv), "i"),
                                              SArr.var("mats", (nm, mcols), kind), SArr.var("disp", (nn, 2), kind))
                cs = MCase(ctx, "nodes of %d columns, materials of %d%s" % (ncols, mcols, ("" if ecols == 5 else ", wider element table") + (", integer tables" if kind == "i" else "")),
                           call, nonneg(nn, nels, nm) + ([tm.le(tm.const(5), wv)] if ecols != 5 else []),
                           function="postprocesor.stress_truss", stubs={"uelutil.truss2D": bar})

                def post(v, p):
                    e = tm.fresh("e", I)
                    yield {"shape": [("one axis", len(v.shape) == 1), ("length", v.shape[0], nels), ("real", v.vd == "f")]}
                    i, j = el(e, 3), el(e, 4)
                    dl = sum(((u(j, c - 1) - u(i, c - 1))*(x(j, c) - x(i, c)) for c in (1, 2)), ZERO)
                    yield {"stress": [("E * elongation / length", v.at(e), m(el(e, 2), 0)*dl/sq(e, x), within(e, nels))]}
                cs.verify(post)


# ------------------------------------------------------------------------ C15
RECOVER = {1: ("quad4", 4, "str_el4", 4), 2: ("tri6", 6, "str_el6", 7), 3: ("tri3", 3, "str_el3", 3)}
# sampling point closest to each node, in the order the sampling routines report
NEAREST = {1: (0, 2, 3, 1), 2: tuple(range(6)), 3: (0, 1, 2)}


def sampled(name, k, c, coords, disp):
    """strain component c that an element's sampling routine reports at point k"""
    return tm.app("%s_%d_%d" % (name, k, c), [tm._co(x) for x in list(coords) + list(disp)], R)


def nodal_average(ctx, types):
    nn, nels, nm = iv("nn"), iv("nels"), iv("nmats")
    el = lambda e, c: tm.app("elements", [e, tm._co(c)], I)
    for t in types:
        name, w, fn, npts = RECOVER[t]
        for kind, mcols, ncols in (("f", 2, 3), ("f", 3, 5), ("i", 3, 3)):
            smt.SCHEMAS.clear()

            def facts(e, c, w=w, t=t):
                return [tm.implies(tm.eq(c, ONE), tm.eq(el(e, 1), tm.const(t))),
                        tm.implies(tm.eq(c, tm.const(2)), tm.and_(*within(el(e, 2), nm))),
                        tm.implies(tm.le(tm.const(3), c), tm.and_(*within(tm.app("elements", [e, c], I), nn)))]
            smt.SCHEMAS["elements"] = facts

            def mfacts(m, c):
                x = tm.app("mats", [m, c], R if kind == "f" else I)
                return [tm.implies(tm.eq(c, ONE), tm.and_(tm.lt(tm.const(-1), x), tm.lt(x, tm.const(1))))]
            smt.SCHEMAS["mats"] = mfacts
            srt = R if kind == "f" else I
            x = lambda n, c: tm.app("nodes", [n, tm._co(c)], srt)
            u = lambda n, c: tm.app("disp", [n, tm._co(c)], R)
            m = lambda n, c: tm.app("mats", [n, tm._co(c)], srt)

            def mk(nm, pts, name=name):
                def f(coord, ul):
                    c, d = raw(coord), raw(ul)
                    if c.ndim != 2 or c.shape[1] != 2 or d.shape != (2*c.shape[0],):
                        raise Unsupported("sampling of shape %s, %s" % (c.shape, d.shape))
                    e = [[sampled(nm, k, q, c.flat, d.flat) for q in range(3)] for k in range(pts)]
                    return NP.array(e), NP.array([[rv("x_%d_%d" % (k, q)) for q in range(2)] for k in range(pts)])
                return f
            stubs = {"femutil." + f: mk(s, n) for s, _, f, n in RECOVER.values()}

            def call(W, w=w, kind=kind, mcols=mcols, ncols=ncols):
                return W.pos.strain_nodes(SArr.var("nodes", (nn, ncols), kind), SArr.var("elements", (nels, 3 + w), "i"),
                                          SArr.var("mats", (nm, mcols), kind), SArr.var("disp", (nn, 2)))
            cs = MCase(ctx, "%s, %s tables, %d material columns" % (name, {"f": "real", "i": "integer"}[kind], mcols),
                       call, nonneg(nn, nm) + [tm.le(ONE, nels)], function="postprocesor.strain_nodes", stubs=stubs)

            def post(v, p, t=t, w=w, name=name):
                ok = isinstance(v, tuple) and len(v) == 2
                yield {"form": [("two arrays", ok)]}
                if not ok:
                    return
                n = tm.fresh("n", I)
                e = tm.fresh("e", I)
                inn = within(n, nn)

                def total(val):
                    s = sum((tm.ite(tm.eq(el(e, 3 + a), n), val(e, a), ZERO) for a in range(w)), ZERO)
                    return tm.bsum(e, ZERO, nels, s)
                cnt = total(lambda e, a: ONE)
                inv = rv("1/count")

                def eps(e, a, c):
                    nd = [el(e, 3 + b) for b in range(w)]
                    xs = [x(q, k) for q in nd for k in (1, 2)]
                    us = [u(q, k) for q in nd for k in (0, 1)]
                    return sampled(name, NEAREST[t][a], c, xs, us)

                def sig(e, a, c):
                    E, nu = m(el(e, 2), 0), m(el(e, 2), 1)
                    if c == 2:
                        return E/(2*(1 + nu))*eps(e, a, 2)
                    return E/(1 - nu*nu)*(eps(e, a, c) + nu*eps(e, a, 1 - c))
                for nm_, arr_, val in (("strain", v[0], eps), ("stress", v[1], sig)):
                    yield {"shape": [(nm_ + " rows", arr_.shape[0], nn), (nm_ + " columns", tm._co(arr_.shape[1]), tm.const(3)),
                                     (nm_ + " real", arr_.vd == "f")]}
                    for c in range(3):
                        got = arr_.at(n, tm.const(c))
                        got = over(got, cnt, inv, cs.assume + inn)
                        yield {nm_: [("component %d" % c, got, total(lambda e, a: val(e, a, c))*inv, inn)]}

            def count(n, w=w):
                e = tm.fresh("e", I)
                return tm.bsum(e, ZERO, nels, sum((tm.ite(tm.eq(el(e, 3 + a), n), ONE, ZERO) for a in range(w)), ZERO))
            # precondition: every node belongs to an element
            cs.known = positive_counts(count, nn)
            cs.verify(post)


@group("C15", ["postprocesor.strain_nodes"], limit=220)
def average_quad4(ctx):
    nodal_average(ctx, (1,))


@group("C15", ["postprocesor.strain_nodes"], limit=220)
def average_tri6(ctx):
    nodal_average(ctx, (2,))


@group("C15", ["postprocesor.strain_nodes"], limit=220)
def average_tri3(ctx):
    nodal_average(ctx, (3,))


@group("C21", ["postprocesor.strain_nodes"], limit=150)
def mixed_mesh(ctx):
    """the arguments stay as they are also when the records carry different types"""
    nn, nels, nm = iv("nn"), iv("nels"), iv("nmats")
    el = lambda e, c: tm.app("elements", [e, tm._co(c)], I)
    for t, (name, w, fn, npts) in RECOVER.items():
        smt.SCHEMAS.clear()
        smt.SCHEMAS["elements"] = lambda e, c, w=w, t=t: [
            tm.implies(tm.eq(c, ONE), tm.and_(tm.le(ONE, el(e, 1)), tm.le(el(e, 1), tm.const(8)))),
            tm.implies(tm.eq(c, tm.const(2)), tm.and_(*within(el(e, 2), nm))),
            tm.implies(tm.le(tm.const(3), c), tm.and_(*within(el(e, c), nn)))]

        def mk(nm_, pts):
            def f(coord, ul):
                return (NP.array([[rv("e_%d_%d" % (k, q)) for q in range(3)] for k in range(pts)]),
                        NP.array([[rv("x_%d_%d" % (k, q)) for q in range(2)] for k in range(pts)]))
            return f
        stubs = {"femutil." + f: mk(s, n) for s, _, f, n in RECOVER.values()}

        def call(W, w=w):
            return W.pos.strain_nodes(SArr.var("nodes", (nn, 3)), SArr.var("elements", (nels, 3 + w), "i"),
                                      SArr.var("mats", (nm, 2)), SArr.var("disp", (nn, 2)))
        MCase(ctx, name + " first", call, nonneg(nn, nm) + [tm.le(ONE, nels), tm.eq(el(ZERO, 1), tm.const(t))],
              function="postprocesor.strain_nodes", stubs=stubs).verify(lambda v, p: [])


@group("C15", ["femutil.str_el3", "femutil.str_el4", "femutil.str_el6"], limit=100)
def sampling(ctx):
    """the sampling routines report B(point) u at their own points"""
    from contracts import spec
    for t, (name, w, fn, npts) in RECOVER.items():
        pts = {1: spec.gl_points(2, 2)[0], 2: spec.RULE["tri6"]()[0], 3: spec.RULE["tri3"]()[0]}[t]
        pts = [[float(q) for q in pt] for pt in pts]
        co, ul = arr("x", (w, 2)), arr("u", (2*w,))

        def call(W, name=name, fn=fn, w=w, pts=pts):
            want = getattr(W.mod("femutil"), "shape_" + name)
            return getattr(W.fem, fn)(co, ul), want

        def op(orig, world, name=name, w=w, pts=pts):
            # contract of elast_diff_2d (C04) at a sampling point
            def f(r, s, coord, element):
                rs = [tm._co(r), tm._co(s)]
                if any(q is None or q.op != "const" for q in rs):
                    raise Unsupported("sampling point")
                k = [i for i, pt in enumerate(pts) if all(abs(float(q.args[0]) - z) < 1e-9 for q, z in zip(rs, pt))]
                # which interpolation: by its values
                Ne, De = (raw(z) for z in element(*rs))
                Ns, Ds = spec.shape(name, [float(q.args[0]) for q in rs])
                vals = list(Ne.flat) + list(De.flat)
                same = Ne.shape == (w,) and De.shape == (2, w) and all(
                    tm._co(a).op == "const" and abs(float(tm._co(a).args[0]) - b) < 1e-9
                    for a, b in zip(vals, list(Ns) + [z for q in Ds for z in q]))
                tag = "%s_%s" % (name if same else "other", k[0] if k else "elsewhere")
                tag += "" if all(a is b for a, b in zip(raw(coord).flat, raw(co).flat)) and raw(coord).shape == (w, 2) else "_othercoord"
                N = [tm._co(z) for z in Ne.flat]
                dx = [[rv("dN_%s_%d_%d" % (tag, a, i)) for i in range(w)] for a in range(2)]
                H, B = spec.HB2d(N, dx)
                return NP.array(H), NP.array(B), rv("det_" + tag)
            return f
        op.wants_orig = True
        cs = MCase(ctx, fn, call, [], function="femutil." + fn, stubs={"femutil.elast_diff_2d": op})

        def post(v, p, name=name, w=w, npts=npts, pts=pts):
            (eps, x), _ = v
            e, xx = raw(eps), raw(x)
            ok = e.shape == (npts, 3) and xx.shape == (npts, 2)
            yield {"shape": [("one row per sampling point", ok)]}
            if not ok:
                return
            for k in range(npts):
                tag = "%s_%d" % (name, k)
                N = [tm._co(z) for z in spec.shape(name, [tm.const(Q(z)) for z in pts[k]])[0]]
                dx = [[rv("dN_%s_%d_%d" % (tag, a, i)) for i in range(w)] for a in range(2)]
                _, Bm = spec.HB2d(N, dx)
                u, c = raw(ul), raw(co)
                for q in range(3):
                    yield {"strain": [("point %d component %d" % (k, q), e[k, q],
                                       sum((tm._co(Bm[q][j])*u[j] for j in range(2*w)), ZERO))]}
                for a in range(2):
                    want = sum((N[i]*c[i, a] for i in range(w)), ZERO)
                    # (the points of the rules are given to 13 digits)
                    near = pl.equal(tm._co(xx[k, a]), want, Q(1, 10**9))
                    yield {"position": [("point %d" % k, True) if near else ("point %d" % k, xx[k, a], want)]}
        cs.verify(post)
    # each node takes the sampling point closest to it
    for t, (name, w, fn, npts) in RECOVER.items():
        pts = {1: spec.gl_points(2, 2)[0], 2: spec.RULE["tri6"]()[0], 3: spec.RULE["tri3"]()[0]}[t]
        ok = True
        for a, q in enumerate(spec.REF[name]):
            d = [sum((float(x) - float(y))**2 for x, y in zip(q, pt)) for pt in pts]
            ok = ok and d[NEAREST[t][a]] <= min(d) + 1e-12
        ctx.put("lemma/%s nodes take their nearest sampling point" % name, "proved" if ok else "unknown", "evaluation",
                None if ok else "not nearest", function="(lemma over the contracts)")
    # equal strains in all elements of a node: their mean is that strain
    n, nels, e = iv("n"), iv("nels"), tm.fresh("e", I)
    hit = lambda e: tm.app("hit", [e], I)
    c = rv("c")
    cnt = tm.bsum(e, ZERO, nels, hit(e))
    e2 = tm.fresh("e", I)
    lemma(ctx, "lemma/the mean of equal strains is that strain", equal=[
        ("sum of c over the count times", tm.bsum(e2, ZERO, nels, hit(e2)*c), c*cnt)])
