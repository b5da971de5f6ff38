"""Contracts over meshes of any size: numbering, assembly, loads (C10-C12)."""
from vf import terms as tm, symarr, smt
from vf.terms import R, I, B, Unsupported
from vf.symarr import SArr
from vf.contract import MCase, lemma, iv, rv, Result, World
from vf.symrun import group

ZERO, ONE = tm.const(0), tm.const(1)


def ib(c):
    return tm.ite(c, ONE, ZERO)


def nonneg(*vs):
    return [tm.le(ZERO, v) for v in vs]


def within(i, n):
    return [tm.le(ZERO, i), tm.lt(i, tm._co(n))]


def rowcount(cons, i, nd):
    """free components of node i"""
    if isinstance(nd, int):
        return sum((ib(tm.eq(cons(i, tm.const(j)), ZERO)) for j in range(nd)), ZERO)
    j = tm.fresh("j", I)
    return tm.bsum(j, ZERO, nd, ib(tm.eq(cons(i, j), ZERO)))


def rank(cons, i, j, nd):
    """equation number of the free component j of node i"""
    q = tm.fresh("q", I)
    s = tm.bsum(q, ZERO, i, rowcount(cons, q, nd))
    if isinstance(nd, int):
        return s + sum((ib(tm.eq(cons(i, tm.const(b)), ZERO)) for b in range(j)), ZERO)
    b = tm.fresh("q", I)
    return s + tm.bsum(b, ZERO, j, ib(tm.eq(cons(i, b), ZERO)))


def total(cons, nn, nd):
    q = tm.fresh("q", I)
    return tm.bsum(q, ZERO, nn, rowcount(cons, q, nd))


def appf(name, sort):
    return lambda *a: tm.app(name, [tm._co(x) for x in a], sort)


@group("C10", ["assemutil.eqcounter"], limit=200)
def numbering(ctx):
    nn = iv("nn")
    cons = appf("cons", I)
    smt.SCHEMAS.clear()
    for nd, width in ((1, 1), (2, 2), (3, 3), (2, 3), ("nd", "nd"), ("nd", "w")):
        nm = "%s components per node%s" % (nd, "" if width == nd else ", constraint table of %s columns" % width)
        ndv = nd if isinstance(nd, int) else iv(nd)
        wv = width if isinstance(width, int) else iv(width)
        assume = nonneg(nn) + ([tm.le(ONE, ndv), tm.le(ndv, wv)] if not isinstance(nd, int) else [])
        for kind in "if":
            if kind == "f" and nd not in (2, "nd"):
                continue        # tables of flags read from text files hold floats with integer values

            def call(W, ndv=ndv, wv=wv, kind=kind):
                A = symarr.functional((nn, wv), kind, lambda ix: cons(*ix))
                return [W.ass.eqcounter(A, ndof_node=ndv)] + ([W.ass.eqcounter(A)] if nd == 2 else [])
            cs = MCase(ctx, nm + (", float table" if kind == "f" else ""), call, assume, function="assemutil.eqcounter")

            def post(v, p, ndv=ndv, wv=wv):
                i, j = tm.fresh("i", I), tm.fresh("j", I)
                for v in v:
                    neq, bc = v
                    yield {"count": [("neq", neq, total(cons, nn, ndv))]}
                    yield {"shape": [("rows", bc.shape[0], nn), ("columns", bc.shape[1], wv),
                                     ("integer", bc.vd == "i")]}
                    if isinstance(ndv, int):
                        for b in range(ndv):
                            f = within(i, nn)
                            cb = cons(i, tm.const(b))
                            yield {"numbers": [("free", bc.at(i, tm.const(b)), rank(cons, i, b, ndv), f + [tm.eq(cb, ZERO)]),
                                               ("fixed", bc.at(i, tm.const(b)), cb, f + [tm.not_(tm.eq(cb, ZERO))])]}
                    else:
                        f = within(i, nn) + within(j, ndv)
                        cb = cons(i, j)
                        yield {"numbers": [("free", bc.at(i, j), rank(cons, i, j, ndv), f + [tm.eq(cb, ZERO)]),
                                           ("fixed", bc.at(i, j), cb, f + [tm.not_(tm.eq(cb, ZERO))])]}
                    if width != nd:
                        f = within(i, nn) + [tm.le(tm._co(ndv), j), tm.lt(j, tm._co(wv))]
                        yield {"numbers": [("beyond", bc.at(i, j), cons(i, j), f)]}
            cs.verify(post)
    # the closed form is a bijection onto 0..neq-1: induction over prefix sums
    Rf, c, i, k, q = appf("prefix", I), appf("count", I), iv("i"), iv("k"), iv("q")
    unf = lambda n: tm.eq(Rf(n + 1), Rf(n) + c(n))
    pos = lambda n: tm.le(ZERO, c(n))
    lemma(ctx, "lemma/prefix sums are monotone: base", tm.le(Rf(i) + c(i), Rf(i + 1)), [unf(i), pos(i)])
    lemma(ctx, "lemma/prefix sums are monotone: step", tm.le(Rf(i) + c(i), Rf(k + 1)),
          [tm.le(Rf(i) + c(i), Rf(k)), unf(k), pos(k)])
    lemma(ctx, "lemma/every number is reached: step", tm.or_(
        tm.lt(q, Rf(k)), tm.and_(tm.le(Rf(k), q), tm.lt(q, Rf(k) + c(k)))),
        [tm.le(ZERO, q), tm.lt(q, Rf(k + 1)), unf(k), pos(k)])
    lemma(ctx, "lemma/every number is reached: base", tm.FALSE, [tm.le(ZERO, q), tm.lt(q, Rf(0)), tm.eq(Rf(0), ZERO)])
    # two nodes i < k own disjoint ranges; inside a node the same argument over components
    a, b = iv("a"), iv("b")
    lemma(ctx, "lemma/numbers of different nodes differ", tm.not_(tm.eq(Rf(i) + a, Rf(k) + b)),
          [tm.le(ZERO, a), tm.lt(a, c(i)), tm.le(ZERO, b), tm.lt(b, c(k)), tm.le(Rf(i) + c(i), Rf(k))])
    lemma(ctx, "lemma/numbers of a node differ", tm.lt(Rf(a), Rf(b)),
          [tm.le(Rf(a) + c(a), Rf(b)), tm.eq(c(a), ONE)])


CATALOGUE = {1: (8, 4), 2: (12, 6), 3: (6, 3), 4: (18, 9), 5: (4, 2), 6: (4, 2), 7: (6, 2), 8: (6, 2)}


def elements_schema(types, nn, w):
    """an element table: catalogue types, node numbers in range"""
    def sch(e, c):
        out = [tm.implies(tm.le(tm.const(3), c), tm.and_(*within(tm.app("elements", [e, c], I), nn)))]
        if types is not None:
            out.append(tm.implies(tm.eq(c, ONE), tm.or_(*[
                tm.eq(tm.app("elements", [e, c], I), tm.const(t)) for t in types])))
        return out
    return sch


def same_array(a, b, facts, label):
    """two arrays of the same (symbolic) shape hold the same values"""
    if a is b:
        return [(label, True)]
    if len(a.shape) != len(b.shape):
        return [(label, False)]
    ix = [tm.fresh("x", I) for _ in a.shape]
    fs = list(facts)
    for i, d in zip(ix, b.shape):
        fs += within(i, d)
    return [(label + " shape", tm.eq(tm._co(x), tm._co(y))) for x, y in zip(a.shape, b.shape)] + \
        [(label, a.at(*ix), b.at(*ix), fs)]


@group("C10", ["assemutil.DME", "femutil.eletype"], limit=200)
def assembly_map(ctx):
    nn, nels = iv("nn"), iv("nels")
    bcf = appf("bc", I)
    neq0 = iv("neq")
    shapes = {}
    for t, (nd, w) in CATALOGUE.items():
        shapes.setdefault((nd//w, w), []).append(t)
    cases = [(nd, w, ts, False) for (nd, w), ts in shapes.items()] + [(2, 9, "default maximum", False)] + \
        [(1, 3, None, True), (2, 8, None, True), (3, 4, None, True), (3, 20, None, True), ("nd", "w", None, True)]
    for nd, w, ts, user in cases:
        ndv = nd if isinstance(nd, int) else iv(nd)
        wv = w if isinstance(w, int) else iv(w)
        width = tm._co(wv)*tm._co(ndv)
        default = ts == "default maximum"
        ts = [4] if default else ts
        assume = nonneg(nn, nels) + ([tm.le(ONE, ndv), tm.le(ONE, wv)] if not isinstance(nd, int) else [])
        mx = iv("ndof_el_max")
        if not default:
            assume.append(tm.le(width, mx))
        smt.SCHEMAS.clear()
        smt.SCHEMAS["elements"] = elements_schema(ts, nn, wv)
        if user:
            smt.SCHEMAS["ndof_el"] = lambda x, width=width: [tm.eq(tm.app("ndof_el", [x], I), width)]
        seen = []

        def call(W, ndv=ndv, wv=wv, user=user, default=default):
            el = SArr.var("elements", (nels, dimof(wv) + 3), "i")
            cons = SArr.var("cons", (nn, ndv), "i")
            seen[:] = [cons]
            kw = {} if default and ndv == 2 else dict(ndof_node=ndv)
            if not default:
                kw["ndof_el_max"] = mx
            if user:
                kw["ndof_el"] = lambda t: tm.app("ndof_el", [tm._co(t)], I)
            return W.ass.DME(cons, el, **kw), list(seen)

        def eqc(cons, ndof_node=2, ndv=ndv):
            # contract of eqcounter: neq and bc are functions of its two arguments
            seen.append((cons, ndof_node))
            return neq0, SArr.var("bc", (nn, ndv), "i")
        nm = "%s nodes, %s components per node%s%s" % (w, nd, ", user element" if user else "",
                                                      ", default maximum" if default else "")
        cs = MCase(ctx, nm, call, assume, function="assemutil.DME", stubs={"assemutil.eqcounter": eqc})

        def post(v, p, ndv=ndv, wv=wv, default=default):
            (op, bc, neq), seen = v
            e, a, c = tm.fresh("e", I), tm.fresh("a", I), tm.fresh("c", I)
            calls = seen[1:]
            ok = len(calls) >= 1
            yield {"numbering": [("eqcounter called", ok)] + [q for cc, k in calls for q in
                                                              same_array(cc, seen[0], [], "constraints") +
                                                              [("components", tm.eq(tm._co(k), tm._co(ndv)))]] +
                   [("neq", neq, neq0)] + same_array(bc, SArr.var("bc", (nn, ndv), "i"), [], "bc")}
            yield {"shape": [("rows", op.shape[0], nels), ("columns", op.shape[1], 18 if default else mx),
                             ("integer", op.vd == "i")]}
            f = within(e, nels)
            el = lambda a: tm.app("elements", [e, a + 3], I)
            its = []
            if isinstance(ndv, int):
                for b in range(wv):
                    for c in range(ndv):
                        its.append(("row", op.at(e, tm.const(b*ndv + c)), bcf(el(tm.const(b)), tm.const(c)), f))
            else:
                f = f + within(a, wv) + within(c, ndv)
                its.append(("row", op.at(e, a*ndv + c), bcf(el(a), c), f))
            yield {"rows": its}
        cs.verify(post)
    # an unknown element type is not accepted silently (C22 states ValueError)


def dimof(x):
    return x if isinstance(x, (int, tm.T)) else int(x)


def op_schema(neq):
    return lambda e, c: [tm.le(tm.const(-1), tm.app("op", [e, c], I)), tm.lt(tm.app("op", [e, c], I), neq)]


def assembled(name, nd, nels, i, j, sort=R):
    """entry (i, j): the sum of the element entries whose row and column map there"""
    e, r, c = (tm.fresh("q", I) for _ in range(3))
    op = lambda c: tm.app("op", [e, tm._co(c)], I)
    it = lambda r, c: tm.ite(tm.and_(tm.eq(op(r), i), tm.eq(op(c), j)), tm.app(name, [e, tm._co(r), tm._co(c)], sort), ZERO)
    n = nd(e)
    body = tm.bsum(r, ZERO, n, tm.bsum(c, ZERO, n, it(r, c)))
    return tm.bsum(e, ZERO, nels, body)


@group("C11", ["assemutil.dense_assem", "assemutil.sparse_assem", "assemutil.assembler"], limit=220)
def assembly(ctx):
    nn, nels, neq, nm_ = iv("nn"), iv("nels"), iv("neq"), iv("nmats")
    width = iv("width")
    smt.SCHEMAS.clear()
    smt.SCHEMAS["op"] = op_schema(neq)
    for size in ("every element of its own size",):
        nd = (lambda e: tm.app("nd", [tm._co(e)], I)) if not isinstance(size, int) else (lambda e: tm.const(size))
        smt.SCHEMAS["nd"] = lambda e: [tm.le(ZERO, tm.app("nd", [e], I)), tm.le(tm.app("nd", [e], I), width)]
        assume = nonneg(nn, nels, neq, nm_, width) + ([tm.le(tm.const(size), width)] if isinstance(size, int) else [])
        for fn in ("dense_assem", "sparse_assem", "assembler dense", "assembler sparse", "assembler default"):
            if fn.startswith("assembler") and isinstance(size, int):
                continue
            for user, kind in ((False, "f"), (True, "f"), (True, "i")):
                seen = []
                uel = (lambda c, p: None) if user else None
                srt = R if kind == "f" else I
                given = {}

                def retr(elements, mats, nodes, ele, uel=None):
                    # contract of retriever: matrices of the element, functions of its arguments
                    seen.append((elements, mats, nodes, uel))
                    n = symarr.dim(nd(ele))
                    mk = lambda nm: symarr.functional((n, n), kind, lambda ix: tm.app(nm, [tm._co(ele)] + list(ix), srt))
                    return mk("K"), mk("M")

                def call(W):
                    w = SArr.var("elements", (nels, iv("ecols")), "i")
                    given.update(elements=w, mats=SArr.var("mats", (nm_, iv("mcols"))),
                                 nodes=SArr.var("nodes", (nn, iv("ncols"))), op=SArr.var("op", (nels, width), "i"))
                    seen.clear()
                    kw = {} if uel is None else dict(uel=uel)
                    a = (w, given["mats"], given["nodes"], neq, given["op"])
                    if fn == "assembler default":
                        r = W.ass.assembler(*a, **kw)
                    elif fn.startswith("assembler"):
                        r = W.ass.assembler(*a, sparse="sparse" in fn, **kw)
                    else:
                        r = getattr(W.ass, fn)(*a, **kw)
                    return r, list(seen), dict(given)
                nm = "%s, %s%s" % (fn, size if not isinstance(size, int) else "%d dofs per element" % size,
                                   (", user element" if user else "") + (" of integer matrices" if kind == "i" else ""))
                cs = MCase(ctx, nm, call, assume, function="assemutil." + fn.split()[0],
                           stubs={"assemutil.retriever": retr})

                def post(v, p):
                    v, seen, given = v
                    i, j = tm.fresh("i", I), tm.fresh("j", I)
                    f = within(i, neq) + within(j, neq)
                    sparse = fn in ("sparse_assem", "assembler sparse", "assembler default")
                    yield {"form": [("two matrices", isinstance(v, tuple) and len(v) == 2)] +
                           [("sparse CSR" if sparse else "dense", isinstance(m, symarr.CooMat) and m.fmt == "csr"
                             if sparse else isinstance(m, (SArr, symarr.JArr))) for m in v]}
                    for nm, m in zip("KM", v):
                        if isinstance(m, symarr.CooMat):
                            yield {"shape": [("rows", m.shape[0], neq), ("columns", m.shape[1], neq)]}
                            got = m.entry(i, j)
                        else:
                            yield {"shape": [("rows", m.shape[0], neq), ("columns", m.shape[1], neq)]}
                            got = m.at(i, j)
                        yield {"entries": [(nm, got, assembled(nm, nd, nels, i, j, srt), f)]}
                    yield {"element calls": [("same tables", all(
                        s[0] is given["elements"] and s[1] is given["mats"] and s[2] is given["nodes"] and
                        s[3] is uel for s in seen) and bool(seen))]}
                cs.verify(post)


@group("C12", ["assemutil.loadasem"], limit=200)
def load_vector(ctx):
    nn, nl, neq = iv("nn"), iv("nloads"), iv("neq")
    smt.SCHEMAS.clear()
    smt.SCHEMAS["bc"] = lambda n, c: [tm.le(tm.const(-1), tm.app("bc", [n, c], I)), tm.lt(tm.app("bc", [n, c], I), neq)]
    smt.SCHEMAS["loadnode"] = lambda r: within(tm.app("loadnode", [r], I), nn)
    node = appf("loadnode", I)
    for nd, extra in ((1, 0), (2, 0), (3, 0), (2, 1), ("nd", 0), ("nd", "more columns")):
        ndv = nd if isinstance(nd, int) else iv(nd)
        cols = ndv + 1 + extra if isinstance(nd, int) else (iv("cols") if extra else ndv + 1)
        assume = nonneg(nn, nl, neq) + ([tm.le(ONE, ndv), tm.le(ndv + 1, tm._co(cols))] if not isinstance(nd, int) else [])
        for kind in "fi":
            if kind == "i" and (extra or nd == 1):
                continue
            val = lambda r, c, kind=kind: tm.app("load" + kind, [r, tm._co(c)], R if kind == "f" else I)

            def call(W):
                L = symarr.functional((nl, cols), kind, lambda ix: node(ix[0]) if ix[1] is ZERO else tm.ite(
                    tm.eq(ix[1], ZERO), node(ix[0]), val(*ix)))
                bc = SArr.var("bc", (nn, ndv), "i")
                r = [W.ass.loadasem(L, bc, neq, ndof_node=ndv)]
                return r + ([W.ass.loadasem(L, bc, neq)] if nd == 2 else [])
            nm = "%s components per node%s%s" % (nd, ", %s" % extra if extra else "", ", integer table" if kind == "i" else "")
            cs = MCase(ctx, nm, call, assume, function="assemutil.loadasem")

            def post(vs, p):
                q, r, c = (tm.fresh("q", I) for _ in range(3))
                for v in vs:
                    yield {"shape": [("length", v.shape[0], neq), ("one axis", len(v.shape) == 1), ("float", v.vd == "f")]}
                    it = lambda c: tm.ite(tm.eq(tm.app("bc", [node(r), tm._co(c)], I), q), val(r, tm._co(c) + 1), ZERO)
                    per = sum((it(b) for b in range(ndv)), ZERO) if isinstance(ndv, int) else \
                        tm.bsum(c, ZERO, ndv, it(c))
                    yield {"entries": [("force", v.at(q), tm.bsum(r, ZERO, nl, per), within(q, neq))]}
            cs.verify(post)
    # order of the records: a finite sum is unchanged when two neighbouring records swap
    f, S, k = appf("record", R), appf("sums", R), iv("k")
    lemma(ctx, "lemma/swapping neighbouring records leaves the sum", equal=[
        ("sum", (S(k) + f(k)) + f(k + 1), (S(k) + f(k + 1)) + f(k))])
