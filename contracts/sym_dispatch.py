"""Element dispatch (C22): eletype, ele_fun, retriever."""
from vf import terms as tm, symarr, smt
from vf.terms import R, I, B, Unsupported
from vf.symarr import SArr
from vf.contract import MCase, lemma, iv, rv, Result, World, exc_kind
from vf.symrun import group
from contracts.sym_mesh import CATALOGUE, ZERO, ONE, nonneg, within, elements_schema

ROUTINE = {1: "elast_quad4", 2: "elast_tri6", 3: "elast_tri3", 4: "elast_quad9", 5: "spring", 6: "truss2D",
           7: "beam2DU", 8: "beam2D"}


def const(x):
    x = tm._co(x)
    return x is not None and x.op == "const" and int(x.args[0])


@group("C22", ["femutil.eletype", "assemutil.ele_fun"], limit=100)
def catalogue(ctx):
    smt.SCHEMAS.clear()
    for srt in ("", "real "):
        one_kind(ctx, srt, rv("t") if srt else iv("t"))


def one_kind(ctx, srt, t):
    """every type number: whole numbers, and numbers that are not whole (float tables)"""
    isin = tm.or_(*[tm.eq(t, tm.const(k)) for k in CATALOGUE])
    for fn, mod in (("eletype", "fem"), ("ele_fun", "ass")):
        cs = MCase(ctx, fn + " of a catalogued %stype" % srt, lambda W: (getattr(getattr(W, mod), fn)(t), W), [isin],
                   function=("femutil." if mod == "fem" else "assemutil.") + fn)

        def post(v, p):
            v, W = v
            for k, (nd, nn) in CATALOGUE.items():
                f = [tm.eq(t, tm.const(k))]
                if smt.check(p.pc + f + [isin], 1000)[0] == "unsat":
                    continue
                if fn == "eletype":
                    yield {"values": [("three values", isinstance(v, tuple) and len(v) == 3),
                                      ("ndof", v[0], tm.const(nd), f), ("nodes", v[1], tm.const(nn), f)]}
                else:
                    yield {"routine": [("type %d" % k, v is getattr(W.mod("uelutil"), ROUTINE[k]) and
                                        smt.valid(p.pc + [isin], f[0]) == "proved")]}
        cs.verify(post)
        cs = MCase(ctx, fn + " of an unknown %stype" % srt, lambda W: getattr(getattr(W, mod), fn)(t), [tm.not_(isin)],
                   function=("femutil." if mod == "fem" else "assemutil.") + fn)
        cs.verify(lambda v, p: [("unknown type accepted", tm.FALSE)],
                  raises=lambda e, p: [("ValueError", type(e) is ValueError)])


@group("C22", ["assemutil.retriever"], limit=150)
def dispatch(ctx):
    nn, nels, nm, e = iv("nn"), iv("nels"), iv("nmats"), iv("ele")
    ncols, mcols = iv("ncols"), iv("mcols")
    for w in ("w", 2, 3, 4, 6, 9):
        wv = iv("w") if w == "w" else w
        ts = list(CATALOGUE) if w == "w" else [k for k in CATALOGUE if CATALOGUE[k][1] == w]
        smt.SCHEMAS.clear()
        sch = elements_schema(ts, nn, wv)
        smt.SCHEMAS["elements"] = lambda a, b: sch(a, b) + [
            tm.implies(tm.eq(b, tm.const(2)), tm.and_(*within(tm.app("elements", [a, b], I), nm)))]
        assume = nonneg(nn, nels, nm) + within(e, nels) + [tm.le(tm.const(3), ncols), tm.le(ONE, mcols)] + \
            ([tm.le(tm.const(2), wv)] if w == "w" else [])
        for user, kind in ((False, "f"), (True, "f"), (False, "i"), (True, "i")):
            log, given = [], {}

            def stub(name):
                def f(*a, **k):
                    log.append((name, a, k))
                    return "K of " + name, "M of " + name
                return f

            class Routine:
                """a user element may be any callable: nothing is known of its truth value"""
                __call__ = staticmethod(stub("user"))

                def __bool__(self):
                    return bool(tm.lt(tm.const(0), iv("truth")))

            def call(W):
                log.clear()
                given.update(el=SArr.var("elements", (nels, wv + 3), "i"), mats=SArr.var("mats", (nm, mcols), kind),
                             nodes=SArr.var("nodes", (nn, ncols), kind))
                kw = dict(uel=Routine()) if user else {}
                return W.ass.retriever(given["el"], given["mats"], given["nodes"], e, **kw), list(log)
            cs = MCase(ctx, "%s nodes%s%s" % (w, ", user element" if user else "", ", integer tables" if kind == "i" else ""), call, assume,
                       function="assemutil.retriever",
                       stubs={"uelutil." + r: stub(r) for r in ROUTINE.values()})

            def post(v, p):
                v, log = v
                ok = len(log) == 1 and len(log[0][1]) == 2 and not log[0][2]
                yield {"one call": [("exactly one element routine with (coordinates, parameters)", ok)]}
                if not ok:
                    return
                name, (co, par), _ = log[0]
                yield {"returns its matrices": [("K, M", isinstance(v, tuple) and v == ("K of " + name, "M of " + name))]}
                et = tm.app("elements", [e, ONE], I)
                if user:
                    yield {"routine": [("user routine", name == "user")]}
                else:
                    yield {"routine": [("%s for its type" % name, tm.or_(*[
                        tm.eq(et, tm.const(k)) for k, r in ROUTINE.items() if r == name]) if name != "user" else tm.FALSE)]}
                a, c = tm.fresh("a", I), tm.fresh("c", I)
                node = tm.app("elements", [e, a + 3], I)
                f = within(a, wv) + within(c, co.shape[1])
                yield {"coordinates": [
                    ("one row per node", co.shape[0], tm._co(wv)),
                    ("columns", tm.eq(tm._co(co.shape[1]), ncols - 1) if user else tm.le(tm.const(2), tm._co(co.shape[1]))),
                    ("own nodes in order", co.at(a, c), tm.app("nodes", [node, c + 1], R if kind == "f" else I), f)]}
                yield {"parameters": [
                    ("one row", len(par.shape) == 1), ("length", par.shape[0], mcols),
                    ("own material", par.at(c), tm.app("mats", [tm.app("elements", [e, tm.const(2)], I), c], R if kind == "f" else I),
                     within(c, mcols))]}
            cs.verify(post)


@group("C22", ["assemutil.retriever"], limit=60, frame=False, expects=["row outside the table/result"])
def no_such_material(ctx):
    """a record that names a row the material table does not have gets no other row"""
    nn, nels, nm, e = iv("nn"), iv("nels"), iv("nmats"), iv("ele")
    smt.SCHEMAS.clear()
    smt.SCHEMAS["elements"] = elements_schema(list(CATALOGUE), nn, iv("w"))
    assume = nonneg(nn, nels, nm) + within(e, nels) + [tm.le(tm.const(2), iv("w")),
                                                       tm.le(nm, tm.app("elements", [e, tm.const(2)], I))]

    def call(W):
        f = lambda *a, **k: ("K", "M")
        return W.ass.retriever(SArr.var("elements", (nels, iv("w") + 3), "i"), SArr.var("mats", (nm, 3)),
                               SArr.var("nodes", (nn, 3)), e, uel=f)
    cs = MCase(ctx, "row outside the table", call, assume, function="assemutil.retriever")

    cs.run()
    cs.cover()
    ok, kind = True, "failed"
    for p in cs.paths:
        if p.exc is not None:
            ok &= isinstance(p.exc, (IndexError, ValueError))
            kind = exc_kind(p.exc)
        else:       # an index outside its axis (IndexError at run time) is a side condition of the access
            ok &= any(smt.valid(cs.assume + list(taken), tm.not_(f)) == "proved" for f, taken, _ in p.sides)
    cs.put("result", Result("proved", "z3") if ok and cs.paths else
           Result("unknown", "", "another row is taken instead of an IndexError", kind=kind))
