"""Triangulations and the fields drawn on them (C20)."""
from vf import terms as tm, smt, symarr, symnp
from vf.terms import I
from vf.stubs import Opaque
from vf.symarr import SArr
from vf.contract import MCase, lemma, iv, rv, raw, traced, same_array
from vf.symrun import group
from contracts import spec
from contracts.sym_mesh import ZERO, ONE, nonneg, within

# type: name, boundary nodes counterclockwise
POLY = {1: ("quad4", (0, 1, 2, 3)), 2: ("tri6", (0, 3, 1, 4, 2, 5)), 3: ("tri3", (0, 1, 2)),
        4: ("quad9", (0, 4, 1, 5, 2, 6, 3, 7))}
TABLES = {6: (3,), 7: (1,), 9: (1, 2), 12: (1, 2, 4)}
DRAW = ("tricontourf", "tripcolor", "tricontour")


def tiles(t, triples):
    """do the triangles, given by local node numbers, tile the element?  boundary
    edges must add up to the outline and each triangle must be counterclockwise on the
    reference element: then every point of the element lies in exactly one triangle"""
    name, outline = POLY[t]
    ref = [[float(x) for x in q] for q in spec.REF[name]]
    edges = {}
    for tri in triples:
        if len(set(tri)) != 3 or any(not 0 <= a < len(ref) for a in tri):
            return False
        P = [ref[a] for a in tri]
        if (P[1][0] - P[0][0])*(P[2][1] - P[0][1]) - (P[2][0] - P[0][0])*(P[1][1] - P[0][1]) <= 1e-9:
            return False
        for a, b in zip(tri, tri[1:] + tri[:1]):
            if edges.pop((b, a), None) is None:
                if (a, b) in edges:
                    return False
                edges[a, b] = 1
    return edges == {(a, b): 1 for a, b in zip(outline, outline[1:] + outline[:1])}


def column(t, e, w):
    """local node number if t is elements[e, 3 + number]"""
    t = tm._co(t)
    if t.op == "app" and t.args[0] == "els" and t.args[1] is e and t.args[2].op == "const":
        c = int(t.args[2].args[0]) - 3
        return c if 0 <= c < w - 3 else None
    return None


@group("C20", ["postprocesor.mesh2tri"], limit=150)
def triangulation(ctx):
    nn, ne = iv("nnodes"), iv("nels")
    for w, types in TABLES.items():
        for nc, nk in ((3, "f"), (5, "f"), (3, "i")):
            smt.SCHEMAS.clear()
            smt.SCHEMAS["els"] = lambda e, c, types=types: [tm.or_(*[tm.eq(tm.app("els", [e, ONE], I), tm.const(t)) for t in types])]
            log = []

            def call(W, w=w, nc=nc):
                log.clear()
                v = W.pos.mesh2tri(SArr.var("nodes", (nn, nc), nk), SArr.var("els", (ne, w), "i"))
                return v, list(log)

            def stub(x, y, triangles=None, mask=None, **k):
                log.append((x, y, triangles, mask))
                return "triangulation %d" % len(log)
            cs = MCase(ctx, "elements of types %s, %d node columns%s" % (", ".join(map(str, types)), nc, ", integer coordinates" if nk == "i" else ""), call,
                       nonneg(nn) + [tm.le(ONE, ne)], function="postprocesor.mesh2tri", stubs={"postprocesor.Triangulation": stub})

            def post(vl, p, w=w, types=types):
                v, calls = vl
                ok = len(calls) == 1 and v == "triangulation 1" and calls[0][3] is None
                yield {"form": [("one triangulation, returned, without mask", ok)]}
                if not ok:
                    return
                x, y, T = calls[0][:3]
                T = symarr.lift(T)
                i = tm.fresh("i", I)
                for nm, a, c in (("x", x, 1), ("y", y, 2)):
                    yield {"positions": [(nm + " of every node", a.shape[0], nn),
                                         (nm, a.at(i), tm.app("nodes", [i, tm.const(c)], tm.R if nk == "f" else I), within(i, nn))]}
                yield {"form": [("three nodes per triangle", len(T.shape) == 2 and tm._co(T.shape[1]) is tm.const(3))]}
                e = tm.fresh("e", I)
                for t in types:
                    facts = cs.assume + p.pc + within(e, ne) + [tm.eq(tm.app("els", [e, ONE], I), tm.const(t))]
                    got, sure = [], True
                    for bs, g, it in symarr.walk(symarr.segs_of(T)):
                        # one pass over the elements
                        one = len(bs) == 1 and tm._co(bs[0][1]) is ZERO and tm._co(bs[0][2]) is tm._co(ne)
                        if not one:
                            sure = False
                            break
                        sub = {bs[0][0]: e}
                        c = tm.subst(g, sub)
                        if smt.valid(facts, tm.not_(c)) == "proved":
                            continue
                        if smt.valid(facts, c) != "proved":
                            sure = False
                            break
                        got.append(tuple(column(tm.subst(tm._co(symarr.lift(it).at(tm.const(q))), sub), e, w) for q in range(3)))
                    yield {"split": [("triangles of a %s element come from its own nodes" % POLY[t][0],
                                      sure and all(None not in q for q in got))]}
                    if sure:
                        yield {"split": [("triangles tile a %s element once, with its orientation" % POLY[t][0],
                                          all(None not in q for q in got) and tiles(t, got))]}
            cs.verify(post)
    # the boundary of the triangles is the outline, hence the signed areas agree for all positions
    for t, (name, outline) in POLY.items():
        n = len(spec.REF[name])
        X, Y = [rv("x%d" % i) for i in range(n)], [rv("y%d" % i) for i in range(n)]

        def area(ix):
            return sum((X[a]*Y[b] - X[b]*Y[a] for a, b in zip(ix, ix[1:] + ix[:1])), ZERO)/2
        split = {1: [(0, 1, 2), (2, 3, 0)], 3: [(0, 1, 2)],
                 2: [(0, 3, 5), (3, 4, 5), (3, 1, 4), (4, 2, 5)],
                 4: [(0, 4, 8), (4, 1, 5), (0, 8, 7), (4, 5, 8), (7, 8, 6), (8, 5, 2), (7, 6, 3), (8, 2, 6)]}[t]
        if tiles(t, split):
            lemma(ctx, "lemma/a split with the outline as boundary has the area of the %s polygon" % name,
                  equal=[("area", sum((area(q) for q in split), ZERO), area(outline))])


class Plt(Opaque):
    """matplotlib.pyplot: every call is recorded"""
    def get_fignums(self):
        return []


@group("C20", ["postprocesor.fields_plot", "postprocesor.plot_node_field", "postprocesor.tri_plot"], limit=100, trusted=[
    "pyplot.tricontourf/tripcolor draw the field they are given on the triangulation they are given"])
def drawn_fields(ctx):
    nn, ne = iv("nnodes"), iv("nels")
    smt.SCHEMAS.clear()
    log = []
    for what in ("disp", "disp strain", "disp stress", "disp strain stress"):
        smt.SCHEMAS["els"] = lambda e, c: [tm.le(ONE, tm.app("els", [e, ONE], I)), tm.le(tm.app("els", [e, ONE], I), tm.const(4))]

        def call(W, what=what):
            log.clear()
            a = [SArr.var("els", (ne, 12), "i"), SArr.var("nodes", (nn, 5), "f"), SArr.var("disp", (nn, 2), "f")]
            k = {n: SArr.var(n, (nn, 3), "f") for n, key in (("E_nodes", "strain"), ("S_nodes", "stress")) if key in what}
            W.pos.fields_plot(*a, **k)
            return a, k, list(log)
        stubs = {"postprocesor.plt": Plt("plt", log),
                 "postprocesor.mesh2tri": traced("mesh2tri", log, lambda a: "tri")}
        cs = MCase(ctx, what.replace(" ", " + "), call, nonneg(nn) + [tm.le(ONE, ne)], function="postprocesor.fields_plot", stubs=stubs)

        def post(v, p):
            a, k, calls = v
            for name, args in [(c[0], c[1]) for c in calls if c[0] == "mesh2tri"]:
                yield {"triangulation": same_array(args["nodes"], a[1], label="of the nodes") + same_array(args["elements"], a[0], label="of the elements")}
            draw = [c for c in calls if c[0].split(".")[-1] in DRAW]
            want = [(f, j) for f in [a[2]] + list(k.values()) for j in range(int(f.shape[1]))]
            yield {"fields": [("every component is drawn once", len(draw) == len(want))]}
            if len(draw) != len(want):
                return
            i = tm.fresh("i", I)
            for (nm, args, kw), (f, j) in zip(draw, want):
                ok = len(args) >= 2 and args[0] == "tri" and isinstance(args[1], SArr) and len(args[1].shape) == 1
                yield {"fields": [("on the triangulation", ok)]}
                if ok:
                    yield {"fields": [("one value per node", args[1].shape[0], nn),
                                      ("column %d" % j, args[1].at(i), f.at(i, tm.const(j)), within(i, nn))]}
        cs.verify(post)

    for shape, pt in (((), "contourf"), ((), "pcolor"), ((1,), "contourf"), ((2,), "pcolor")):
        def call(W, shape=shape, pt=pt):
            log.clear()
            a = [SArr.var("field", (nn,) + shape, "f"), SArr.var("nodes", (nn, 5), "f"), SArr.var("els", (ne, 12), "i")]
            W.pos.plot_node_field(a[0], a[1], a[2], plt_type=pt)
            return a, list(log)
        cs = MCase(ctx, "one field of %s, %s" % ("one value per node" if not shape else "%d columns" % shape[0], pt), call,
                   nonneg(nn) + [tm.le(ONE, ne)], function="postprocesor.plot_node_field", stubs=stubs)

        def post(v, p, shape=shape, pt=pt):
            a, calls = v
            for name, args in [(c[0], c[1]) for c in calls if c[0] == "mesh2tri"]:
                yield {"triangulation": same_array(args["nodes"], a[1], label="of the nodes") + same_array(args["elements"], a[2], label="of the elements")}
            draw = [c for c in calls if c[0].split(".")[-1] in DRAW]
            n = shape[0] if shape else 1
            kinds = ("tripcolor", "pcolormesh") if pt == "pcolor" else ("tricontourf", "tricontour")
            yield {"fields": [("every component is drawn once", len(draw) == n and all(c[0].split(".")[-1] in kinds for c in draw))]}
            if len(draw) != n:
                return
            i = tm.fresh("i", I)
            for j, (nm, args, kw) in enumerate(draw):
                ok = len(args) >= 2 and args[0] == "tri" and isinstance(args[1], SArr)
                yield {"fields": [("on the triangulation", ok)]}
                if ok and len(args[1].shape) == 2 and shape == (1,):
                    yield {"fields": [("column", args[1].at(i, ZERO), a[0].at(i, ZERO), within(i, nn))]}
                elif ok:
                    yield {"fields": [("one value per node", args[1].shape[0], nn),
                                      ("column %d" % j, args[1].at(i), a[0].at(i, *([tm.const(j)] if shape else [])), within(i, nn))]}
        cs.verify(post)


@group("C21", ["postprocesor.plot_truss", "preprocesor.echomod"], limit=100, trusted=[
    "pyplot and numpy.savetxt do not write into the arrays they are given"])
def drawings_and_echoes(ctx):
    """drawing a truss or echoing the input leaves the tables as they are"""
    nn, ne, nm = iv("nnodes"), iv("nels"), iv("nmats")
    el = lambda e, c: tm.app("els", [e, c], I)
    smt.SCHEMAS.clear()
    smt.SCHEMAS["els"] = lambda e, c: [
        tm.implies(tm.eq(c, ZERO), tm.and_(*within(el(e, c), ne))), tm.implies(tm.eq(c, tm.const(2)), tm.and_(*within(el(e, c), nm))),
        tm.implies(tm.le(tm.const(3), c), tm.and_(*within(el(e, c), nn)))]
    log = []
    for nk in "fi":
        for given in (False, True):
            def call(W, nk=nk, given=given):
                a = [SArr.var("nodes", (nn, 5), nk), SArr.var("els", (ne, 5), "i"), SArr.var("mats", (nm, 3), nk)]
                k = dict(stresses=SArr.var("stresses", (ne,), "f")) if given else {}
                W.pos.plot_truss(*a, **k)
            MCase(ctx, "truss%s%s" % (", integer tables" if nk == "i" else "", ", with stresses" if given else ""), call,
                  nonneg(nn) + [tm.le(ONE, ne), tm.le(ONE, nm)], function="postprocesor.plot_truss",
                  stubs={"postprocesor.plt": Plt("plt", log)}).verify(lambda v, p: [])

    def io(name, a, k):
        if name != "savetxt":
            raise tm.Unsupported(name)

    def echo(W):
        symnp.IO[0] = io
        W.pre.echomod(SArr.var("nodes", (nn, 5)), SArr.var("mats", (nm, 3)), SArr.var("els", (ne, 6), "i"), SArr.var("loads", (iv("nloads"), 3)))
    MCase(ctx, "echo", echo, nonneg(nn, ne, nm, iv("nloads")), function="preprocesor.echomod").verify(lambda v, p: [])
