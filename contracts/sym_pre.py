"""Mesh generation and import (C16, C17)."""
from vf import terms as tm, symarr, smt, simp
from vf.terms import R, I, B, Unsupported
from vf.symarr import SArr
from vf.contract import MCase, lemma, iv, rv, raw, Result
from vf.symrun import group
from contracts.sym_mesh import ZERO, ONE, nonneg, within, appf

HALF = tm.const(0.5)


@group("C16", ["preprocesor.rect_grid"], limit=150)
def grid(ctx):
    nx, ny, L, H = iv("nx"), iv("ny"), rv("length"), rv("height")
    smt.SCHEMAS.clear()
    for kind in ("real", "integer"):
        Lv, Hv = (L, H) if kind == "real" else (iv("length"), iv("height"))
        assume = [tm.le(ONE, nx), tm.le(ONE, ny), tm.lt(ZERO, Lv), tm.lt(ZERO, Hv)]

        def call(W, Lv=Lv, Hv=Hv):
            return [W.pre.rect_grid(Lv, Hv, nx, ny), W.pre.rect_grid(Lv, Hv, nx, ny, 1)]
        cs = MCase(ctx, "%s sizes" % kind, call, assume, function="preprocesor.rect_grid")

        def post(vs, p, Lv=Lv, Hv=Hv):
            for v in vs:
                ok = isinstance(v, tuple) and len(v) == 3
                yield {"form": [("three arrays", ok)]}
                if not ok:
                    return
                x, y, els = v
                r, c = tm.fresh("r", I), tm.fresh("c", I)
                k = r*(nx + 1) + c
                f = within(r, ny + 1) + within(c, nx + 1)
                for nm, a in (("x", x), ("y", y)):
                    yield {"form": [(nm + " has one entry per node", a.shape[0], (nx + 1)*(ny + 1)),
                                    (nm + " is a vector of reals", len(a.shape) == 1 and a.vd == "f")]}
                yield {"nodes": [("x", x.at(k), Lv*(c/nx - HALF), f), ("y", y.at(k), Hv*(r/ny - HALF), f)]}
                yield {"form": [("one record per element", els.shape[0], nx*ny), ("seven columns", tm._co(els.shape[1]), tm.const(7)),
                                ("integers", els.vd == "i")]}
                f = within(r, ny) + within(c, nx)
                e = r*nx + c
                n0 = r*(nx + 1) + c
                want = [e, ONE, None, n0, n0 + 1, n0 + nx + 2, n0 + nx + 1]
                for j, w in enumerate(want):
                    if w is not None:
                        yield {"elements": [("column %d" % j, els.at(e, tm.const(j)), w, f)]}
        cs.verify(post)
    # the lattice: consequences for areas, orientation, sharing and coverage
    w, r, c, r2, c2 = nx, iv("r"), iv("c"), iv("r2"), iv("c2")
    pos = [tm.le(ONE, nx), tm.le(ONE, ny)]
    n = lambda a, b: a*(nx + 1) + b
    f = within(r, ny) + within(c, nx) + pos
    lemma(ctx, "lemma/records stay in the table", tm.and_(*within(r*nx + c, nx*ny)), f)
    # quotient and remainder are unique: different cells have different records
    q, m = iv("q"), iv("m")
    lemma(ctx, "lemma/different cells have different records",
          tm.and_(tm.eq(r, r2), tm.eq(c, c2)), within(c, nx) + within(c2, nx) + pos + [tm.eq((r - r2)*nx, c2 - c)])
    hx, hy = L/nx, H/ny
    X = lambda b: L*(b/nx - HALF)
    Y = lambda a: H*(a/ny - HALF)
    P = [(X(c), Y(r)), (X(c + 1), Y(r)), (X(c + 1), Y(r + 1)), (X(c), Y(r + 1))]
    twice = sum((P[i][0]*P[(i + 1) % 4][1] - P[(i + 1) % 4][0]*P[i][1] for i in range(4)), ZERO)
    lemma(ctx, "lemma/element area is the share of the rectangle (counterclockwise)", equal=[
        ("area", twice/2, hx*hy), ("sum over the elements", hx*hy*(nx*ny), L*H)])
    lemma(ctx, "lemma/shoelace area is positive", tm.lt(ZERO, hx*hy), [tm.lt(ZERO, hx), tm.lt(ZERO, hy)])
    corner = lambda r, c: [n(r, c), n(r, c + 1), n(r, c) + nx + 2, n(r, c) + nx + 1]
    e0, e1, e2 = corner(r, c), corner(r, c + 1), corner(r + 1, c)
    lemma(ctx, "lemma/neighbours in a row share two nodes", equal=[("lower", e0[1], e1[0]), ("upper", e0[2], e1[3])])
    lemma(ctx, "lemma/neighbours in a column share two nodes", equal=[("left", e0[3], e2[0]), ("right", e0[2], e2[1])])
    lemma(ctx, "lemma/lattice positions are distinct", tm.not_(tm.eq(X(c), X(c2))),
          pos + [tm.lt(ZERO, L), tm.lt(c, c2), tm.lt(ZERO, hx), tm.eq(X(c2) - X(c), hx*(c2 - c))])
    lemma(ctx, "lemma/positions from the pitch", equal=[("x", X(c2) - X(c), hx*(c2 - c)), ("y", Y(r2) - Y(r), hy*(r2 - r))])


# ------------------------------------------------------------------------ C17
def groups_of(tag, w, n, others=True):
    """what the mesh reader hands over: cells and their physical groups by family"""
    cells = {tag: SArr.var("conn", (n, w), "i")}
    data = {tag: {"gmsh:physical": SArr.var("phys", (n,), "i"), "gmsh:geometrical": SArr.var("geom", (n,), "i")}}
    if others:
        cells["vertex"] = SArr.var("vertex", (iv("nvertex"), 1), "i")
        data["vertex"] = {"gmsh:physical": SArr.var("vphys", (iv("nvertex"),), "i")}
    return cells, data


def hitsum(n, phy, upto=None):
    q = tm.fresh("q", I)
    return tm.bsum(q, ZERO, n if upto is None else upto, tm.ite(tm.eq(tm.app("phys", [q], I), phy), ONE, ZERO))


@group("C17", ["preprocesor.ele_writer"], limit=150)
def element_records(ctx):
    n, phy, et, mat, ini = iv("ncells"), iv("phy_sur"), iv("ele_type"), iv("mat_tag"), iv("nini")
    for tag, w in (("triangle", 3), ("triangle6", 6), ("quad", 4)):
        smt.SCHEMAS.clear()

        def call(W, tag=tag, w=w):
            cells, data = groups_of(tag, w, n)
            return W.pre.ele_writer(cells, data, tag, phy, et, mat, ini)
        cs = MCase(ctx, tag, call, nonneg(n, iv("nvertex")), function="preprocesor.ele_writer")

        def post(v, p, w=w):
            ok = isinstance(v, tuple) and len(v) == 2
            yield {"form": [("next identifier and records", ok)]}
            if not ok:
                return
            nf, els = v
            cnt = hitsum(n, phy)
            yield {"identifiers": [("next identifier", nf, ini + cnt)]}
            yield {"form": [("one record per cell of the group", els.shape[0], cnt), ("columns", tm._co(els.shape[1]), tm.const(3 + w)),
                            ("integers", els.vd == "i")]}
            i = tm.fresh("i", I)
            f = within(i, n) + [tm.eq(tm.app("phys", [i], I), phy)]
            k = hitsum(n, phy, i)           # how many cells of the group come before
            yield {"identifiers": [("identifier", els.at(k, ZERO), ini + k, f)]}
            yield {"tags": [("type", els.at(k, ONE), et, f), ("material", els.at(k, tm.const(2)), mat, f)]}
            for c in range(w):
                yield {"connectivity": [("node %d" % c, els.at(k, tm.const(3 + c)), tm.app("conn", [i, tm.const(c)], I), f)]}
        cs.verify(post)


@group("C17", ["preprocesor.node_writer"], limit=60)
def node_records(ctx):
    n = iv("npoints")
    for w in (2, 3):
        for kind in "fi":
            smt.SCHEMAS.clear()

            def call(W, w=w, kind=kind):
                return W.pre.node_writer(SArr.var("points", (n, w), kind), {})
            cs = MCase(ctx, "%s points of %d coordinates" % ({"f": "real", "i": "integer"}[kind], w), call, nonneg(n),
                       function="preprocesor.node_writer")

            def post(v, p, w=w, kind=kind):
                i = tm.fresh("i", I)
                f = within(i, n)
                yield {"form": [("one record per point", v.shape[0], n), ("five columns", tm._co(v.shape[1]), tm.const(5)),
                                ("reals", v.vd == "f")]}
                x = lambda c: tm.app("points", [i, tm.const(c)], R if kind == "f" else I)
                for c, want in enumerate([i, x(0), x(1), ZERO, ZERO]):
                    yield {"records": [("column %d" % c, v.at(i, tm.const(c)), want, f)]}
            cs.verify(post)


def in_group(nl, w, phy, v):
    q = tm.fresh("q", I)
    return tm.or_(*[tm.exists(q, ZERO, nl, tm.and_(tm.eq(tm.app("phys", [q], I), phy), tm.eq(tm.app("conn", [q, tm.const(c)], I), v)))
                    for c in range(w)])


def line_schema(nn):
    smt.SCHEMAS.clear()
    smt.SCHEMAS["conn"] = lambda i, c: within(tm.app("conn", [i, c], I), nn)
    symarr.VRANGE.clear()
    symarr.VRANGE["conn"] = (ZERO, nn)


@group("C17", ["preprocesor.boundary_conditions"], limit=150)
def constraint_flags(ctx):
    nl, nn, phy = iv("nlines"), iv("npoints"), iv("phy_lin")
    for w in (2,):
        for kind in ("f", "i"):
            line_schema(nn)
            bx, by = iv("bc_x"), iv("bc_y")

            def call(W, kind=kind, w=w):
                cells, data = groups_of("line", w, nl)
                return W.pre.boundary_conditions(cells, data, phy, SArr.var("nodes", (nn, 5), kind), bx, by)
            cs = MCase(ctx, "%s table" % {"f": "real", "i": "integer"}[kind], call, nonneg(nl, nn, iv("nvertex")),
                       function="preprocesor.boundary_conditions")

            def post(v, p, kind=kind, w=w):
                i = tm.fresh("i", I)
                yield {"form": [("one record per node", v.shape[0], nn), ("five columns", tm._co(v.shape[1]), tm.const(5))]}
                old = lambda c: tm.app("nodes", [i, tm.const(c)], R if kind == "f" else I)
                m = in_group(nl, w, phy, i)
                for c in range(5):
                    got = v.at(i, tm.const(c))
                    if c < 3:
                        yield {"coordinates": [("column %d" % c, got, old(c), within(i, nn))]}
                    else:
                        flag = (bx, by)[c - 3]
                        yield {"flags": [("on the boundary, column %d" % c, got, flag, within(i, nn) + [m]),
                                         ("elsewhere, column %d" % c, got, old(c), within(i, nn) + [tm.not_(m)])]}
            cs.verify(post)


@group("C17", ["preprocesor.loading"], limit=150, trusted=[
    "iterating over a Python set (or numpy.unique) gives each member exactly once"])
def load_records(ctx):
    nl, nn, phy = iv("nlines"), iv("npoints"), iv("phy_lin")
    for kind in ("real", "integer"):
        line_schema(nn)
        mk = rv if kind == "real" else iv
        px, py = mk("P_x"), mk("P_y")
        w = 2

        def call(W, px=px, py=py):
            cells, data = groups_of("line", w, nl)
            return W.pre.loading(cells, data, phy, px, py)
        # at least one line is in the group
        q = iv("some_line")
        some = within(q, nl) + [tm.eq(tm.app("phys", [q], I), phy)] + within(tm.app("conn", [q, ZERO], I), nn)
        cs = MCase(ctx, "%s loads" % kind, call, nonneg(nl, nn, iv("nvertex")) + some, function="preprocesor.loading")

        def post(v, p, px=px, py=py):
            x = tm.fresh("x", I)
            cnt = tm.bsum(x, ZERO, nn, tm.ite(in_group(nl, w, phy, x), ONE, ZERO))
            r = tm.fresh("r", I)
            f = within(r, v.shape[0])
            yield {"form": [("one record per distinct node", v.shape[0], cnt), ("three columns", tm._co(v.shape[1]), tm.const(3)),
                            ("reals", v.vd == "f")]}
            node = tm._co(v.at(r, ZERO))
            node = simp.simplify(node, cs.assume + p.pc + f)
            ok = node.op == "app" and node.args[0] in ("setenum", "setsorted") and node.args[-1] is r
            yield {"nodes": [("each record holds its own member of a set", ok)]}
            if ok:
                key = node.args[1]
                lo, hi = key.args[1:3]
                yield {"nodes": [("members range over the nodes: from", lo, ZERO), ("to", hi, nn)]}
                y = tm.fresh("y", I)
                inset = tm.eq(tm._rename(key.args[3], key.args[0], y), ONE)
                want = in_group(nl, w, phy, y)
                yield {"nodes": [("members are in the group", tm.or_(tm.not_(inset), want), within(y, nn)),
                                 ("every node of the group is a member", tm.or_(inset, tm.not_(want)), within(y, nn))]}
            inv = rv("1/count")
            from vf.contract import over
            for c, P in ((1, px), (2, py)):
                got = over(v.at(r, tm.const(c)), cnt, inv, cs.assume + p.pc + f)
                yield {"shares": [("column %d" % c, got, P*inv, f)]}
        cs.verify(post)
    c, P, inv = iv("count"), rv("P"), rv("1/count")
    s = tm.fresh("s", I)
    lemma(ctx, "lemma/the shares add up to the load", equal=[("total", simp.mksum(s, ZERO, c, P*inv), P)],
          facts=[tm.eq(c*inv, ONE), tm.le(ONE, c)])
