"""Bloch-periodic reduction (C18)."""
from vf import terms as tm, smt, symarr
from vf.terms import R, I
from vf.symarr import SArr, VList
from vf.contract import MCase, lemma, iv, rv, raw
from vf.symrun import group
from contracts.sym_mesh import ZERO, ONE, nonneg, within


def ints(name, n):
    return VList.ofarr(SArr.var(name, (n,), "i"))


def schemas(nd, m):
    """image entries are different degrees of freedom (own is the inverse of ima) and no
    reference entry is an image (isima tells the two apart)"""
    smt.SCHEMAS.clear()
    ap = lambda n, *a: tm.app(n, list(a), I)
    rng = lambda a, f: [tm.or_(tm.not_(tm.and_(*within(a, m))), tm.and_(*f))]
    smt.SCHEMAS["ima"] = lambda a: rng(a, within(ap("ima", a), nd) + [tm.eq(ap("own", ap("ima", a)), a), tm.eq(ap("isima", ap("ima", a)), ONE)])
    smt.SCHEMAS["ref"] = lambda a: rng(a, within(ap("ref", a), nd) + [tm.eq(ap("isima", ap("ref", a)), ZERO)])


def isim(m, d):
    q = tm.fresh("q", I)
    return tm.exists(q, ZERO, m, tm.eq(tm.app("ima", [q], I), d))


def kept_before(m, d):
    x = tm.fresh("x", I)
    return tm.bsum(x, ZERO, d, tm.ite(isim(m, x), ZERO, ONE))


@group("C18", ["blochutil.reassign_dof_bloch"], limit=150)
def renumbering(ctx):
    nd, m = iv("ndofs"), iv("nconds")
    schemas(nd, m)

    def call(W):
        return W.blo.reassign_dof_bloch(nd, ints("ima", m), ints("ref", m))
    cs = MCase(ctx, "lists of any length", call, nonneg(nd, m), function="blochutil.reassign_dof_bloch")

    def post(v, p):
        a = symarr.lift(v.toarr() if hasattr(v, "toarr") else v)
        yield {"form": [("one number per degree of freedom", a.shape[0], nd)]}
        d, k = tm.fresh("d", I), tm.fresh("k", I)
        yield {"kept": [("consecutive numbers", a.at(d), kept_before(m, d), within(d, nd) + [tm.not_(isim(m, d))])]}
        rk = tm.app("ref", [k], I)
        yield {"images": [("the number of the reference", a.at(tm.app("ima", [k], I)), kept_before(m, rk), within(k, m))]}
    cs.verify(post)


class NodeDofs:
    """dictionary from nodes to the list of their degrees of freedom"""
    def __init__(self, name, nd):
        self.name, self.nd = name, nd

    def __getitem__(self, k):
        return VList.ofarr(symarr.functional((self.nd,), "i", lambda ix: tm.app(self.name, [tm._co(k), tm._co(ix[0])], I)))

    get = __getitem__


def maps(ndofs, m, npn, ncond):
    """nima, nref: image and reference node of a condition; idof, rdof: degrees of freedom of a node;
    ima: the flat list of image degrees of freedom"""
    smt.SCHEMAS.clear()
    ap = lambda n, *a: tm.app(n, list(a), I)
    imp = lambda a, f: [tm.or_(tm.not_(tm.and_(*a)), tm.and_(*f))]
    S = smt.SCHEMAS
    # image nodes are different; their degrees of freedom too, and these are the ones listed
    S["nima"] = lambda k: imp(within(k, ncond), [tm.eq(ap("cond", ap("nima", k)), k), tm.eq(ap("isimanode", ap("nima", k)), ONE)]
                              + within(ap("nima", k), iv("nnodes")))
    S["nref"] = lambda k: imp(within(k, ncond), within(ap("nref", k), iv("nnodes")))
    S["idof"] = lambda n, q: imp(within(q, npn) + [tm.eq(ap("isimanode", n), ONE)], [
        tm.eq(ap("node", ap("idof", n, q)), n), tm.eq(ap("local", ap("idof", n, q)), q)] + within(ap("idof", n, q), ndofs)
        + within(ap("pos", n, q), m) + [tm.eq(ap("ima", ap("pos", n, q)), ap("idof", n, q))])
    S["ima"] = lambda a: imp(within(a, m), [tm.eq(ap("ima", a), ap("idof", ap("inode", a), ap("ilocal", a))), tm.eq(ap("isimanode", ap("inode", a)), ONE)]
                             + within(ap("ilocal", a), npn))
    S["rdof"] = lambda n, q: imp(within(q, npn), within(ap("rdof", n, q), ndofs))
    S["new"] = lambda d: imp(within(d, ndofs), within(ap("new", d), ndofs - m))


def euler(t):
    """exp(i x) = cos x + i sin x"""
    memo = {}

    def go(x):
        if not isinstance(x, tm.T):
            return x
        if x.id not in memo:
            y = x
            if any(isinstance(a, tm.T) for a in x.args):
                n = tuple(go(a) for a in x.args)
                if any(p is not q for p, q in zip(n, x.args)):
                    y = tm.remake(x, n)
            if y.op == "app" and y.args[0] == "cis":
                y = tm.add(tm.app("cos", [y.args[1]], R), tm.app("I*", [tm.app("sin", [y.args[1]], R)], R))
            memo[x.id] = y
        return memo[x.id]
    return go(tm._co(t))


@group("C18", ["blochutil.bloch_transform_mat"], limit=150)
def transformation(ctx):
    for kinds in ("ff", "fi", "if", "ii"):
        one_transformation(ctx, *kinds)
    lemmas(ctx)


def one_transformation(ctx, kkind, xkind):
    ndofs, m, npn, nc, nn, dim = iv("ndofs"), iv("nimage"), iv("dofs_per_node"), iv("nconds"), iv("nnodes"), iv("dimension")
    maps(ndofs, m, npn, nc)
    ksort, xsort = R if kkind == "f" else I, R if xkind == "f" else I

    def call(W):
        return W.blo.bloch_transform_mat(
            SArr.var("k", (dim,), kkind), SArr.var("x", (nn, dim), xkind), ndofs, ints("nref", nc), ints("nima", nc),
            ints("ref", m), ints("ima", m), NodeDofs("rdof", npn), NodeDofs("idof", npn), ints("new", ndofs))
    cs = MCase(ctx, "any sizes" + (", integer wave vector" if kkind == "i" else "") + (", integer coordinates" if xkind == "i" else ""), call, nonneg(ndofs, m, npn, nc, nn, dim) + [tm.le(m, ndofs)], function="blochutil.bloch_transform_mat")

    def post(v, p):
        ok = isinstance(v, symarr.CooMat)
        yield {"form": [("sparse matrix", ok)]}
        if not ok:
            return
        yield {"form": [("a row per degree of freedom", v.shape[0], ndofs), ("a column per kept one", v.shape[1], ndofs - m)]}
        d, j, k, q, c = [tm.fresh(z, I) for z in "djkqc"]
        at = lambda n, *a: tm.app(n, list(a), I)
        yield {"kept": [("one at its new number", v.entry(d, j), tm.ite(tm.eq(at("new", d), j), ONE, ZERO),
                         within(d, ndofs) + within(j, ndofs - m) + [tm.not_(isim(m, d))])]}
        x = lambda n: tm.app("x", [n, c], xsort)
        theta = tm.bsum(c, ZERO, dim, tm.app("k", [c], ksort)*(x(at("nima", k)) - x(at("nref", k))))
        phase = tm.app("cis", [theta], R)
        row = at("idof", at("nima", k), q)
        yield {"images": [("phase times the reference", euler(v.entry(row, j)), euler(tm.ite(tm.eq(at("new", at("rdof", at("nref", k), q)), j), phase, ZERO)),
                           within(k, nc) + within(q, npn) + within(j, ndofs - m) + within(row, ndofs))]}
    cs.verify(post)


def lemmas(ctx):
    # term by term: the conjugate of the (i, j) term of entry (a, b) of T^H K T is the (j, i)
    # term of entry (b, a) when K is Hermitian (finite double sums may be taken in any order)
    P = {n: rv(n) for n in ("Tia_re", "Tia_im", "Tjb_re", "Tjb_im", "K_re", "K_im")}

    def mul(*zs):
        r = (ONE, ZERO)
        for a, b in zs:
            r = (r[0]*a - r[1]*b, r[0]*b + r[1]*a)
        return r
    cj = lambda z: (z[0], -z[1])
    Tia, Tjb, K = [(P[n + "_re"], P[n + "_im"]) for n in ("Tia", "Tjb", "K")]
    one, other = cj(mul(cj(Tia), K, Tjb)), mul(cj(Tjb), cj(K), Tia)
    lemma(ctx, "lemma/the reduced matrix is Hermitian when K is", equal=[("real part", one[0], other[0]), ("imaginary part", one[1], other[1])])
    c, dim = tm.fresh("c", I), iv("dimension")
    lemma(ctx, "lemma/no phase at zero wave vector", equal=[("angle", tm.bsum(c, ZERO, dim, ZERO*tm.app("x", [c], R)), ZERO)])
