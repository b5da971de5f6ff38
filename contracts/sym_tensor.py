"""Contracts of the principal-value routines (C19)."""
from fractions import Fraction as Q
import numpy as np
from vf import terms as tm, poly as pl, exec as ex, symnp
from vf.terms import R, I, T
from vf.symnp import NP
from vf.contract import Case, rv, iv, arr, variables_of, pairs, raw, lemma, Result, merge
from vf.symrun import group
from contracts.sym_elements import rp


def _nan(x):
    return isinstance(x, float) and x != x or isinstance(x, T) and x.op == "nonfinite"


def _tensor(a, b, c):
    return NP.array([[a, b], [b, c]])


def _sampler(a, b, c):
    def s(rng):
        k = rng.random()
        sc = 10**rng.uniform(-8, 3)
        if a.sort == I:
            return {v: rng.choice([0, rng.randint(-3, 3), rng.randint(-1000, 1000)]) for v in (a, b, c)}
        e = {v: rng.uniform(-1, 1)*sc for v in (a, b, c)}
        if k < .15:
            e[b] = 0.0
        elif k < .25:
            e[b] *= 1e-7
        elif k < .35:
            e[c] = e[a]
        elif k < .45:
            e[c] = -e[a]
        elif k < .5:
            e[a] = e[c] = 0.0
        return e
    return s


@group("C19", ["postprocesor.eigvals"], limit=200)
def eigenvalues(ctx):
    for nm, tol, mk in (("default tolerance", None, rv), ("tolerance 1e-9", 1e-9, rv), ("integer tensor", None, iv)):
        a, b, c = mk("a"), mk("b"), mk("c")
        absmax = symnp.smax(symnp.smax(tm.absv(a), tm.absv(b)), tm.absv(c))
        t = tm.const(1e-6 if tol is None else tol)

        def call(W):
            A = _tensor(a, b, c)
            return W.pos.eigvals(A) if tol is None else W.pos.eigvals(A, tol)

        def replay(w):
            return rp("tensors", M=np.array([[w["a"], w["b"]], [w["b"], w["c"]]]), tol=tol)
        cs = Case(ctx, nm, call, [], [a, b, c], _sampler(a, b, c), function="postprocesor.eigvals", replay=replay)

        def post(v, p):
            if not isinstance(v, tuple) or len(v) != 4:
                return Result("refuted", "path exploration", "does not return four values", {})
            e1, e2 = tm._co(v[0]), tm._co(v[1])
            v1, v2 = [list(raw(x).flat) for x in v[2:]]
            if len(v1) != 2 or len(v2) != 2 or e1 is None or e2 is None:
                return Result("refuted", "path exploration", "shapes", {})
            z = tm.const(0)
            if any(_nan(x) for x in v1 + v2):
                if not all(_nan(x) for x in v1 + v2):
                    return Result("unknown", "", "partly undefined directions")
                return [("undefined directions only below the tolerance", tm.le(absmax, t)),
                        ("zero", e1, z), ("zero", e2, z)]
            v1, v2 = [tm._co(x) for x in v1], [tm._co(x) for x in v2]
            out = [("a tensor below the tolerance has undefined directions", tm.le(t, absmax)),
                   ("larger magnitude first", tm.le(tm.absv(e2), tm.absv(e1))),
                   ("unit 1", v1[0]*v1[0] + v1[1]*v1[1], tm.const(1)),
                   ("unit 2", v2[0]*v2[0] + v2[1]*v2[1], tm.const(1)),
                   ("orthogonal", v1[0]*v2[0] + v1[1]*v2[1], z)]
            if all(x.op == "const" for x in v1 + v2):
                # off-diagonal term neglected
                out.append(("neglected only below the relative tolerance", tm.le(tm.absv(b), t*absmax)))
                bb = z
            else:
                bb = b
            for e, v in ((e1, v1), (e2, v2)):
                out += [("A v = e v (row 0)", a*v[0] + bb*v[1], e*v[0]), ("A v = e v (row 1)", bb*v[0] + c*v[1], e*v[1])]
            return out
        cs.verify(post)
    # A V = V D and V^T V = I give A = V D V^T: V V^T = I for a square V
    v = arr("v", (2, 2)).raw()
    gram = [tm.eq(v[0, i]*v[0, j] + v[1, i]*v[1, j], tm.const(int(i == j))) for i in range(2) for j in range(i + 1)]
    for i in range(2):
        for j in range(i + 1):
            lemma(ctx, "lemma/orthonormal columns are orthonormal rows %d%d" % (i, j),
                  goal=tm.eq(v[i, 0]*v[j, 0] + v[i, 1]*v[j, 1], tm.const(int(i == j))), facts=gram)


@group("C19", ["postprocesor.principal_dirs"], limit=100)
def tensor_field(ctx):
    """every node's values and directions are those eigvals gives for its tensor"""
    from vf import symarr, smt
    from vf.symarr import SArr
    from vf.contract import MCase
    from contracts.sym_mesh import nonneg, within, ONE, ZERO
    smt.SCHEMAS.clear()
    num, cols = iv("num"), iv("cols")
    rows = []
    names = ("eig1", "eig2", "vec1_0", "vec1_1", "vec2_0", "vec2_1")

    def eigvals(mat, tol=1e-6):
        # contract: functions of the three components and the tolerance
        m = raw(mat)
        if m.shape != (2, 2):
            raise tm.Unsupported("tensor of shape %s" % (m.shape,))
        rows.append((m[0, 1], m[1, 0], tol))
        r = [tm.app(n, [tm._co(m[0, 0]), tm._co(m[1, 1]), tm._co(m[0, 1])], R) for n in names]
        return r[0], r[1], NP.array(r[2:4]), NP.array(r[4:6])
    for kind in "fi":
        for w in (3,):
            wv = 3 if w == 3 else cols
            assume = nonneg(num) + ([tm.le(tm.const(3), cols)] if w != 3 else [])

            def call(W):
                rows.clear()
                F = SArr.var("field", (num, wv), kind)
                return W.pos.principal_dirs(F), list(rows)
            cs = MCase(ctx, "%s field%s" % ({"f": "real", "i": "integer"}[kind], "" if w == 3 else " with more columns"),
                       call, assume, function="postprocesor.principal_dirs", stubs={"postprocesor.eigvals": eigvals})

            def post(v, p):
                v, rows = v
                ok = isinstance(v, tuple) and len(v) == 4
                yield {"form": [("four arrays", ok)]}
                if not ok:
                    return
                i = tm.fresh("i", I)
                f = within(i, num)
                F = lambda c: tm.app("field", [i, tm.const(c)], R if kind == "f" else I)
                want = [tm.app(n, [F(0), F(1), F(2)], R) for n in names]
                for k, (a, n) in enumerate(zip(v, (1, 1, 2, 2))):
                    yield {"form": [("rows", a.shape[0], num), ("axes", len(a.shape) == n)] +
                           ([("two columns", tm._co(a.shape[1]), tm.const(2))] if n == 2 and len(a.shape) == 2 else [])}
                    if len(a.shape) != n:
                        continue
                    for c in range(n):
                        at = a.at(i) if n == 1 else a.at(i, tm.const(c))
                        yield {"nodes": [("value", at, want[k if n == 1 else 2 + 2*(k - 2) + c], f)]}
                for b, d, tol in rows:
                    d = tm._co(d)
                    ok = tm._co(b) is d or (d.op == "const" and d.args[0] == 0)
                    yield {"precondition of eigvals": [("lower component is the upper one, or zero", ok),
                                                       ("tolerance", tm._co(tol), tm.const(1e-6))]}
            cs.verify(post)
    # the lower component of the argument is not looked at
    a, b, c = rv("a"), rv("b"), rv("c")

    def both(W):
        return W.pos.eigvals(_tensor(a, b, c)), W.pos.eigvals(NP.array([[a, b], [ZERO, c]]))
    cs = MCase(ctx, "eigvals reads the upper triangle", both, [], function="postprocesor.eigvals")

    def post(v, p):
        for x, y in zip(*v):
            for s, t in zip(raw(x).flat, raw(y).flat):
                if _nan(s) or _nan(t):
                    yield ("undefined", _nan(s) and _nan(t))
                else:
                    yield ("same", s, t)
    cs.verify(post)
