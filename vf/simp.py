"""Simplification under facts and the prover for equalities between terms with
bounded sums, existentials and selections."""
from vf import terms as tm, smt
from vf.terms import T, R, I, B
from vf.poly import poly, exact, term_of, padd, pconst, ATOM, TooBig, ONE


class Budget(Exception):
    pass


def entails(facts, f, timeout=300):
    if f is tm.TRUE:
        return True
    return smt.valid(facts, f, timeout) == "proved"


def walk_ctx(t, f, facts, prune=False, timeout=300):
    """bottom-up rewriting with context.  f(term, facts) -> replacement or None is
    applied to variables and applications; the facts include the ranges of the
    enclosing binders and the conditions of the enclosing conditionals.  With
    prune, conditions decided by the facts are removed."""
    memo = {}

    def go(x, ctx):
        key = (x.id, ctx[0])
        r = memo.get(key)
        if r is None:
            r = memo[key] = ev(x, ctx)
        return r

    def sub(ctx, *fs):
        fs = [q for q in fs if q is not tm.TRUE]
        if not fs:
            return ctx
        return (ctx[0] + tuple(q.id for q in fs), ctx[1] + tuple(fs))

    def ev(x, ctx):
        op = x.op
        if op in ("const", "true", "false", "bvar", "nonfinite"):
            return x
        if op in tm.BINDERS:
            v = tm.fresh("b", I)
            lo, hi = go(x.args[1], ctx), go(x.args[2], ctx)
            b0 = tm._rename(x.args[3], x.args[0], v)
            c2 = sub(ctx, tm.le(lo, v), tm.lt(v, hi))
            b = go(b0, c2)
            if prune and op == "sum":
                y = collapse(v, lo, hi, b, c2[1], timeout)
                if y is not None:
                    return go(y, ctx)
            if prune and op == "last":
                y = only(v, lo, hi, b, ctx[1], c2[1], timeout)
                if y is not None:
                    return go(y, ctx)
            if lo is x.args[1] and hi is x.args[2] and b is b0:
                return x
            return mkbind(op, v, lo, hi, b)
        if op == "ite":
            c = go(x.args[0], ctx)
            if prune and c.op not in ("true", "false"):
                c = decide(c, ctx)
            if c is tm.TRUE:
                return go(x.args[1], ctx)
            if c is tm.FALSE:
                return go(x.args[2], ctx)
            return tm.ite(c, go(x.args[1], sub(ctx, c)), go(x.args[2], sub(ctx, tm.not_(c))))
        if op in ("lt", "le", "eq") and prune:
            r = tm.remake(x, tuple(go(a, ctx) for a in x.args))
            return decide(r, ctx)
        if op == "and":
            out, c2 = [], ctx
            for a in x.args:
                q = go(a, c2)
                if q is tm.FALSE:
                    return q
                out.append(q)
                c2 = sub(c2, q)
            return tm.and_(*out)
        if not any(isinstance(a, T) for a in x.args):
            r = x
        else:
            na = tuple(go(a, ctx) if isinstance(a, T) else a for a in x.args)
            r = x if all(p is q for p, q in zip(na, x.args)) else tm.remake(x, na)
        if prune and r.op == "app" and r.args[0] in ("idiv", "imod"):
            from vf import symarr
            q = symarr.split(r.args[1], r.args[2], lambda g: entails(list(ctx[1]), g, timeout))
            return q[0 if r.args[0] == "idiv" else 1]
        if r.op in ("var", "app") and f is not None:
            q = f(r, ctx[1])
            if q is not None:
                r = q
        return r

    def decide(c, ctx):
        if c.op in ("true", "false"):
            return c
        fs = list(ctx[1])
        if entails(fs, c, timeout):
            return tm.TRUE
        if entails(fs, tm.not_(c), timeout):
            return tm.FALSE
        return c
    return go(t, (tuple(q.id for q in facts), tuple(facts)))


def mkbind(op, v, lo, hi, b):
    if op == "sum":
        return mksum(v, lo, hi, b)
    if op == "exists":
        return mkexists(v, lo, hi, b)
    return tm.BINDERS[op](v, lo, hi, b)


def mksum(v, lo, hi, body):
    """bounded sum; constants out, selections eliminated"""
    from vf import symarr
    body = tm._num(tm._co(body))
    if body.op == "const" and body.args[0] == 0:
        return body
    if not tm.depends(body, v):
        return symarr.sumsimp(v, lo, hi, body)
    c, val = guarded(body)
    if c is not tm.TRUE:
        conj = c.args if c.op == "and" else (c,)
        for q in conj:
            if q.op != "eq" or not tm.depends(q, v):
                continue
            lr = symarr.linear(tm.add(q.args[0], tm.neg(q.args[1])), v)
            if lr is None:
                continue
            k = pconst(lr[0])
            if k not in (1, -1):
                continue
            rest = term_of(lr[1], I)
            if rest.sort != I:
                continue
            x = tm._normint(tm.neg(rest) if k == 1 else rest)
            if tm.depends(x, v):
                continue
            s = lambda t: tm.subst(t, {v: x})
            others = tm.and_(*[s(z) for z in conj if z is not q], tm.le(lo, x), tm.lt(x, hi))
            return tm.ite(others, s(val), tm.const(0))
        out = tm.and_(*[q for q in conj if not tm.depends(q, v)])
        if out is not tm.TRUE:
            inn = tm.and_(*[q for q in conj if tm.depends(q, v)])
            return tm.ite(out, mksum(v, lo, hi, tm.ite(inn, val, tm.const(0))), tm.const(0))
    return tm.bsum(v, lo, hi, body)


def unify(a, b, v, out):
    """terms that v must equal for a to be b, by matching applications"""
    if a is v:
        if not tm.depends(b, v):
            out.append(b)
    elif a.op == b.op == "app" and a.args[0] == b.args[0] and len(a.args) == len(b.args):
        for p, q in zip(a.args[1:], b.args[1:]):
            unify(p, q, v, out)


def collapse(v, lo, hi, body, facts, timeout=300):
    """a sum whose condition holds for one index only"""
    c, val = guarded(tm._num(tm._co(body)))
    if c is tm.TRUE:
        return None
    for q in c.args if c.op == "and" else (c,):
        if q.op != "eq" or not tm.depends(q, v):
            continue
        cands = []
        unify(q.args[0], q.args[1], v, cands)
        unify(q.args[1], q.args[0], v, cands)
        for x in cands:
            if x.sort == I and entails(list(facts) + [c], tm.eq(v, x), timeout):
                s = lambda t: tm.subst(t, {v: x})
                return tm.ite(tm.and_(tm.le(lo, x), tm.lt(x, hi), s(c)), s(val), tm.const(0))
    return None


def only(v, lo, hi, body, facts, inner, timeout=300):
    """the last index with a property when only one index has it"""
    for q in body.args if body.op == "and" else (body,):
        if q.op != "eq" or not tm.depends(q, v):
            continue
        cands = []
        unify(q.args[0], q.args[1], v, cands)
        unify(q.args[1], q.args[0], v, cands)
        for x in cands:
            if x.sort == I and entails(facts, tm.and_(tm.le(lo, x), tm.lt(x, hi), tm.subst(body, {v: x})), timeout) \
                    and entails(list(inner) + [body], tm.eq(v, x), timeout):
                return x
    return None


def mkexists(v, lo, hi, body):
    from vf import symarr
    conj = body.args if body.op == "and" else (body,)
    for q in conj:
        if q.op != "eq" or not tm.depends(q, v) or q.args[0].sort != I or q.args[1].sort != I:
            continue
        lr = symarr.linear(tm.add(q.args[0], tm.neg(q.args[1])), v)
        if lr is None or pconst(lr[0]) not in (1, -1):
            continue
        rest = term_of(lr[1], I)
        if rest.sort != I:
            continue
        x = tm._normint(tm.neg(rest) if pconst(lr[0]) == 1 else rest)
        if tm.depends(x, v):
            continue
        return tm.and_(*[tm.subst(z, {v: x}) for z in conj if z is not q], tm.le(lo, x), tm.lt(x, hi))
    return tm.exists(v, lo, hi, body)


def guarded(t):
    """t as [c]*val"""
    c = tm.TRUE
    while t.op == "ite" and t.args[2].op == "const" and t.args[2].args[0] == 0:
        c = tm.and_(c, t.args[0])
        t = t.args[1]
    return c, t


def simplify(t, facts, timeout=300):
    return walk_ctx(t, None, facts, prune=True, timeout=timeout)


def indicator_sums(t):
    """in sums, ite(c, a, b) with constants a, b as b + (a - b)*[c], and the part
    of a summand that does not depend on the index taken out of the sum"""
    memo = {}

    def body(x):
        """linear part: conditionals between constants as indicators"""
        if x.op == "ite" and x.sort != B and x.args[1].op == "const" and x.args[2].op == "const":
            c, a, b = x.args
            a, b = tm._num(a), tm._num(b)
            while c.op == "not":
                c, a, b = c.args[0], b, a
            return tm.add(b, tm.mul(tm.ite(c, tm.const(1), tm.const(0)), tm.add(a, tm.neg(b))))
        if x.op in ("add", "mul"):
            return tm.remake(x, tuple(body(a) for a in x.args))
        return x

    def go(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        if x.op == "sum":
            bv, lo, hi, b = x.args
            v = tm.fresh("v", I)
            p = poly(body(go(tm._num(tm.instantiate(x, v)))))
            out, rest = None, {}
            for m, c in p.items():
                if any(v.id in tm.fv(ATOM[q]) if q in ATOM else True for q, _ in m):
                    rest[m] = c
                    continue
                n = tm.ite(tm.le(lo, hi), tm.add(hi, tm.neg(lo)), tm.const(0))
                e = tm.mul(term_of({m: c}, R), n)
                out = e if out is None else tm.add(out, e)
            r = x if out is None and not rest else tm.bsum(v, lo, hi, term_of(rest, R)) if rest else tm.const(0)
            r = r if out is None else tm.add(r, out)
        elif x.sort != B and x.args and any(isinstance(a, tm.T) and a.sort != B for a in x.args) and x.op in (
                "add", "mul", "ite", "div"):
            r = tm.remake(x, tuple(go(a) if isinstance(a, tm.T) and a.sort != B else a for a in x.args))
        else:
            r = x
        memo[x.id] = r
        return r
    return go(t)


def order_sums(t):
    """nested sums over independent ranges: the range with the smaller key outside (Fubini for finite sums)"""
    memo = {}

    def key(lo, hi):
        return (lo.id, hi.id)

    def swap(v, lo, hi, body):
        try:
            p = poly(tm._num(tm._co(body)))
        except TooBig:
            return tm.bsum(v, lo, hi, body)
        rest, out = {}, None
        for m, c in p.items():
            ss = [x for x, e in m if x in ATOM and ATOM[x].op == "sum" and e == 1]
            a = ATOM[ss[0]] if len(ss) == 1 else None
            if a is None or tm.depends(a.args[1], v) or tm.depends(a.args[2], v) or \
                    key(lo, hi) <= key(a.args[1], a.args[2]):
                rest[m] = c
                continue
            co = term_of({tuple(q for q in m if q[0] != ss[0]): c}, R)
            w = tm.fresh("w", I)
            inner = swap(v, lo, hi, tm.mul(co, tm._num(tm._rename(a.args[3], a.args[0], w))))
            x = tm.bsum(w, a.args[1], a.args[2], inner)
            out = x if out is None else tm.add(out, x)
        if out is None:
            return tm.bsum(v, lo, hi, body)
        if rest:
            out = tm.add(out, tm.bsum(v, lo, hi, term_of(rest, R)))
        return out

    def go(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        if x.op in tm.BINDERS:
            v = tm.fresh("v", I)
            lo, hi = go(x.args[1]), go(x.args[2])
            b0 = tm._rename(x.args[3], x.args[0], v)
            b = go(b0)
            if x.op == "sum" and b.op == "ite" and isinstance(b.args[2], T) and b.args[2] is tm.const(0) and \
                    b.args[1].op == "sum":
                # condition on the outer index only: into the inner sum
                a = b.args[1]
                w = tm.fresh("w", I)
                b = tm.bsum(w, a.args[1], a.args[2], tm.ite(
                    b.args[0], tm._num(tm._rename(a.args[3], a.args[0], w)), tm.const(0)))
            if x.op == "sum":
                r = swap(v, lo, hi, b)
                if r.op == "sum" and lo is x.args[1] and hi is x.args[2] and b is b0 and r is tm.bsum(v, lo, hi, b0):
                    r = x
            else:
                r = x if lo is x.args[1] and hi is x.args[2] and b is b0 else tm.BINDERS[x.op](v, lo, hi, b)
        elif not any(isinstance(a, T) for a in x.args):
            r = x
        else:
            na = tuple(go(a) if isinstance(a, T) else a for a in x.args)
            r = x if all(p is q for p, q in zip(na, x.args)) else tm.remake(x, na)
        memo[x.id] = r
        return r
    return go(t)


def peel(p, facts):
    """sums over ranges whose ends are a constant apart: the longer as the shorter and single terms"""
    sums = list({x: ATOM[x] for m in p for x, e in m if x in ATOM and ATOM[x].op == "sum"}.values())
    for a in sums:
        for b in sums:
            if a is b:
                continue
            try:
                dl = pconst(poly(tm.add(b.args[1], tm.neg(a.args[1]))))
                dh = pconst(poly(tm.add(a.args[2], tm.neg(b.args[2]))))
            except TooBig:
                continue
            if dl is None or dh is None or not (0 <= dl <= 4 and 0 <= dh <= 4 and dl + dh > 0):
                continue
            if not entails(facts, tm.le(b.args[1], b.args[2]), 500):
                continue
            v = tm.fresh("v", I)
            bv = tm._rename(a.args[3], a.args[0], v)
            body = lambda t: tm.subst(bv, {v: t})
            t = mksum(v, b.args[1], b.args[2], bv)
            for i in range(int(dl)):
                t = tm.add(t, tm._num(body(tm._normint(tm.add(a.args[1], tm.const(i))))))
            for i in range(int(dh)):
                t = tm.add(t, tm._num(body(tm._normint(tm.add(b.args[2], tm.const(i))))))
            d = term_of(p, R)
            return tm.subst(d, {a: t})
    return None


# ------------------------------------------------------------------ prover
class Prover:
    """proves g == w under facts"""
    def __init__(self, facts, timeout=2000, budget=400):
        self.facts, self.timeout, self.budget = list(facts), timeout, budget
        self.used = set()

    def equal(self, g, w, facts=None):
        facts = self.facts if facts is None else facts
        d = tm.add(tm._num(tm._co(g)), tm.neg(tm._num(tm._co(w))))
        start = self.budget
        try:
            if self.zero(d, facts, 0):
                return True
        except (Budget, TooBig):
            return False
        # finite sums over independent ranges in one order; sums of constants apart
        for form in (order_sums, indicator_sums):
            try:
                d2 = form(d)
                if d2 is d:
                    continue
                self.budget = start
                if self.zero(d2, facts, 0):
                    return True
            except (Budget, TooBig):
                continue
        return False

    def formula(self, f, facts=None):
        facts = self.facts if facts is None else facts
        if entails(facts, f, self.timeout):
            self.used.add("z3")
            return True
        f2 = simplify(f, facts)
        if f2 is tm.TRUE or entails(facts, f2, self.timeout):
            self.used.add("z3")
            return True
        return False

    def zero(self, d, facts, depth):
        self.budget -= 1
        if self.budget < 0:
            raise Budget()
        p = poly(d)
        if not p:
            self.used.add("normal form")
            return True
        if entails(facts, tm.FALSE, 300):
            self.used.add("z3")
            return True
        if not has_sum(p):
            if self.indicators(d):
                return True
            if entails(facts, tm.eq(d, tm.const(0)), self.timeout):
                self.used.add("z3")
                return True
            # nonlinear conditionals: prune and use the normal form
            d2 = simplify(d, facts)
            p2 = poly(d2)
            if not p2:
                self.used.add("normal form")
                return True
            if depth < 9:
                c = pick(p2)
                if c is not None:
                    return self.split(d2, c, facts, depth)
            # common denominator, squares of square roots
            if exact(d2, tm.const(0)):
                self.used.add("normal form")
                return True
            return False
        if depth == 0 or depth > 6:
            if entails(facts, tm.eq(d, tm.const(0)), 300):
                self.used.add("z3")
                return True
        d2 = simplify(d, facts)
        p = poly(d2)
        if not p:
            self.used.add("normal form")
            return True
        if depth < 9:
            c = pick(p)
            if c is not None:
                return self.split(d2, c, facts, depth)
        # bounds a few apart: split off the terms in between
        d3 = peel(p, facts)
        if d3 is not None:
            return self.zero(d3, facts, depth)
        # linear combination of sums
        groups, rest = {}, {}
        for m, c in p.items():
            sums = [x for x, e in m if x in ATOM and ATOM[x].op == "sum"]
            if len(sums) > 1 or any(e != 1 for x, e in m if x in sums):
                return False
            if not sums:
                rest[m] = c
                continue
            s = ATOM[sums[0]]
            co = term_of({tuple(q for q in m if q[0] != sums[0]): c}, R)
            groups.setdefault((s.args[1].id, s.args[2].id), []).append((co, s))
        if not groups:
            if not has_sum(p):
                return self.zero(term_of(rest, R), facts, depth + 1)
            if entails(facts, tm.eq(d2, tm.const(0)), self.timeout):
                self.used.add("z3")
                return True
            return self.indicators(d2)
        if rest:
            # the part without sums must vanish by itself
            if not self.zero(term_of(rest, R), facts, depth + 1):
                return False
        keys = list(groups)
        # bounds provably equal
        for i in range(len(keys)):
            for j in range(i):
                if keys[i] in groups and keys[j] in groups:
                    a, b = groups[keys[i]][0][1], groups[keys[j]][0][1]
                    if entails(facts, tm.and_(tm.eq(a.args[1], b.args[1]), tm.eq(a.args[2], b.args[2])), 500):
                        groups[keys[j]] += groups.pop(keys[i])
        for k, xs in groups.items():
            lo, hi = xs[0][1].args[1:3]
            v = tm.fresh("v", I)
            tot = tm.const(0)
            for co, s in xs:
                tot = tm.add(tot, tm.mul(co, tm.instantiate(s, v)))
            if not self.zero(tot, facts + [tm.le(lo, v), tm.lt(v, hi)], depth + 1):
                return False
        self.used.add("sum congruence")
        return True

    def indicators(self, d):
        """conditionals as products with indicators, common denominators"""
        memo = {}

        def go(x):
            r = memo.get(x.id)
            if r is None:
                if x.op == "ite" and x.sort != B:
                    c, a, b = x.args
                    if x.args[1].op == "const" and x.args[2].op == "const":
                        one = tm.ite(c, tm.const(1), tm.const(0))
                        a, b = tm._num(a), tm._num(b)
                    else:
                        one = tm.ite(c, tm.const(1), tm.const(0))
                        a, b = go(a), go(b)
                    r = tm.add(b, tm.mul(one, tm.add(a, tm.neg(b))))
                elif x.op in ("add", "mul"):
                    r = tm.remake(x, tuple(go(a) for a in x.args))
                elif x.op == "div":
                    r = tm._rawdiv(go(x.args[0]), x.args[1])
                else:
                    r = x
                memo[x.id] = r
            return r
        try:
            ok = exact(go(d), tm.const(0))
        except TooBig:
            return False
        if ok:
            self.used.add("normal form")
        return ok

    def split(self, d, c, facts, depth):
        for h in (c, tm.not_(c)):
            fs = facts + [h]
            if smt.check(fs, 500)[0] == "unsat":
                self.used.add("z3")
                continue
            if not self.zero(simplify(d, fs), fs, depth + 1):
                return False
        return True


def has_sum(p):
    for m in p:
        for x, e in m:
            a = ATOM.get(x)
            if a is not None and any(s.op == "sum" for s in tm.subterms(a)):
                return True
    return False


def pick(p):
    """condition of a conditional atom (outside sums)"""
    best = None
    for m in p:
        for x, e in m:
            a = ATOM.get(x)
            if a is not None and a.op == "ite":
                c = a.args[0]
                # an atomic condition is the best case split
                q = c
                while q.op in ("and", "or", "not"):
                    q = q.args[0]
                if not smt._has_bvar(q):
                    return q
    return best
