"""Exact normal form of terms: polynomials with rational coefficients over
atoms (variables, applications, conditionals, reciprocals)."""
from fractions import Fraction
from vf import terms as tm
from vf.terms import T, R, I

ONE = ()
MAXTERMS = 60000


class TooBig(Exception):
    pass


def padd(a, b, k=1):
    if len(a) < len(b) and k == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + (c if k == 1 else k*c)
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted((x, e) for x, e in d.items() if e))


def pmul(a, b):
    if len(a)*len(b) > 4*MAXTERMS:
        raise TooBig()
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mmul(m1, m2)
            v = r.get(m, 0) + c1*c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    if len(r) > MAXTERMS:
        raise TooBig()
    return r


def pscale(a, k):
    return {m: c*k for m, c in a.items()} if k else {}


def ppow(a, n):
    r = {ONE: Fraction(1)}
    for _ in range(n):
        r = pmul(r, a)
    return r


# atoms: term id -> term ; reciprocal atoms have negative exponents of a
# "denominator atom": key -> polynomial
ATOM = {}
DEN = {}          # atom id (negative ints) -> polynomial of the denominator
_denkey = {}


def _atom(t):
    ATOM[t.id] = t
    return {((t.id, 1),): Fraction(1)}


def _inv(p):
    """polynomial of 1/p"""
    if not p:
        raise tm.Unsupported("division by zero polynomial")
    if len(p) == 1:
        (m, c), = p.items()
        return {tuple(sorted((x, -e) for x, e in m)): 1/c}
    # monic representative
    lead = max(p)
    c = p[lead]
    q = {m: v/c for m, v in p.items()}
    key = tuple(sorted(q.items()))
    i = _denkey.get(key)
    if i is None:
        i = -(len(_denkey) + 1)
        _denkey[key] = i
        DEN[i] = q
    return {((i, -1),): 1/c}


def poly(t):
    if t._poly is not None:
        return t._poly
    # iterative post-order to avoid deep recursion
    st = [t]
    while st:
        x = st[-1]
        if x._poly is not None:
            st.pop()
            continue
        if x.op in ("add", "mul", "div"):
            todo = [a for a in x.args if a._poly is None]
            if todo:
                st.extend(todo)
                continue
            a, b = (y._poly for y in x.args)
            if x.op == "add":
                x._poly = padd(a, b)
            elif x.op == "mul":
                x._poly = _reduce(pmul(a, b))
            else:
                x._poly = _reduce(pmul(a, _inv(b)))
        elif x.op == "const":
            x._poly = {ONE: x.args[0]} if x.args[0] else {}
        else:
            x._poly = _atom(x)
        st.pop()
    return t._poly


def _reduce(p):
    """sqrt(x)^2 -> x ; den*1/den cancels only in clear()"""
    hit = False
    for m in p:
        for x, e in m:
            if abs(e) >= 2 and x in ATOM and ATOM[x].op == "app" and ATOM[x].args[0] == "sqrt":
                hit = True
    if not hit:
        return p
    r = {}
    for m, c in p.items():
        f = {ONE: c}
        rest = []
        for x, e in m:
            a = ATOM.get(x)
            if abs(e) >= 2 and a is not None and a.op == "app" and a.args[0] == "sqrt":
                q = poly(a.args[1])
                n = abs(e)//2
                f = pmul(f, ppow(q if e > 0 else _inv(q), n))
                if abs(e) % 2:
                    rest.append((x, 1 if e > 0 else -1))
            else:
                rest.append((x, e))
        r = padd(r, pmul(f, {tuple(sorted(rest)): Fraction(1)}))
    return r


def pconst(p):
    if not p:
        return Fraction(0)
    if len(p) == 1 and ONE in p:
        return p[ONE]
    return None


def clear(ps):
    """multiply a list of polynomials by a common denominator; no negative exponents left"""
    ps = [dict(p) for p in ps]
    for _ in range(200):
        low = {}
        for p in ps:
            for m in p:
                for x, e in m:
                    if e < 0:
                        low[x] = min(low.get(x, 0), e)
        if not low:
            break
        x = min(low)            # newest denominators first
        k = -low[x]
        out = []
        for p in ps:
            r = {}
            if x < 0:
                q = DEN[x]
                powers = [{ONE: Fraction(1)}]
                groups = {}
                for m, c in p.items():
                    d = dict(m)
                    e = d.pop(x, 0)
                    groups.setdefault(e, {})[tuple(sorted(d.items()))] = c
                for e, g in groups.items():
                    while len(powers) <= k + e:
                        powers.append(pmul(powers[-1], q))
                    r = padd(r, pmul(g, powers[k + e]))
            else:
                r = {mmul(m, ((x, k),)): c for m, c in p.items()}
            out.append(_reduce(r))
        ps = out
    else:
        raise TooBig()
    return ps


TOL = Fraction(1, 10**11)


def equal(a, b, tol=TOL):
    """True: identical up to coefficients of relative size tol.  False: not (as
    normal forms).  Raises TooBig."""
    if a is b:
        return True
    pa, pb = poly(a), poly(b)
    if _near(pa, pb, tol):
        return True
    pa, pb = clear([pa, pb])
    return _near(pa, pb, tol)


def exact(a, b):
    pa, pb = clear([poly(a), poly(b)])
    return not padd(pa, pb, -1)


def _near(pa, pb, tol):
    d = padd(pa, pb, -1)
    if not d:
        return True
    if not tol:
        return False
    s = max([abs(c) for c in pa.values()] + [abs(c) for c in pb.values()])
    return all(abs(c) <= tol*s for c in d.values())


def term_of(p, sort=R):
    """polynomial back to a term (canonical)"""
    s = None
    for m, c in sorted(p.items()):
        if c.denominator == 1 and sort == I:
            t = tm._mk("const", (c,), I)
        else:
            t = tm._mk("const", (c,), I if c.denominator == 1 else R)
        for x, e in m:
            if x < 0:
                a = term_of(DEN[x], R)
            else:
                a = ATOM[x]
            for _ in range(abs(e)):
                t = tm.mul(t, a) if e > 0 else tm._rawdiv(t, a)
        s = t if s is None else tm.add(s, t)
    if s is None:
        s = tm._mk("const", (Fraction(0),), sort)
    return s


def renorm(t):
    """canonical representative of t"""
    try:
        p = poly(t)
    except TooBig:
        return t
    r = term_of(p, t.sort)
    if r._poly is None:
        r._poly = p
    return r
