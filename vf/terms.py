"""Term language of the verifier: hash-consed first-order terms over reals,
integers and booleans, with bounded sums, quantifiers and uninterpreted
applications.  Every Python/NumPy scalar that depends on a symbolic input is a
``T``; all arithmetic is exact (floats of the source become the rational number
they denote)."""
from fractions import Fraction
import numbers

R, I, B = "R", "I", "B"


class Unsupported(BaseException):
    """The construct is outside the verifier's subset: undecided, not refuted."""


class PathAbort(BaseException):
    """Internal: the current path is infeasible or finished."""


_tab = {}
_counter = [0]
_hooks = {"decide": None, "divsafe": None, "listmul": None, "values": None}


class T:
    __slots__ = ("op", "args", "sort", "id", "_poly", "_fv", "__weakref__")

    # numpy object arrays treat us as scalars
    def __hash__(self):
        return self.id

    def __repr__(self):
        return show(self)

    # ---- arithmetic
    def __add__(self, o):
        o = _co(o)
        return NotImplemented if o is None else add(self, o)
    __radd__ = lambda self, o: (NotImplemented if (q := _co(o)) is None else add(q, self))

    def __sub__(self, o):
        o = _co(o)
        return NotImplemented if o is None else add(self, neg(o))

    def __rsub__(self, o):
        o = _co(o)
        return NotImplemented if o is None else add(o, neg(self))

    def __mul__(self, o):
        if isinstance(o, complex):
            return imul(self, o)
        if isinstance(o, list):
            return _hooks["listmul"](o, self)
        o = _co(o)
        return NotImplemented if o is None else mul(self, o)

    def __rmul__(self, o):
        if isinstance(o, complex):
            return imul(self, o)
        if isinstance(o, list):
            return _hooks["listmul"](o, self)
        o = _co(o)
        return NotImplemented if o is None else mul(o, self)

    def __truediv__(self, o):
        o = _co(o)
        return NotImplemented if o is None else div(self, o)

    def __rtruediv__(self, o):
        o = _co(o)
        return NotImplemented if o is None else div(o, self)

    def __floordiv__(self, o):
        o = _co(o)
        return NotImplemented if o is None else idiv(self, o)

    def __rfloordiv__(self, o):
        o = _co(o)
        return NotImplemented if o is None else idiv(o, self)

    def __mod__(self, o):
        o = _co(o)
        return NotImplemented if o is None else imod(self, o)

    def __rmod__(self, o):
        o = _co(o)
        return NotImplemented if o is None else imod(o, self)

    def __divmod__(self, o):
        return self // o, self % o

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return absv(self)

    def __pow__(self, n):
        if isinstance(n, T) and n.op == "const":
            n = n.args[0]
        if isinstance(n, float) and n.is_integer():
            n = int(n)
        if isinstance(n, Fraction) and n.denominator == 1:
            n = int(n)
        if n in (0.5, Fraction(1, 2)):
            return sqrt(self)
        if isinstance(n, (float, Fraction)) and 2*n == int(2*n) and n > 0:
            return power(sqrt(self), int(2*n))
        if isinstance(n, numbers.Integral):
            n = int(n)
            if n >= 0:
                return power(self, n)
            return div(const(1), power(self, -n))
        raise Unsupported("power with exponent %r" % (n,))

    def __rpow__(self, o):
        raise Unsupported("symbolic exponent")

    # ---- comparisons build formulas
    def __lt__(self, o):
        return _cmp("lt", self, o)

    def __le__(self, o):
        return _cmp("le", self, o)

    def __gt__(self, o):
        return _cmp("lt", o, self)

    def __ge__(self, o):
        return _cmp("le", o, self)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return FALSE
        return _cmp("eq", self, o)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return TRUE
        r = _cmp("eq", self, o)
        return r if r is NotImplemented else not_(r)

    def __and__(self, o):
        if self.sort == B:
            return and_(self, _co(o))
        raise Unsupported("bitwise and")
    __rand__ = __and__

    def __or__(self, o):
        if self.sort == B:
            return or_(self, _co(o))
        raise Unsupported("bitwise or")
    __ror__ = __or__

    def __invert__(self):
        if self.sort == B:
            return not_(self)
        raise Unsupported("bitwise not")

    def __bool__(self):
        if self.sort == B:
            f = self
        else:
            f = not_(_cmp("eq", self, 0))
        if f is TRUE:
            return True
        if f is FALSE:
            return False
        return _hooks["decide"](f)

    def __index__(self):
        if self.op == "const" and self.args[0].denominator == 1:
            return int(self.args[0])
        if self.sort == I and _hooks["values"]:
            vals = _hooks["values"](self)
            if vals:
                for v in vals[:-1]:
                    if eq(self, const(v)):
                        return v
                return vals[-1]
        raise Unsupported("symbolic value used as a concrete index: %s" % show(self))

    def __int__(self):
        if self.op == "const":
            return int(self.args[0])
        raise Unsupported("int() of a symbolic value")

    def __float__(self):
        if self.op == "const":
            return float(self.args[0])
        raise Unsupported("float() of a symbolic value")

    def __complex__(self):
        return complex(float(self))

    def __round__(self, n=None):
        return rounded(self, n)

    def __floor__(self):
        return floor(self)

    def __ceil__(self):
        return ceil(self)

    def __trunc__(self):
        import vf.symnp as sn
        return sn.trunc(self)

    # numpy object ufunc hooks
    def sqrt(self):
        return sqrt(self)

    def exp(self):
        if self.op == "app" and self.args[0] == "I*":
            return app("cis", (self.args[1],), R)
        return app("exp", (self,), R)

    def cos(self):
        return app("cos", (self,), R)

    def sin(self):
        return app("sin", (self,), R)

    def conjugate(self):
        if mentions_cis(self):
            raise Unsupported("conjugate of complex")
        return self

    def conj(self):
        return self.conjugate()

    @property
    def real(self):
        if mentions_cis(self):
            raise Unsupported("real part of complex")
        return self

    @property
    def T(self):
        return self

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, dt, **kw):
        import vf.symnp as sn
        return sn.cast(self, sn.norm_dtype(dt))

    def dot(self, o):
        return self * o

    def is_integer(self):
        return self.sort == I

    def any(self):
        return self

    def all(self):
        return self

    def __format__(self, spec):
        return "<sym>"


def mentions_cis(t):
    return any(s.op == "app" and s.args[0] in ("cis", "I*") for s in subterms(t))


def _mk(op, args, sort):
    key = (op, sort, tuple(("t", a.id) if isinstance(a, T) else a for a in args))
    t = _tab.get(key)
    if t is None:
        t = object.__new__(T)
        t.op, t.args, t.sort = op, tuple(args), sort
        _counter[0] += 1
        t.id = _counter[0]
        t._poly = None
        t._fv = None
        _tab[key] = t
    return t


def const(x):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, numbers.Integral):
        return _mk("const", (Fraction(int(x)),), I)
    if isinstance(x, Fraction):
        return _mk("const", (x,), R)
    if isinstance(x, (float, numbers.Real)):
        x = float(x)
        if x != x or x in (float("inf"), float("-inf")):
            return _mk("nonfinite", (repr(x),), R)
        return _mk("const", (Fraction(x),), R)
    raise TypeError(x)


def _co(x):
    """coerce a Python/NumPy scalar; None when it is not one"""
    if isinstance(x, T):
        return x
    if isinstance(x, (bool, numbers.Integral, Fraction, float)):
        return const(x)
    try:
        import numpy as np
        if isinstance(x, np.bool_):
            return const(bool(x))
        if isinstance(x, np.generic) and not isinstance(x, np.complexfloating):
            return const(x.item())
    except ImportError:
        pass
    return None


TRUE = _mk("true", (), B)
FALSE = _mk("false", (), B)


def var(name, sort):
    return _mk("var", (name,), sort)


_fresh = [0]


def fresh(name, sort):
    _fresh[0] += 1
    return var("%s#%d" % (name, _fresh[0]), sort)


def app(name, args, sort):
    args = tuple(_normint(_co(a)) for a in args)
    return _mk("app", (name,) + args, sort)


def _normint(a):
    if a.sort == I and a.op in ("add", "mul"):
        from vf.poly import renorm
        return renorm(a)
    if a.sort == R and a.op == "const" and a.args[0].denominator == 1:
        return a
    return a


def is_const(t):
    return t.op == "const"


def val(t):
    return t.args[0]


def _num(a):
    if a.sort == B:
        return ite(a, const(1), const(0))
    return a


def add(a, b):
    a, b = _num(a), _num(b)
    s = I if a.sort == I and b.sort == I else R
    if a.op == "const" and b.op == "const":
        return _mk("const", (a.args[0] + b.args[0],), s)
    if a.op == "const" and a.args[0] == 0 and b.sort == s:
        return b
    if b.op == "const" and b.args[0] == 0 and a.sort == s:
        return a
    return _mk("add", (a, b), s)


def neg(a):
    a = _num(a)
    if a.op == "const":
        return _mk("const", (-a.args[0],), a.sort)
    return mul(_mk("const", (Fraction(-1),), I), a)


def mul(a, b):
    a, b = _num(a), _num(b)
    s = I if a.sort == I and b.sort == I else R
    if a.op == "const" and b.op == "const":
        return _mk("const", (a.args[0]*b.args[0],), s)
    for x, y in ((a, b), (b, a)):
        if x.op == "const":
            if x.args[0] == 0:
                return _mk("const", (Fraction(0),), s)
            if x.args[0] == 1 and y.sort == s:
                return y
    return _mk("mul", (a, b), s)


def power(a, n):
    r = const(1)
    for _ in range(n):
        r = mul(r, a)
    return r


def div(a, b):
    a, b = _num(a), _num(b)
    if b.op == "const":
        if b.args[0] == 0:
            if a.op == "const":
                raise ZeroDivisionError("division by zero")
            _hooks["divsafe"](b)
            raise Unsupported("division by the constant zero")
        if a.op == "const":
            return _mk("const", (a.args[0]/b.args[0],), R)
        return mul(_mk("const", (1/b.args[0],), R), a)
    if _hooks["divsafe"] is not None:
        _hooks["divsafe"](b)
    if a.op == "const" and a.args[0] == 0:
        return _mk("const", (Fraction(0),), R)
    return _mk("div", (a, b), R)


def idiv(a, b):
    if a.op == "const" and b.op == "const":
        return _mk("const", (Fraction(a.args[0] // b.args[0]),), I)
    if a.sort != I or b.sort != I:
        raise Unsupported("floor division of reals")
    return _hooks["split"](a, b)[0] if "split" in _hooks else app("idiv", (a, b), I)


def imod(a, b):
    if a.op == "const" and b.op == "const":
        return _mk("const", (Fraction(a.args[0] % b.args[0]),), I)
    if a.sort != I or b.sort != I:
        raise Unsupported("modulo of reals")
    return _hooks["split"](a, b)[1] if "split" in _hooks else app("imod", (a, b), I)


def absv(a):
    if mentions_cis(a):
        raise Unsupported("absolute value of complex")
    if a.op == "const":
        return _mk("const", (abs(a.args[0]),), a.sort)
    return ite(_cmp("le", const(0), a), a, neg(a))


def floor(a):
    """the largest integer not above a"""
    if a.sort == I:
        return a
    if a.op == "const":
        return const(a.args[0].numerator//a.args[0].denominator)
    return app("floor", (a,), I)


def ceil(a):
    return a if a.sort == I else neg(floor(neg(a)))


def rint(a):
    """the nearest integer, halves to the even one"""
    if a.sort == I:
        return a
    if a.op == "const":
        return const(round(a.args[0]))
    return app("rint", (a,), I)


def rounded(a, n=None):
    a = _co(a)
    if n is None:
        return rint(a)
    n = int(n)
    if a.sort == I and n >= 0:
        return a
    if mentions_cis(a):
        raise Unsupported("round() of a complex value")
    q = Fraction(10)**n
    return mul(_num(rint(mul(a, const(q)))), const(1/q))


def sqrt(a):
    if a.op == "const":
        q = a.args[0]
        if q >= 0:
            import math
            n, d = math.isqrt(q.numerator), math.isqrt(q.denominator)
            if n*n == q.numerator and d*d == q.denominator:
                return const(Fraction(n, d))
            return const(Fraction(math.sqrt(float(q))))
    return _mk("app", ("sqrt", a), R)


def imul(t, z):
    if z.real != 0:
        raise Unsupported("complex arithmetic")
    return app("I*", (mul(const(Fraction(z.imag)), t),), R)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    a, b = _co(a), _co(b)
    if a is b:
        return a
    if a.sort == B and b.sort == B:
        return or_(and_(c, a), and_(not_(c), b))
    s = I if a.sort == I and b.sort == I else R
    return _mk("ite", (c, a, b), s)


def _cmp(op, a, b):
    a, b = _co(a), _co(b)
    if a is None or b is None:
        return NotImplemented
    if op == "eq" and a.sort == B and b.sort == B:
        if a is b:
            return TRUE
        return or_(and_(a, b), and_(not_(a), not_(b)))
    a, b = _num(a), _num(b)
    if a.op == "const" and b.op == "const":
        x, y = a.args[0], b.args[0]
        r = x < y if op == "lt" else x <= y if op == "le" else x == y
        return TRUE if r else FALSE
    if "nonfinite" in (a.op, b.op):
        raise Unsupported("comparison with a non-finite value")
    if a is b:
        return FALSE if op == "lt" else TRUE
    if a.sort == I and b.sort == I:
        from vf.poly import poly, pconst
        d = poly(add(a, neg(b)))
        c = pconst(d)
        if c is not None:
            r = c < 0 if op == "lt" else c <= 0 if op == "le" else c == 0
            return TRUE if r else FALSE
    if op == "eq" and a.id > b.id:
        a, b = b, a
    return _mk(op, (a, b), B)


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    return _mk("not", (a,), B)


def and_(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        for y in (x.args if x.op == "and" else (x,)):
            if not any(y is z for z in out):
                out.append(y)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _mk("and", tuple(out), B)


def or_(*xs):
    out = []
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        for y in (x.args if x.op == "or" else (x,)):
            if not any(y is z for z in out):
                out.append(y)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return _mk("or", tuple(out), B)


def implies(a, b):
    return or_(not_(a), b)


def eq(a, b):
    return _cmp("eq", a, b)


def lt(a, b):
    return _cmp("lt", a, b)


def le(a, b):
    return _cmp("le", a, b)


# ---- binders.  Bound variables are canonical ("%sum<depth>") so that
# alpha-equivalent terms are the same object.
def _bdepth(t):
    d = 0
    for s in subterms(t):
        if s.op == "bvar":
            d = max(d, s.args[1] + 1)
    return d


def bvar(depth):
    return _mk("bvar", ("b", depth), I)


def _bind(op, v, lo, hi, body, sort):
    lo, hi = _co(lo), _co(hi)
    d = _bdepth(body)
    bv = bvar(d)
    body = _tobvar(body, v, bv)
    return _mk(op, (bv, lo, hi, body), sort)


def _tobvar(body, v, bv):
    """replace the variable v by the bound variable bv, of greater depth than
    every bound variable of body"""
    memo = {}

    def go(x):
        if x is v:
            return bv
        if v.id not in fv(x):
            return x
        r = memo.get(x.id)
        if r is None:
            r = memo[x.id] = remake(x, tuple(go(a) if isinstance(a, T) else a for a in x.args), raw=True)
        return r
    return go(body)


ENUMS = ("setsorted", "setenum")      # the elements of a finite set of integers, by position


def member_of(key, x):
    """x is one of the elements enumerated"""
    _, lo, hi, _ = key.args
    return and_(_cmp("le", lo, x), _cmp("lt", x, hi), not_(eq(instantiate(key, x), const(0))))


def enum_count(key):
    v = fresh("x", I)
    return bsum(v, key.args[1], key.args[2], instantiate(key, v))


def over_enum(v, lo, hi, body):
    """(key, x, body in terms of the element) when body depends on the position v only through the element there"""
    if not (isinstance(lo, int) and lo == 0 or isinstance(lo, T) and lo.op == "const" and lo.args[0] == 0):
        return None
    for s in subterms(body):
        if s.op == "app" and s.args[0] in ENUMS and s.args[2] is v:
            key = s.args[1]
            if key.op != "lam" or depends(key, v) or enum_count(key) is not hi:
                return None
            x = fresh("x", I)
            b = replace(body, s, x)
            return None if depends(b, v) else (key, x, b)
    return None


def replace(t, s, x):
    memo = {}

    def go(y):
        if y is s:
            return x
        if not any(isinstance(a, T) for a in y.args):
            return y
        r = memo.get(y.id)
        if r is None:
            na = tuple(go(a) if isinstance(a, T) else a for a in y.args)
            r = memo[y.id] = y if all(p is q for p, q in zip(na, y.args)) else remake(y, na)
        return r
    return go(t)


def bsum(v, lo, hi, body):
    """sum of body over lo <= v < hi"""
    body = _num(_co(body))
    e = over_enum(v, lo, hi, body)
    if e is not None:
        key, x, b = e
        return bsum(x, key.args[1], key.args[2], ite(member_of(key, x), b, const(0)))
    if body.op == "const" and body.args[0] == 0:
        return body
    if _cmp("le", hi, lo) is TRUE:
        return const(0)
    return _bind("sum", v, lo, hi, body, body.sort)


def last(v, lo, hi, body):
    """largest lo <= v < hi with body; only meaningful where one exists"""
    return _bind("last", v, lo, hi, body, I)


def lam(v, lo, hi, body):
    """the function v -> body on lo <= v < hi, as an argument of applications"""
    return _bind("lam", v, lo, hi, _co(body), I)


def exists(v, lo, hi, body):
    if _cmp("le", hi, lo) is TRUE:
        return FALSE
    if body is FALSE:
        return FALSE
    if not depends(body, v):
        return and_(_cmp("lt", lo, hi), body)
    e = over_enum(v, lo, hi, body)
    if e is not None:
        key, x, b = e
        return exists(x, key.args[1], key.args[2], and_(member_of(key, x), b))
    return _bind("exists", v, lo, hi, body, B)


def forall(v, lo, hi, body):
    if body is TRUE:
        return TRUE
    return not_(exists(v, lo, hi, not_(body)))


def kind_of_unknown(*ts):
    """"outside" when the terms mention values the verifier itself left open"""
    for t in ts:
        for x in subterms(t):
            if x.op == "app" and isinstance(x.args[0], str) and x.args[0].startswith("bag#") or (
                    x.op == "var" and x.args[0] == "undetermined"):
                return "outside"
    return "failed"


def subterms(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        for a in x.args:
            if isinstance(a, T):
                st.append(a)


def fv(t):
    """ids of var leaves"""
    if t._fv is None:
        if t.op == "var":
            t._fv = frozenset([t.id])
        else:
            r = set()
            for a in t.args:
                if isinstance(a, T):
                    r |= fv(a)
            t._fv = frozenset(r)
    return t._fv


def depends(t, v):
    return v.id in fv(t)


_rebuild = {
    "add": add, "mul": mul, "ite": ite, "not": not_, "and": and_, "or": or_,
    "lt": lt, "le": le, "eq": eq,
}


def subst(t, m):
    """substitute T -> T (keys are vars/bvars/arbitrary terms)"""
    mm = {k.id: _co(v) for k, v in m.items()}
    keys = frozenset(k.id for k in m)
    onlyvars = all(k.op == "var" for k in m)
    memo = {}

    def go(x):
        if x.id in mm:
            return mm[x.id]
        if onlyvars and not (fv(x) & keys):
            return x
        r = memo.get(x.id)
        if r is None:
            if not any(isinstance(a, T) for a in x.args):
                r = x
            elif x.op in BINDERS:
                r = under(x)
            else:
                na = tuple(go(a) if isinstance(a, T) else a for a in x.args)
                if all(p is q for p, q in zip(na, x.args)):
                    r = x
                else:
                    r = remake(x, na)
            memo[x.id] = r
        return r

    def under(x):
        """substitution below a binder: open it, substitute, close it again"""
        v = fresh("b", I)
        lo, hi, body = go(x.args[1]), go(x.args[2]), go(_rename(x.args[3], x.args[0], v))
        return BINDERS[x.op](v, lo, hi, body)
    return go(t)


def _rename(t, old, new):
    """replace a bound variable by a fresh variable (no capture possible)"""
    memo = {}

    def go(x):
        if x is old:
            return new
        r = memo.get(x.id)
        if r is None:
            if not any(isinstance(a, T) for a in x.args) or not _hasb(x, old):
                r = x
            else:
                r = remake(x, tuple(go(a) if isinstance(a, T) else a for a in x.args), raw=True)
            memo[x.id] = r
        return r
    return go(t)


_hb = {}


def _hasb(t, b):
    """does the bound variable occur (anywhere) in t"""
    r = _hb.get((t.id, b.id))
    if r is None:
        r = _hb[(t.id, b.id)] = t is b or any(isinstance(a, T) and _hasb(a, b) for a in t.args)
    return r


def remake(x, na, raw=False):
    """x with new arguments"""
    if x.op in BINDERS:
        if raw:
            return _mk(x.op, na, x.sort)
        v = fresh("b", I)
        return BINDERS[x.op](v, na[1], na[2], _rename(na[3], na[0], v))
    if x.op in _rebuild:
        return _rebuild[x.op](*na)
    if x.op == "div":
        return _rawdiv(*na)
    if x.op == "app":
        if na[0] == "sqrt":
            return sqrt(na[1])
        if na[0] == "idiv":
            return idiv(na[1], na[2])
        if na[0] == "imod":
            return imod(na[1], na[2])
        return app(na[0], na[1:], x.sort)
    return _mk(x.op, na, x.sort)


BINDERS = {"sum": bsum, "exists": exists, "last": last, "lam": lam}


def rewrite(t, f):
    """bottom-up rewriting: f(term) -> replacement or None, applied to variables
    and applications; binders are opened with fresh variables"""
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is None:
            if x.op in BINDERS:
                v = fresh("b", I)
                b0 = _rename(x.args[3], x.args[0], v)
                lo, hi, b = go(x.args[1]), go(x.args[2]), go(b0)
                r = x if (lo is x.args[1] and hi is x.args[2] and b is b0) else BINDERS[x.op](v, lo, hi, b)
            else:
                if any(isinstance(a, T) for a in x.args):
                    na = tuple(go(a) if isinstance(a, T) else a for a in x.args)
                    r = x if all(p is q for p, q in zip(na, x.args)) else remake(x, na)
                else:
                    r = x
                if r.op in ("var", "app"):
                    q = f(r)
                    r = r if q is None else q
            memo[x.id] = r
        return r
    return go(t)


def _rawdiv(a, b):
    if b.op == "const":
        if b.args[0] == 0:
            raise Unsupported("division by zero after substitution")
        return mul(_mk("const", (1/b.args[0],), R), a)
    if a.op == "const" and a.args[0] == 0:
        return _mk("const", (Fraction(0),), R)
    return _mk("div", (a, b), R)


def instantiate(t, k):
    """body of a binder term at index k"""
    v = fresh("b", I)
    return subst(_rename(t.args[3], t.args[0], v), {v: _co(k)})


def show(t, depth=6):
    if not isinstance(t, T):
        return str(t)
    if t.op == "const":
        q = t.args[0]
        if q.denominator == 1:
            return str(q.numerator)
        return "%.12g" % float(q) if q.denominator > 1000 else str(q)
    if t.op in ("var", "nonfinite"):
        return t.args[0]
    if t.op == "bvar":
        return "_%d" % t.args[1]
    if depth <= 0:
        return "..."
    a = [show(x, depth-1) for x in t.args]
    if t.op == "app":
        return "%s(%s)" % (a[0], ", ".join(a[1:]))
    s = {"add": " + ", "mul": "*", "div": "/", "lt": " < ", "le": " <= ",
         "eq": " == ", "and": " & ", "or": " | "}.get(t.op)
    if s:
        return "(" + s.join(a) + ")"
    if t.op in ("sum", "exists", "last", "lam"):
        return "%s{%s in [%s,%s)}(%s)" % (t.op, *a)
    return "%s(%s)" % (t.op, ", ".join(a))


def pick(items, i):
    """items[i] of a sequence of known length: one path per position"""
    n = len(items)
    if not lt(i, const(n)) or lt(i, const(-n)):
        raise IndexError("list index out of range")
    for k in list(range(n - 1)) + list(range(-n, 0)):
        if eq(i, const(k)):
            return items[k]
    return items[n - 1]
