"""Model of the NumPy/SciPy subset used by the code, over terms.

JArr   arrays of concrete shape: a real ndarray of objects (views, slicing and
       broadcasting are NumPy's own) carrying the value dtype that the program
       would see ("f", "i", "b", "c").
SArr   arrays of symbolic shape live in vf/symarr.py; functions dispatch there.
"""
import builtins
import functools
import inspect
import numbers
import numpy as _n
from fractions import Fraction
from vf import terms as tm
from vf.terms import T, Unsupported, R, I, B

ORDER = "bifc"


class Dt:
    """value dtype"""
    def __init__(self, k):
        self.kind = k

    def __eq__(self, o):
        try:
            return norm_dtype(o) == self.kind
        except Unsupported:
            return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.kind)

    def __repr__(self):
        return "dtype(%s)" % self.kind

    @property
    def type(self):
        return {"f": NP.float64, "i": NP.int64, "b": NP.bool_, "c": NP.complex128}[self.kind]

    @property
    def name(self):
        return {"f": "float64", "i": "int64", "b": "bool", "c": "complex128"}[self.kind]


def norm_dtype(d):
    if d is None:
        return "f"
    if isinstance(d, Dt):
        return d.kind
    if isinstance(d, DtCls):
        return d.k
    if d is builtins.float or d is SHIMS.get("float"):
        return "f"
    if d is builtins.int or d is SHIMS.get("int"):
        return "i"
    if d is builtins.bool or d is SHIMS.get("bool"):
        return "b"
    if d is builtins.complex or d is SHIMS.get("complex"):
        return "c"
    if isinstance(d, str):
        r = {"float": "f", "float64": "f", "d": "f", "f8": "f", "int": "i", "int64": "i", "i8": "i",
             "bool": "b", "complex": "c", "complex128": "c", "f": None, "i": "i"}.get(d)
        if r:
            return r
    raise Unsupported("dtype %r" % (d,))


class DtCls:
    """np.float64, np.int64 ...: dtype and conversion"""
    def __init__(self, k):
        self.k = k

    def __call__(self, x=0):
        return conv(x, self.k)

    def __instancecheck__(self, x):
        return False


SHIMS = {}


class Dom(_n.ndarray):
    pass


def kind_of(x):
    if isinstance(x, JArr):
        return x.vd
    if isinstance(x, T):
        if x.op == "app" and x.args[0] in ("cis", "I*"):
            return "c"
        if _complexish(x):
            return "c"
        return {R: "f", I: "i", B: "b"}[x.sort]
    if isinstance(x, (bool, _n.bool_)):
        return "b"
    if isinstance(x, numbers.Integral):
        return "i"
    if isinstance(x, (float, Fraction, _n.floating)):
        return "f"
    if isinstance(x, numbers.Complex):
        return "c"
    raise Unsupported("array element of type %s" % type(x).__name__)


_cx = {}


def _complexish(t):
    r = _cx.get(t.id)
    if r is None:
        if t.op == "app" and t.args[0] in ("cis", "I*", "cval"):
            r = True
        elif t.op in ("add", "mul", "div", "ite", "sum"):
            r = any(_complexish(a) for a in t.args if isinstance(a, T))
        else:
            r = False
        _cx[t.id] = r
    return r


def promote(*ks):
    return max(ks, key=ORDER.index)


def cast(x, k):
    """value x stored in an array of value dtype k (C cast)"""
    t = x if isinstance(x, T) else None
    if t is None:
        if isinstance(x, complex):
            if k != "c":
                if x.imag == 0:
                    return cast(x.real, k)
                raise Unsupported("complex to real cast")
            return x
        t = tm.const(x if not isinstance(x, _n.generic) else x.item())
    if k == "c":
        return t if t.sort != B else tm._num(t)
    if _complexish(t):
        raise Unsupported("complex to real cast")
    if k == "f":
        if t.sort == R:
            return t
        t = tm._num(t)
        return t            # integers embed into the reals
    if k == "i":
        if t.sort == I:
            return t
        if t.sort == B:
            return tm._num(t)
        if t.op == "const":
            return tm.const(int(t.args[0]))
        # reals that are sums/products of integers
        return trunc(t)
    if k == "b":
        if t.sort == B:
            return t
        return tm.not_(tm.eq(t, tm.const(0)))
    raise Unsupported("cast to %s" % k)


def trunc(t):
    from vf.poly import poly, TooBig, term_of
    try:
        p = poly(t)
        if builtins.all(c.denominator == 1 for c in p.values()):
            from vf import poly as pl
            ok = True
            for m in p:
                for a, e in m:
                    if a < 0 or e < 0 or pl.ATOM[a].sort != I:
                        ok = False
            if ok:
                return term_of(p, I)
    except TooBig:
        pass
    return tm.app("trunc", (t,), I)


WRITE_HOOK = [None]
BORN = [None]


class JArr(_n.ndarray):
    vd = "f"
    frozen = False

    def __array_finalize__(self, obj):
        self.vd = getattr(obj, "vd", "f")
        if BORN[0] is not None:
            BORN[0](self)

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        return _ufunc(ufunc, method, inputs, out, kw)

    def __array_function__(self, func, types, args, kwargs):
        raise Unsupported("numpy function %s reached an array of terms" % func.__name__)

    @property
    def dtype(self):
        return Dt(self.vd)

    def raw(self):
        return self.view(_n.ndarray)

    def __getitem__(self, ix):
        ix = _index(ix)
        if _symix(ix):
            return _symget(self, ix)
        r = self.view(_n.ndarray)[ix]
        if isinstance(r, _n.ndarray):
            r = r.view(JArr)
            r.vd = self.vd
            return r
        return scalar(r, self.vd)

    def __setitem__(self, ix, v):
        ix = _index(ix)
        if _symix(ix):
            from vf import symarr
            t = symarr.lift(self)
            t[ix] = v
            _write_guard(self)
            self.view(_n.ndarray)[...] = symarr.lower(t).raw()
            return
        _write_guard(self)
        if not isinstance(v, JArr):
            v = NP.asarray(v)
        if v.vd == "c" and self.vd != "c":
            raise Unsupported("complex stored in a real array")
        raw = v.raw()
        if v.vd != self.vd:
            raw = _map(lambda x: cast(x, self.vd), raw)
        self.view(_n.ndarray)[ix] = raw if raw.ndim else raw[()]

    def __iter__(self):
        for i in range(self.shape[0]):
            yield self[i]

    def __contains__(self, v):
        return bool((self == v).any())

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous.")
        return bool(self.raw().reshape(-1)[0])

    def __float__(self):
        return float(self.raw().reshape(-1)[0]) if self.size == 1 else _n.ndarray.__float__(self)

    def astype(self, d, copy=True, **kw):
        k = norm_dtype(d)
        r = _map(lambda x: cast(x, k), self.raw()).view(JArr)
        r.vd = k
        return r

    def copy(self, order="C"):
        r = self.raw().copy().view(JArr)
        r.vd = self.vd
        return r

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def tolist(self):
        return [x.tolist() if isinstance(x, JArr) else x for x in self] if self.ndim else self.raw()[()]

    def item(self, *a):
        return scalar(self.raw().item(*a), self.vd)

    def fill(self, v):
        self[...] = v

    def dot(self, o):
        return NP.dot(self, o)

    def sum(self, axis=None, **kw):
        return NP.sum(self, axis=axis, **kw)

    def mean(self, axis=None, **kw):
        return NP.mean(self, axis=axis, **kw)

    def max(self, axis=None, **kw):
        return NP.max(self, axis=axis, **kw)

    def min(self, axis=None, **kw):
        return NP.min(self, axis=axis, **kw)

    def any(self, axis=None, **kw):
        return NP.any(self, axis=axis, **kw)

    def all(self, axis=None, **kw):
        return NP.all(self, axis=axis, **kw)

    def conj(self):
        if builtins.any(isinstance(x, T) and tm.mentions_cis(x) for x in self.raw().flat):
            raise Unsupported("conjugate of complex")
        return self.copy()

    conjugate = conj

    def trace(self, *a, **k):
        return NP.trace(self)

    @property
    def real(self):
        if self.vd == "c":
            raise Unsupported("real part")
        return self

    def __matmul__(self, o):
        return NP.matmul(self, o)

    def __rmatmul__(self, o):
        return NP.matmul(o, self)

    def __divmod__(self, o):
        return self // o, self % o

    def __repr__(self):
        return "JArr(%s, %s)" % (self.shape, self.vd)

    __hash__ = None


def _sort_in_place(self, axis=-1, **k):
    self[...] = NP.sort(self, axis)


JArr.sort = _sort_in_place
for _nm in ("argsort", "prod", "cumsum", "round", "nonzero", "searchsorted", "ptp", "clip",
            "var", "std", "argmax", "argmin", "tobytes", "tofile", "byteswap", "itemset", "put", "resize",
            "choose", "partition", "tostring", "dump", "dumps"):
    def _mkm(nm):
        def f(self, *a, **k):
            g = getattr(NP, nm, None)
            if g is None or isinstance(g, _Missing):
                raise Unsupported("ndarray.%s" % nm)
            return g(self, *a, **k)
        return f
    setattr(JArr, _nm, _mkm(_nm))




def _write_guard(a):
    if not _n.ndarray.view(a, _n.ndarray).flags.writeable:
        raise Unsupported("write through a row of a selection")
    if WRITE_HOOK[0] is not None:
        WRITE_HOOK[0](a)


def _symix(ix):
    if isinstance(ix, tuple):
        return builtins.any(_symix1(i) for i in ix)
    return _symix1(ix)


def _symix1(i):
    return (isinstance(i, T) and i.op != "const") or type(i).__name__ == "SArr"


def _symget(a, ix):
    from vf import symarr
    return symarr.lift(a)[ix]


def _index(ix):
    def one(i):
        if isinstance(i, JArr):
            if i.vd == "i":
                return _n.array([int(x) if not isinstance(x, T) else x.__index__()
                                 for x in i.raw().flat], dtype=int).reshape(i.shape) \
                    if not builtins.any(isinstance(x, T) and x.op != "const" for x in i.raw().flat) else _lift(i)
            if i.vd == "b":
                return _n.array([bool(x) for x in i.raw().flat], dtype=bool).reshape(i.shape)
            raise IndexError("arrays used as indices must be of integer (or boolean) type")
        if isinstance(i, T):
            if i.sort == I and i.op == "const":
                return int(i.args[0])
            if i.sort == B:
                return bool(i)
            if i.sort == I:
                return i
            raise IndexError("only integers, slices and arrays are valid indices")
        if isinstance(i, float):
            raise IndexError("only integers, slices (`:`) and arrays are valid indices")
        if isinstance(i, slice):
            if builtins.any(isinstance(q, T) and q.op != "const" for q in (i.start, i.stop, i.step)):
                raise Unsupported("symbolic slice of a concrete array")
            return slice(*[int(q) if q is not None else None for q in (i.start, i.stop, i.step)])
        if isinstance(i, list):
            return one(NP.asarray(i)) if i else _n.array([], dtype=int)
        return i
    if isinstance(ix, tuple):
        return tuple(one(i) for i in ix)
    return one(ix)


def _lift(i):
    from vf import symarr
    return symarr.lift(i)


def scalar(r, k):
    """element read out of an array"""
    if isinstance(r, T):
        return r
    return r


def _map(f, raw):
    o = _n.empty(raw.shape, dtype=object)
    of, rf = o.reshape(-1), raw.reshape(-1)
    for i in range(rf.size):
        of[i] = f(rf[i])
    return o


def wrap(raw, vd):
    a = _n.asarray(raw, dtype=object).view(JArr)
    a.vd = vd
    return a


def _pyscalar(x):
    if isinstance(x, _n.generic):
        return x.item()
    return x


def _tt(x):
    """object element -> T (or complex)"""
    if isinstance(x, (T, complex)):
        return x
    return tm.const(_pyscalar(x))


CMP = {"less": lambda a, b: a < b, "less_equal": lambda a, b: a <= b, "greater": lambda a, b: a > b,
       "greater_equal": lambda a, b: a >= b, "equal": lambda a, b: a == b, "not_equal": lambda a, b: a != b}
BIN = {"add": lambda a, b: a + b, "subtract": lambda a, b: a - b, "multiply": lambda a, b: a*b,
       "true_divide": lambda a, b: _div(a, b), "divide": lambda a, b: _div(a, b),
       "power": lambda a, b: _pow(a, b), "float_power": lambda a, b: _pow(a, b),
       "floor_divide": lambda a, b: a//b, "remainder": lambda a, b: a % b,
       "maximum": lambda a, b: smax(a, b), "minimum": lambda a, b: smin(a, b),
       "hypot": lambda a, b: tm.sqrt(_tt(a)*a + _tt(b)*b),
       "arctan2": lambda a, b: tm.app("arctan2", (_tt(a), _tt(b)), R),
       "logical_and": lambda a, b: tm.and_(_bo(a), _bo(b)), "logical_or": lambda a, b: tm.or_(_bo(a), _bo(b)),
       "bitwise_and": lambda a, b: tm.and_(_bo(a), _bo(b)), "bitwise_or": lambda a, b: tm.or_(_bo(a), _bo(b)),
       **CMP}
UN = {"negative": lambda a: -a, "positive": lambda a: a, "absolute": lambda a: tm.absv(_tt(a)),
      "fabs": lambda a: tm.absv(_tt(a)),
      "sqrt": lambda a: _sqrt(_tt(a)), "exp": lambda a: sexp(a), "sin": lambda a: strig("sin", a),
      "cos": lambda a: strig("cos", a), "square": lambda a: a*a, "conjugate": lambda a: _tt(a).conjugate(),
      "logical_not": lambda a: tm.not_(_bo(a)), "invert": lambda a: tm.not_(_bo(a)),
      "isfinite": lambda a: tm.TRUE, "isnan": lambda a: tm.FALSE,
      "floor": lambda a: _rounding(tm.floor, a), "ceil": lambda a: _rounding(tm.ceil, a),
      "rint": lambda a: _rounding(tm.rint, a), "trunc": lambda a: _rounding(trunc, a),
      "sign": lambda a: tm.ite(a < 0, tm.const(-1), tm.ite(_tt(a) > 0, tm.const(1), tm.const(0)))}


def _rounding(f, a):
    if isinstance(a, complex) or _complexish(_tt(a)):
        raise Unsupported("rounding of complex values")
    t = _tt(a)
    return f(t)


def _sqrt(a):
    if isinstance(a, complex):
        raise Unsupported("complex square root")
    if a.op == "const":
        if a.args[0] < 0:
            return tm.const(float("nan"))
        return tm.sqrt(a)
    nz = tm._hooks.get("nonneg")
    if nz is not None:
        nz(a)
    return tm.sqrt(a)


def _bo(a):
    if isinstance(a, T):
        return a if a.sort == B else tm.not_(tm.eq(a, tm.const(0)))
    return tm.TRUE if a else tm.FALSE


def _div(a, b):
    a, b = _tt(a), _tt(b)
    if not isinstance(b, complex) and b.op == "const" and b.args[0] == 0:
        if isinstance(a, T) and a.op == "const":
            q = a.args[0]
            return tm.const(float("nan") if q == 0 else float("inf") if q > 0 else float("-inf"))
    return a/b


def _pow(a, b):
    if isinstance(b, T) and b.op == "const":
        b = b.args[0]
    if isinstance(a, T) or isinstance(a, (int, float, Fraction)):
        return _tt(a)**b
    return a**b


def sexp(a):
    a = _tt(a) if not isinstance(a, complex) else a
    if isinstance(a, complex):
        if a == 0:
            return tm.const(1)
        raise Unsupported("exp of a complex constant")
    if a.op == "const" and a.args[0] == 0:
        return tm.const(1)
    return _exp(a)


def _exp(a):
    """exp of a sum of I*x terms -> cis(x)"""
    from vf.poly import poly, term_of, ATOM
    p = poly(a)
    im = {}
    for m, c in p.items():
        hit = [x for x, e in m if x > 0 and ATOM[x].op == "app" and ATOM[x].args[0] == "I*"]
        if not hit:
            if im:
                raise Unsupported("exp of mixed complex")
            return tm.app("exp", (a,), R)
        if len(m) != 1 or m[0][1] != 1:
            rest = tuple(q for q in m if q[0] != hit[0])
            if dict(m)[hit[0]] != 1 or len(hit) != 1:
                raise Unsupported("exp of complex product")
        else:
            rest = ()
        from vf.poly import pmul, padd
        im = padd(im, pmul({rest: c}, poly(ATOM[hit[0]].args[1])))
    return tm.app("cis", (term_of(im, R),), R)


def strig(f, a):
    a = _tt(a)
    if a.op == "const" and a.args[0] == 0:
        return tm.const(0 if f == "sin" else 1)
    return tm.app(f, (a,), R)


def smax(a, b):
    a, b = _tt(a), _tt(b)
    return tm.ite(tm.lt(a, b), b, a)


def smin(a, b):
    a, b = _tt(a), _tt(b)
    return tm.ite(tm.lt(b, a), b, a)


def _ufunc(ufunc, method, inputs, out, kw):
    name = ufunc.__name__
    from vf import symarr
    if builtins.any(isinstance(i, symarr.SArr) for i in inputs):
        return symarr.ufunc(name, method, inputs, out, kw)
    if method != "__call__":
        if method == "outer" and name == "multiply":
            return NP.outer(*inputs)
        if method == "at" and name in ("add", "subtract"):
            raise Unsupported("ufunc.at")
        raise Unsupported("ufunc.%s" % method)
    where = kw.pop("where", True)
    if where is not True:
        raise Unsupported("ufunc where=")
    kw.pop("casting", None)
    kw.pop("dtype", None)
    if name == "matmul":
        return NP.matmul(*inputs)
    if name not in BIN and name not in UN:
        raise Unsupported("ufunc %s" % name)
    args = [NP.asarray(i) for i in inputs]
    ks = [a.vd for a in args]
    if name in CMP or name.startswith(("logical", "is")):
        k = "b"
    elif name in ("true_divide", "divide", "sqrt", "sin", "cos", "exp", "arctan2", "hypot", "float_power"):
        k = promote("f", *ks)
        if name == "exp" and "c" in ks:
            k = "c"
    elif name in ("bitwise_and", "bitwise_or", "invert"):
        if builtins.any(q != "b" for q in ks):
            raise Unsupported("bitwise operation on numbers")
        k = "b"
    else:
        k = promote(*ks)
        if k == "b":
            if name in ("subtract", "negative"):
                raise TypeError("numpy boolean subtract/negative is not supported")
            if name in ("add", "multiply"):
                name = {"add": "logical_or", "multiply": "logical_and"}[name]
    f = BIN.get(name) or UN[name]
    bs = _n.broadcast_arrays(*[a.raw() for a in args])
    o = _n.empty(bs[0].shape, dtype=object)
    of = o.reshape(-1)
    its = [b.reshape(-1) for b in bs]
    for i in range(of.size):
        of[i] = f(*[it[i] for it in its])
    if out is not None:
        out = out[0] if isinstance(out, tuple) else out
        if ORDER.index(k) > ORDER.index(out.vd) and not (k == "i" and out.vd == "f"):
            raise TypeError("Cannot cast ufunc '%s' output from dtype(%s) to dtype(%s) with casting rule "
                            "'same_kind'" % (name, k, out.vd))
        _write_guard(out)
        if o.shape != out.shape:
            raise ValueError("non-broadcastable output operand")
        out.raw()[...] = _map(lambda x: cast(x, out.vd), o)
        return out
    r = wrap(o, k)
    return r if r.ndim else scalar(r.raw()[()], k)


# ---------------------------------------------------------------------- np.*
def _nested(x):
    """nested sequences -> (shape, flat list)"""
    if isinstance(x, JArr):
        return x.shape, list(x.raw().reshape(-1)), x.vd
    if isinstance(x, _n.ndarray):
        if x.dtype == object:
            return x.shape, list(x.reshape(-1)), None
        return x.shape, [v.item() for v in x.reshape(-1)], None
    if isinstance(x, (list, tuple, range)) or type(x).__name__ == "VList":
        subs = [_nested(y) for y in x]
        if not subs:
            return (0,), [], "f"
        sh = subs[0][0]
        if builtins.any(s[0] != sh for s in subs):
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        flat = [v for s in subs for v in s[1]]
        ks = [s[2] for s in subs if s[2] is not None]
        return (len(subs),) + sh, flat, (promote(*ks) if len(ks) == len(subs) else None)
    if x is None or isinstance(x, (str, dict)):
        raise Unsupported("array of %s" % type(x).__name__)
    return (), [x], None


def _has_sarr(*xs):
    from vf import symarr
    for x in xs:
        if isinstance(x, symarr.SArr) or hasattr(x, "sym_len"):
            return True
        if isinstance(x, (list, tuple)) and _has_sarr(*x):
            return True
        if isinstance(x, T) and x.op != "const" and x.sort == I:
            pass
    return False


def _symshape(shape):
    if isinstance(shape, T):
        return shape.op != "const"
    if isinstance(shape, (list, tuple)):
        return builtins.any(_symshape(s) for s in shape)
    return False


def _shp(shape):
    if isinstance(shape, JArr):
        shape = list(shape)
    if isinstance(shape, (list, tuple)):
        return tuple(_dimn(s) for s in shape)
    return (_dimn(shape),)


def _dimn(s):
    if isinstance(s, T):
        if s.sort != I:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return s.__index__()
    if isinstance(s, float):
        raise TypeError("'float' object cannot be interpreted as an integer")
    s = int(s)
    if s < 0:
        raise ValueError("negative dimensions are not allowed")
    return s


class _Missing:
    def __init__(self, name):
        self.name = name

    def __getitem__(self, k):
        raise Unsupported(self.name)

    def __call__(self, *a, **k):
        raise Unsupported(self.name)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return _Missing(self.name + "." + k)


class _Joiner:
    """np.r_, np.c_"""
    def __init__(self, join):
        self.join = join

    def __getitem__(self, key):
        parts = []
        for k in key if isinstance(key, tuple) else (key,):
            if isinstance(k, builtins.slice):
                parts.append(NP.mgrid[k])
            elif isinstance(k, str):
                raise Unsupported("directives of np.r_")
            elif hasattr(k, "vd") or isinstance(k, (list, tuple)) or hasattr(k, "sym_len"):
                parts.append(NP.asarray(k))
            else:
                parts.append(NP.array([k]))
        return self.join(parts)


class LinAlgError(ValueError):
    pass


class Linalg:
    LinAlgError = LinAlgError

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return _Missing("np.linalg." + k)

    @staticmethod
    def det(a):
        from contracts import spec
        a = NP.asarray(a)
        if a.ndim != 2 or a.shape[0] != a.shape[1]:
            raise LinAlgError("Last 2 dimensions of the array must be square")
        if a.shape[0] > 4:
            raise Unsupported("det of a %dx%d matrix" % a.shape)
        if not a.shape[0]:
            return tm.const(1)
        return tm._num(_tt(spec.dt([list(r) for r in a.raw()])))

    @staticmethod
    def inv(a):
        from contracts import spec
        a = NP.asarray(a)
        d = Linalg.det(a)
        if bool(tm.eq(d, tm.const(0))):
            raise LinAlgError("Singular matrix")
        A = spec.adj([list(r) for r in a.raw()])
        return wrap(_n.array([[_tt(x)/d for x in r] for r in A], dtype=object), "f")

    @staticmethod
    def solve(a, b):
        if SOLVE[0] is not None:
            return SOLVE[0]("solve", a, b)
        b = NP.asarray(b)
        return NP.matmul(Linalg.inv(a), b)

    @staticmethod
    def multi_dot(xs, out=None):
        r = None
        for x in xs:
            r = x if r is None else NP.dot(r, x)
        return r

    @staticmethod
    def norm(a, ord=None, axis=None, **kw):
        if _has_sarr(a):
            from vf import symarr
            return symarr.norm(a, ord, axis)
        a = NP.asarray(a)
        if ord not in (None, 2) or kw or (ord == 2 and a.ndim != 1):
            raise Unsupported("norm order")
        if axis is None:
            return tm.sqrt(_tt(NP.sum(a*a)))
        return NP.sqrt(NP.sum(a*a, axis=axis))


SOLVE = [None]


class UFunc:
    def __init__(self, name):
        self.name = self.__name__ = name

    def __call__(self, *a, **k):
        out = k.pop("out", None)
        if out is None and len(a) == (3 if self.name in BIN else 2):
            a, out = a[:-1], a[-1]
        return _ufunc(_Named(self.name), "__call__", a, (out,) if out is not None else None, k)

    def at(self, a, ix, v=None):
        from vf import symarr
        if self.name == "add":
            return symarr.add_at(a, ix, v)
        if self.name == "subtract":
            return symarr.add_at(a, ix, v, -1)
        raise Unsupported("%s.at" % self.name)

    def outer(self, a, b):
        if self.name == "multiply":
            return NP.outer(a, b)
        a, b = NP.asarray(a), NP.asarray(b)
        if a.ndim != 1 or b.ndim != 1:
            raise Unsupported("ufunc.outer")
        return self(a[:, None], b[None, :])

    def reduce(self, a, axis=0, **k):
        f = {"add": NP.sum, "maximum": NP.max, "minimum": NP.min, "logical_and": NP.all, "logical_or": NP.any}
        if self.name not in f or k:
            raise Unsupported("%s.reduce" % self.name)
        return f[self.name](a, axis=axis)

    def accumulate(self, a, axis=0):
        if self.name != "add":
            raise Unsupported("%s.accumulate" % self.name)
        return NP.cumsum(a, axis=axis)


class _Legendre:
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return _Missing("np.polynomial.legendre." + k)

    @staticmethod
    def leggauss(deg):
        """the numbers NumPy computes, for a known degree"""
        if isinstance(deg, T):
            if deg.sort != I:
                raise TypeError("deg must be an integer")
            deg = deg.__index__()
        x, w = _n.polynomial.legendre.leggauss(deg)
        return NP.array([tm.const(float(v)) for v in x]), NP.array([tm.const(float(v)) for v in w])


class _Polynomial:
    legendre = _Legendre()

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return _Missing("np.polynomial." + k)

def _order(r, a):
    if type(r).__name__ == "SArr":
        from vf import symarr
        symarr.sameorder(r, a)
    return r



class _NP:
    polynomial = _Polynomial()
    pi = tm.const(3.141592653589793)
    nan = tm.const(float("nan"))
    inf = tm.const(float("inf"))
    newaxis = None
    ndarray = JArr
    linalg = Linalg()
    float64 = DtCls("f")
    int64 = DtCls("i")
    intp = DtCls("i")
    int_ = DtCls("i")
    int32 = DtCls("i")
    bool_ = DtCls("b")
    complex128 = DtCls("c")

    def __getattr__(self, k):
        if k.startswith("__") or k in ("NaN", "float", "int", "bool", "float_"):
            raise AttributeError("module 'numpy' has no attribute %r" % k)
        return _Missing("np." + k)

    @property
    def mgrid(self):
        from vf import symarr
        return symarr.MGrid()

    @property
    def r_(self):
        return _Joiner(self.concatenate)

    @property
    def c_(self):
        return _Joiner(self.column_stack)

    @property
    def s_(self):
        return _n.s_

    def diff(self, a, n=1, axis=-1):
        a = a if hasattr(a, "vd") else self.asarray(a)
        if n != 1:
            raise Unsupported("np.diff of higher order")
        axis = axis % a.ndim
        pre = (builtins.slice(None),)*axis
        return a[pre + (builtins.slice(1, None),)] - a[pre + (builtins.slice(None, -1),)]

    def array(self, x, dtype=None, copy=True, ndmin=0, **kw):
        if _has_sarr(x) or type(x).__name__ == "SList":
            from vf import symarr
            return symarr.array(x, dtype)
        sh, flat, k = _nested(x)
        if k is None:
            k = promote(*[kind_of(v) for v in flat]) if flat else "f"
        want = norm_dtype(dtype) if dtype is not None else k
        o = _n.empty(len(flat), dtype=object)
        for i, v in enumerate(flat):
            o[i] = cast(v, want)
        o = o.reshape(sh)
        while o.ndim < ndmin:
            o = o[None]
        return wrap(o, want)

    def asarray(self, x, dtype=None, **kw):
        if type(x).__name__ == "SArr":
            return x if dtype is None else x.astype(dtype)
        if isinstance(x, JArr) and (dtype is None or norm_dtype(dtype) == x.vd):
            return x
        return self.array(x, dtype)

    asanyarray = ascontiguousarray = asarray

    def atleast_2d(self, x):
        x = self.asarray(x)
        if type(x).__name__ == "SArr":
            from vf import symarr
            return symarr.atleast_2d(x)
        if x.ndim == 0:
            return x.reshape(1, 1)
        return x if x.ndim > 1 else x.raw()[None].view(JArr)._vd(x.vd) if False else wrap(x.raw()[None], x.vd)

    def atleast_1d(self, x):
        x = self.asarray(x)
        return x if x.ndim else wrap(x.raw()[None], x.vd)

    def copy(self, x, order="K"):
        x = self.asarray(x)
        return x.copy() if order == "C" else _order(x.copy(), x)

    def _full(self, shape, v, k):
        if _symshape(shape):
            from vf import symarr
            return symarr.full(shape, v, k)
        o = _n.empty(_shp(shape), dtype=object)
        o.fill(v)
        return wrap(o, k)

    def zeros(self, shape, dtype=None, **kw):
        k = norm_dtype(dtype)
        return self._full(shape, cast(tm.const(0), k), k)

    def ones(self, shape, dtype=None, **kw):
        k = norm_dtype(dtype)
        return self._full(shape, cast(tm.const(1), k), k)

    def full(self, shape, v, dtype=None, **kw):
        if isinstance(v, (JArr, list, tuple)):
            raise Unsupported("np.full of an array")
        k = norm_dtype(dtype) if dtype is not None else kind_of(v)
        return self._full(shape, cast(v, k), k)

    def empty(self, shape, dtype=None, **kw):
        """arbitrary contents: every element is a fresh unknown"""
        k = norm_dtype(dtype)
        if _symshape(shape):
            from vf import symarr
            return symarr.empty(shape, k)
        o = _n.empty(_shp(shape), dtype=object)
        from vf import symarr
        ks = symarr.loopvars()
        for i in _n.ndindex(o.shape):
            o[i] = tm.app("uninit#%d" % next(symarr._serial), ks, {"i": I, "b": B}.get(k, R)) if ks else \
                tm.fresh("uninit", {"i": I, "b": B}.get(k, R))
        return wrap(o, k)

    def zeros_like(self, a, dtype=None, **kw):
        a = self.asarray(a)
        return _order(self.zeros(a.shape, dtype=dtype if dtype is not None else a.dtype), a)

    def ones_like(self, a, dtype=None, **kw):
        a = self.asarray(a)
        return _order(self.ones(a.shape, dtype=dtype if dtype is not None else a.dtype), a)

    def empty_like(self, a, dtype=None, **kw):
        a = self.asarray(a)
        return _order(self.empty(a.shape, dtype=dtype if dtype is not None else a.dtype), a)

    def full_like(self, a, v, dtype=None):
        a = self.asarray(a)
        return _order(self.full(a.shape, v, dtype=dtype if dtype is not None else a.dtype), a)

    def eye(self, n, M=None, k=0, dtype=None):
        if _symshape(n):
            from vf import symarr
            if M is not None or not isinstance(k, int):
                raise Unsupported("eye of symbolic size")
            z = self.zeros((n, n), dtype=dtype)
            one, zero = cast(tm.const(1), z.vd), cast(tm.const(0), z.vd)
            return symarr.functional((n, n), z.vd, lambda ix: tm.ite(tm.eq(tm._co(ix[1]), tm._co(ix[0]) + k), one, zero))
        n = _dimn(n)
        z = self.zeros((n, n if M is None else _dimn(M)), dtype=dtype)
        for i in range(n):
            if 0 <= i + k < z.shape[1]:
                z.raw()[i, i + k] = cast(tm.const(1), z.vd)
        return z

    identity = eye

    def arange(self, *a, dtype=None):
        if builtins.any(_symshape(x) for x in a):
            from vf import symarr
            return symarr.arange(*a)
        a = [int(x) if not isinstance(x, T) else x.__index__() for x in a
             ] if builtins.all(not isinstance(x, float) for x in a) else None
        if a is None:
            raise Unsupported("arange of floats")
        return self.array(list(range(*a)), dtype=dtype or int)

    def linspace(self, a, b, num=50, endpoint=True, **kw):
        if _symshape(num):
            from vf import symarr
            return symarr.linspace(a, b, num, endpoint)
        num = _dimn(num)
        d = num - 1 if endpoint else num
        if num == 1:
            return self.array([a], dtype=float)
        return self.array([_tt(a) + (_tt(b) - a)*Fraction(i, d) for i in range(num)], dtype=float)

    _u = UFunc

    for _k in list(BIN) + list(UN):
        locals()[_k] = _u(_k)
    abs = _u("absolute")
    conj = _u("conjugate")
    mod = _u("remainder")

    def matmul(self, a, b):
        if _has_sarr(a, b):
            from vf import symarr
            return symarr.matmul(a, b)
        a, b = self.asarray(a), self.asarray(b)
        if a.ndim == 0 or b.ndim == 0:
            raise ValueError("matmul: Input operand does not have enough dimensions")
        return self._mm(a, b)

    def dot(self, a, b):
        if _has_sarr(a, b):
            from vf import symarr
            return symarr.matmul(a, b)
        a, b = self.asarray(a), self.asarray(b)
        if a.ndim == 0 or b.ndim == 0:
            return self.multiply(a, b)
        return self._mm(a, b)

    def _mm(self, a, b):
        k = promote(a.vd, b.vd)
        A, Bm = a.raw(), b.raw()
        if a.ndim > 2 or b.ndim > 2:
            raise Unsupported("stacked matmul")
        A2 = A[None] if a.ndim == 1 else A
        B2 = Bm[:, None] if b.ndim == 1 else Bm
        if A2.shape[1] != B2.shape[0]:
            raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension 0")
        o = _n.empty((A2.shape[0], B2.shape[1]), dtype=object)
        for i in range(o.shape[0]):
            for j in range(o.shape[1]):
                s = tm.const(0)
                for m in range(A2.shape[1]):
                    x, y = A2[i, m], B2[m, j]
                    if (isinstance(x, T) and x.op == "const" and x.args[0] == 0) or \
                            (isinstance(y, T) and y.op == "const" and y.args[0] == 0):
                        continue
                    s = s + _tt(x)*_tt(y)
                o[i, j] = s
        if a.ndim == 1 and b.ndim == 1:
            return scalar(o[0, 0], k)
        if a.ndim == 1:
            o = o[0]
        elif b.ndim == 1:
            o = o[:, 0]
        return wrap(o, k)

    def outer(self, a, b):
        a, b = self.asarray(a).ravel(), self.asarray(b).ravel()
        if _has_sarr(a, b):
            return self.multiply(a[:, None], b[None, :])
        return self.multiply(wrap(a.raw()[:, None], a.vd), wrap(b.raw()[None, :], b.vd))

    def inner(self, a, b):
        return self.dot(a, self.asarray(b).T)

    vdot = inner

    def einsum(self, sub, *ops, **kw):
        if _has_sarr(*ops):
            raise Unsupported("einsum of symbolic shape")
        ops = [self.asarray(o) for o in ops]
        sub = sub.replace(" ", "")
        ins, _, out = sub.partition("->")
        ins = ins.split(",")
        if "." in sub or len(ins) != len(ops):
            raise Unsupported("einsum subscripts")
        if "->" not in sub:
            al = "".join(ins)
            out = "".join(sorted(c for c in set(al) if al.count(c) == 1))
        size = {}
        for lab, o in zip(ins, ops):
            if len(lab) != o.ndim:
                raise ValueError("einsum operand dimension mismatch")
            for c, s in zip(lab, o.shape):
                if size.setdefault(c, s) != s:
                    raise ValueError("einsum size mismatch")
        summed = [c for c in size if c not in out]
        r = _n.empty(tuple(size[c] for c in out), dtype=object)
        for idx in _n.ndindex(r.shape):
            ev = dict(zip(out, idx))
            s = tm.const(0)
            for sx in _n.ndindex(tuple(size[c] for c in summed)):
                ev.update(zip(summed, sx))
                p = tm.const(1)
                for lab, o in zip(ins, ops):
                    p = p*_tt(o.raw()[tuple(ev[c] for c in lab)])
                s = s + p
            r[idx] = s
        k = promote(*[o.vd for o in ops])
        return wrap(r, k) if r.ndim else scalar(r[()], k)

    def kron(self, a, b):
        a, b = self.asarray(a), self.asarray(b)
        if _has_sarr(a, b):
            raise Unsupported("kron of symbolic arrays")
        nd = builtins.max(a.ndim, b.ndim)
        sa, sb = (1,)*(nd - a.ndim) + a.shape, (1,)*(nd - b.ndim) + b.shape
        A, Bm = a.raw().reshape(sa), b.raw().reshape(sb)
        o = _n.empty(tuple(p*q for p, q in zip(sa, sb)), dtype=object)
        for i in _n.ndindex(*sa):
            for j in _n.ndindex(*sb):
                o[tuple(x*n + y for x, n, y in zip(i, sb, j))] = _tt(A[i])*_tt(Bm[j])
        return wrap(o, promote(a.vd, b.vd))

    def ndenumerate(self, a):
        a = self.asarray(a)
        if _has_sarr(a):
            from vf import symarr
            return symarr.ndenumerate(a)
        return iter([(i, a.raw()[i]) for i in _n.ndindex(*a.shape)])

    def cross(self, a, b):
        a, b = self.asarray(a), self.asarray(b)
        if a.shape == (2,) and b.shape == (2,):
            return a[0]*b[1] - a[1]*b[0]
        raise Unsupported("cross")

    def _reduce(self, a, axis, f, k, keepdims=False):
        a = self.asarray(a)
        raw = a.raw()
        if axis is None:
            r = f(list(raw.reshape(-1)))
            return wrap(_n.full((1,)*a.ndim, r, dtype=object), k) if keepdims else r
        if isinstance(axis, T):
            axis = axis.__index__()
        if isinstance(axis, tuple):
            raise Unsupported("reduction over several axes")
        raw = _n.moveaxis(raw, axis, -1)
        o = _n.empty(raw.shape[:-1], dtype=object)
        for i in _n.ndindex(o.shape):
            o[i] = f(list(raw[i]))
        if keepdims:
            o = _n.expand_dims(o, axis)
        return wrap(o, k) if o.ndim else o[()]

    def sum(self, a, axis=None, keepdims=False, **kw):
        if kw and set(kw) - {"dtype"}:
            raise Unsupported("sum keywords")
        if _has_sarr(a):
            from vf import symarr
            return symarr.sum_(a, axis)
        a = self.asarray(a)

        def f(xs):
            s = tm.const(0)
            for x in xs:
                s = s + _tt(x)
            return s
        return self._reduce(a, axis, f, "i" if a.vd == "b" else a.vd, keepdims)

    def mean(self, a, axis=None, keepdims=False, **kw):
        if _has_sarr(a):
            from vf import symarr
            return symarr.mean(a, axis)
        a = self.asarray(a)
        n = a.size if axis is None else a.shape[axis]
        s = self.sum(a, axis, keepdims=keepdims)
        if n == 0:
            raise Unsupported("mean of nothing")
        return s/n

    def average(self, a, axis=None, weights=None):
        if weights is None:
            return self.mean(a, axis)
        raise Unsupported("weighted average")

    def prod(self, a, axis=None, **kw):
        if _has_sarr(a):
            from vf import symarr
            return symarr.prod(a, axis)

        def f(xs):
            s = tm.const(1)
            for x in xs:
                s = s*_tt(x)
            return s
        a = self.asarray(a)
        return self._reduce(a, axis, f, "i" if a.vd == "b" else a.vd)

    product = prod

    def max(self, a, axis=None, **kw):
        if _has_sarr(a):
            from vf import symarr
            return symarr.extreme(a, axis, "max")

        def f(xs):
            if not xs:
                raise ValueError("zero-size array to reduction operation maximum which has no identity")
            s = _tt(xs[0])
            for x in xs[1:]:
                s = smax(s, x)
            return s
        a = self.asarray(a)
        return self._reduce(a, axis, f, a.vd)

    amax = max

    def min(self, a, axis=None, **kw):
        if _has_sarr(a):
            from vf import symarr
            return symarr.extreme(a, axis, "min")

        def f(xs):
            if not xs:
                raise ValueError("zero-size array to reduction operation minimum which has no identity")
            s = _tt(xs[0])
            for x in xs[1:]:
                s = smin(s, x)
            return s
        a = self.asarray(a)
        return self._reduce(a, axis, f, a.vd)

    amin = min

    def any(self, a, axis=None, **kw):
        if _has_sarr(a):
            from vf import symarr
            return symarr.quant(a, axis, "any")
        return self._reduce(self.asarray(a), axis, lambda xs: tm.or_(*[_bo(x) for x in xs]), "b")

    def all(self, a, axis=None, **kw):
        if _has_sarr(a):
            from vf import symarr
            return symarr.quant(a, axis, "all")
        return self._reduce(self.asarray(a), axis, lambda xs: tm.and_(*[_bo(x) for x in xs]), "b")

    def count_nonzero(self, a, axis=None):
        a = self.asarray(a)
        return self.sum(a.astype(bool), axis)

    def trace(self, a):
        a = self.asarray(a)
        s = tm.const(0)
        for i in range(builtins.min(a.shape)):
            s = s + _tt(a.raw()[i, i])
        return s

    def diag(self, a):
        a = self.asarray(a)
        if type(a).__name__ == "SArr":
            from vf import symarr
            a = symarr.lower(a)
            if type(a).__name__ == "SArr":
                raise Unsupported("diag of a symbolic array")
        if a.ndim == 1:
            z = self.zeros((a.size, a.size), dtype=a.dtype)
            for i in range(a.size):
                z.raw()[i, i] = a.raw()[i]
            return z
        return wrap(_n.diag(a.raw()).copy(), a.vd)

    def isclose(self, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        if not _has_sarr(a, b):
            a, b = self.asarray(a), self.asarray(b)
        d = self.absolute(a - b)
        return self.less_equal(d, self.absolute(b)*rtol + atol)

    def allclose(self, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        return self.all(self.isclose(a, b, rtol, atol))

    def array_equal(self, a, b):
        if _has_sarr(a, b):
            if len(a.shape) != len(b.shape):
                return False
            from vf import symarr
            return self.all(self.equal(a, b)) if builtins.all(
                symarr.deq(x, y) for x, y in zip(a.shape, b.shape)) else False
        a, b = self.asarray(a), self.asarray(b)
        if a.shape != b.shape:
            return False
        return self.all(self.equal(a, b))

    def where(self, c, *ab):
        if not ab:
            c = self.asarray(c)
            if type(c).__name__ == "SArr":
                from vf import symarr
                return symarr.where1(c)
            bs = [_bo(x) for x in c.raw().flat]
            if c.ndim == 1 and sum(b not in (tm.TRUE, tm.FALSE) for b in bs) > 2:
                from vf import symarr
                return (symarr.selected(bs),)
            ix = _n.nonzero(_n.array([bool(x) for x in c.raw().flat], dtype=bool).reshape(c.shape))
            return tuple(self.array([int(v) for v in i], dtype=int) for i in ix)
        if _has_sarr(c, *ab):
            from vf import symarr
            return symarr.where3(c, *ab)
        c, a, b = self.asarray(c), self.asarray(ab[0]), self.asarray(ab[1])
        bs = _n.broadcast_arrays(c.raw(), a.raw(), b.raw())
        o = _n.empty(bs[0].shape, dtype=object)
        for i in _n.ndindex(o.shape):
            o[i] = tm.ite(_bo(bs[0][i]), _tt(bs[1][i]), _tt(bs[2][i]))
        k = promote(a.vd, b.vd)
        return wrap(o, k) if o.ndim else o[()]

    def clip(self, a, lo, hi):
        r = a
        if lo is not None:
            r = self.maximum(r, lo)
        if hi is not None:
            r = self.minimum(r, hi)
        return r

    def round(self, a, decimals=0, out=None):
        if out is not None:
            raise Unsupported("round(out=)")
        d = int(decimals)
        a = a if hasattr(a, "vd") else self.asarray(a)
        if a.vd == "c":
            raise Unsupported("rounding of complex values")
        if a.vd in ("i", "b") and d >= 0:
            return a.copy()
        q = Fraction(10)**d
        return self.rint(a*q)*(1/q)

    around = round_ = round

    def sort(self, a, axis=-1, kind=None, stable=None):
        a = self.asarray(a)
        if not isinstance(a, JArr) or a.vd == "c":
            raise Unsupported("np.sort")
        if axis is None:
            a, axis = a.ravel(), -1
        x = _n.moveaxis(a.raw().copy(), axis, -1)
        if x.shape[-1] > 9:
            raise Unsupported("np.sort of more than nine symbolic values")
        for i in range(x.shape[-1]):        # an exchange network
            for j in range(x.shape[-1] - 1 - i):
                for k in _n.ndindex(x.shape[:-1]):
                    p, q = x[k + (j,)], x[k + (j + 1,)]
                    x[k + (j,)], x[k + (j + 1,)] = smin(p, q), smax(p, q)
        return wrap(_n.moveaxis(x, -1, axis), a.vd)
    fix = UFunc("trunc")

    def nonzero(self, c):
        return self.where(c)

    def argwhere(self, c):
        return NP.stack(NP.where(c), axis=1)

    def divmod(self, a, b):
        return self.floor_divide(a, b), self.remainder(a, b)

    def cumsum(self, a, axis=None, dtype=None):
        if _has_sarr(a):
            from vf import symarr
            r = symarr.cumsum(a, axis)
            return r if dtype is None else r.astype(dtype)
        a = self.asarray(a)
        raw = _map(lambda x: cast(_tt(x), "i") if a.vd == "b" else x, a.raw())
        k = "i" if a.vd == "b" else a.vd
        if axis is None:
            raw, axis = raw.reshape(-1), 0
        o = _n.empty(raw.shape, dtype=object)
        mv, om = _n.moveaxis(raw, axis, 0), _n.moveaxis(o, axis, 0)
        for i in range(mv.shape[0]):
            for j in _n.ndindex(*mv.shape[1:]):
                om[(i,) + j] = mv[(i,) + j] if i == 0 else tm.add(om[(i - 1,) + j], mv[(i,) + j])
        r = wrap(o, k)
        return r if dtype is None else r.astype(dtype)

    def block(self, rows):
        if not isinstance(rows, (list, tuple)):
            return self.asarray(rows)
        if not isinstance(rows[0], (list, tuple)):
            return self.concatenate([self.atleast_1d(x) for x in rows], axis=-1)
        return self.concatenate([self.concatenate([self.atleast_2d(x) for x in r], axis=-1) for r in rows], axis=-2)

    def ndindex(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        if builtins.any(isinstance(n, T) and n.op != "const" for n in shape):
            from vf import symarr
            return symarr.product([symarr.SRange(n) for n in shape])
        return iter(_n.ndindex(*[int(n) for n in shape]))

    def cross(self, a, b):
        a, b = self.asarray(a), self.asarray(b)
        if _has_sarr([a, b]) or a.ndim != 1 or b.ndim != 1 or {a.shape[0], b.shape[0]} - {2, 3}:
            raise Unsupported("cross")
        x, y = [list(q.raw()) + [tm.const(0)]*(3 - q.shape[0]) for q in (a, b)]
        r = [x[1]*y[2] - x[2]*y[1], x[2]*y[0] - x[0]*y[2], x[0]*y[1] - x[1]*y[0]]
        k = promote(a.vd, b.vd)
        if a.shape[0] == b.shape[0] == 2:
            return wrap(_n.array(r[2], dtype=object), k)[()]
        return wrap(_n.array([cast(tm._co(q), k) for q in r], dtype=object), k)

    def bincount(self, x, weights=None, minlength=0):
        from vf import symarr
        x = self.asarray(x)
        if x.vd not in "ib":
            raise TypeError("Cannot cast array data from dtype('float64') to dtype('int64') according to the rule 'safe'")
        if x.ndim != 1:
            raise ValueError("object too deep for desired array")
        if not isinstance(minlength, T) and minlength == 0:
            raise Unsupported("np.bincount without minlength")
        # (the result is longer when a value is not below minlength: an obligation that it is)
        out = self.zeros((minlength,), dtype=int if weights is None else float)
        symarr.add_at(out, x, 1 if weights is None else self.asarray(weights))
        return out

    def flatnonzero(self, c):
        return self.where(self.asarray(c).ravel())[0]

    def _joined(self, xs, f):
        xs = [self.asarray(x) for x in xs]
        k = promote(*[x.vd for x in xs])
        return wrap(f([_map(lambda v: cast(v, k), x.raw()) for x in xs]), k)

    def hstack(self, xs, **kw):
        if _has_sarr(xs):
            from vf import symarr
            return symarr.hstack(xs)
        return self._joined(xs, _n.hstack)

    def vstack(self, xs, **kw):
        if _has_sarr(xs):
            from vf import symarr
            return symarr.vstack(xs)
        return self._joined(xs, _n.vstack)

    def column_stack(self, xs):
        if _has_sarr(xs):
            from vf import symarr
            return symarr.column_stack(xs)
        return self._joined(xs, _n.column_stack)

    def concatenate(self, xs, axis=0, **kw):
        if _has_sarr(xs):
            from vf import symarr
            return symarr.concatenate(xs, axis)
        return self._joined(xs, lambda ys: _n.concatenate(ys, axis=axis))

    def append(self, a, b, axis=None):
        if axis is None:
            return self.concatenate([self.ravel(a), self.ravel(b)])
        return self.concatenate([a, b], axis)

    def stack(self, xs, axis=0, **kw):
        if _has_sarr(xs):
            from vf import symarr
            return symarr.stack(xs, axis)
        return self._joined(xs, lambda ys: _n.stack(ys, axis=axis))

    def meshgrid(self, *xs, indexing="xy", **kw):
        if _has_sarr(*xs):
            from vf import symarr
            return symarr.meshgrid(xs, indexing)
        xs = [self.asarray(x) for x in xs]
        g = _n.meshgrid(*[_n.arange(x.size) for x in xs], indexing=indexing)
        return [wrap(x.raw().reshape(-1)[i], x.vd) for x, i in zip(xs, g)]

    def reshape(self, a, shape, order="C"):
        return self.asarray(a).reshape(shape, order=order)

    def ravel(self, a, order="C"):
        return self.asarray(a).ravel(order)

    def transpose(self, a, axes=None):
        a = self.asarray(a)
        return a.T if axes is None else a.transpose(axes)

    def squeeze(self, a, *k):
        return self.asarray(a).squeeze(*k)

    def broadcast_to(self, a, shape):
        a = self.asarray(a)
        return wrap(_n.broadcast_to(a.raw(), _shp(shape)), a.vd)

    def tile(self, a, reps):
        if _has_sarr(a, reps) or (isinstance(reps, T) and reps.op != "const"):
            from vf import symarr
            return symarr.tile(a, reps)
        a = self.asarray(a)
        return wrap(_n.tile(a.raw(), _shp(reps) if not isinstance(reps, int) else reps), a.vd)

    def repeat(self, a, n, axis=None):
        if _symshape(n) or _has_sarr(a):
            from vf import symarr
            return symarr.repeat(a, n, axis)
        a = self.asarray(a)
        return wrap(_n.repeat(a.raw(), _dimn(n), axis=axis), a.vd)

    def roll(self, a, n, axis=None):
        a = self.asarray(a)
        return wrap(_n.roll(a.raw(), int(n), axis=axis), a.vd)

    def flip(self, a, axis=None):
        a = self.asarray(a)
        if type(a).__name__ == "SArr":
            ax = range(a.ndim) if axis is None else [x % a.ndim for x in (axis if isinstance(axis, (tuple, list)) else (axis,))]
            return a[tuple(slice(None, None, -1) if i in ax else slice(None) for i in range(a.ndim))]
        return wrap(_n.flip(a.raw(), axis=axis), a.vd)

    def flipud(self, a):
        return self.flip(a, 0)

    def fliplr(self, a):
        return self.flip(a, 1)

    def swapaxes(self, a, i, j):
        a = self.asarray(a)
        p = list(range(a.ndim))
        p[i], p[j] = p[j], p[i]
        return a.transpose(*p)

    def logical_xor(self, a, b):
        return self.not_equal(self.asarray(a).astype(bool), self.asarray(b).astype(bool))

    def ptp(self, a, axis=None):
        return self.max(a, axis=axis) - self.min(a, axis=axis)

    def select(self, conds, vals, default=0):
        r = default
        for c, v in list(zip(list.__iter__(conds), list.__iter__(vals)))[::-1]:
            r = self.where(c, v, r)
        return r

    def isin(self, a, xs, invert=False):
        a, xs = self.asarray(a), self.asarray(xs)
        if type(xs).__name__ == "SArr" or xs.size > 8:
            raise Unsupported("np.isin")
        r = self.zeros(a.shape, dtype=bool)
        for x in xs.raw().flat:
            r = self.logical_or(r, a == x)
        return self.logical_not(r) if invert else r

    in1d = isin

    def delete(self, a, obj, axis=None):
        a = self.asarray(a)
        if type(a).__name__ == "SArr" or not (isinstance(obj, int) or isinstance(obj, (list, tuple)) and
                                              all(isinstance(x, int) for x in list(obj))):
            raise Unsupported("np.delete")
        return wrap(_n.delete(a.raw(), obj if isinstance(obj, int) else list(obj), axis=axis), a.vd)

    def ix_(self, *xs):
        if _has_sarr(*xs):
            from vf import symarr
            return symarr.ix_(*xs)
        n = len(xs)
        return tuple(self.asarray(x).reshape([-1 if i == j else 1 for j in range(n)]) for i, x in enumerate(xs))

    def shape(self, a):
        return self.asarray(a).shape

    def size(self, a, axis=None):
        a = self.asarray(a)
        return a.size if axis is None else a.shape[axis]

    def ndim(self, a):
        return self.asarray(a).ndim

    def isscalar(self, a):
        return isinstance(a, (T, int, float))

    def take(self, a, ix, axis=None):
        a = self.asarray(a)
        if axis is None:
            return a.ravel()[ix]
        return a[(slice(None),)*axis + (ix,)]

    def unique(self, a, **kw):
        if _has_sarr(a) and not kw:
            from vf import symarr
            return symarr.unique(a)
        a = self.asarray(a)
        if kw or builtins.any(isinstance(x, T) and x.op != "const" for x in a.raw().flat):
            raise Unsupported("np.unique")
        return wrap(_n.array(sorted(set(x.args[0] for x in a.raw().flat)), dtype=object), a.vd) \
            if False else self.array(sorted({(int(x.args[0]) if x.sort == I else float(x.args[0]))
                                             for x in a.raw().flat}), dtype=a.dtype)

    def float_(self, x):
        return conv(x, "f")

    def savetxt(self, *a, **k):
        return IO[0]("savetxt", a, k)

    def loadtxt(self, *a, **k):
        return IO[0]("loadtxt", a, k)

    def errstate(self, **k):
        import contextlib
        return contextlib.nullcontext()

    def seterr(self, **k):
        return {}


class _Named:
    def __init__(self, n):
        self.__name__ = n


def _noio(*a):
    raise Unsupported("file access")


IO = [_noio]
# keyword arguments a model does not know are outside the subset, never ignored
_LAYOUT = ("order", "subok", "like", "copy", "device", "casting")
_REDUCE = ("sum", "mean", "prod", "max", "min", "any", "all")


def _keywords(f, ok=()):
    known = set(inspect.signature(f).parameters) - {"kw", "k"}

    @functools.wraps(f)
    def g(*a, **k):
        for x in k:
            if x not in known and x not in ok:
                raise Unsupported("keyword %s of %s" % (x, f.__name__))
        return f(*a, **k)
    return g


def _reduction(f):
    def g(self, a, axis=None, *rest, **k):
        kd = k.pop("keepdims", False)
        dt = k.pop("dtype", None)
        if rest or k:
            raise Unsupported("arguments of %s" % f.__name__)
        a = a if hasattr(a, "vd") else self.asarray(a)
        if dt is not None and norm_dtype(dt) != a.vd:
            a = a.astype(dt)
        nd = a.ndim
        r = f(self, a, axis)
        if kd:
            if axis is None:
                r = self.asarray(r).reshape((1,)*nd)
            elif isinstance(axis, tuple):
                raise Unsupported("keepdims over several axes")
            else:
                ax = int(axis) % nd
                r = self.asarray(r)[(builtins.slice(None),)*ax + (None,)]
        return r
    g.__name__ = f.__name__
    return g


for _k in _REDUCE:
    setattr(_NP, _k, _reduction(vars(_NP)[_k]))
for _k in ("array", "asarray", "zeros", "ones", "full", "empty", "zeros_like", "ones_like", "empty_like"):
    setattr(_NP, _k, _keywords(vars(_NP)[_k], _LAYOUT))
_NP.asanyarray = _NP.ascontiguousarray = _NP.asarray
for _k in ("linspace", "hstack", "vstack", "concatenate", "stack", "unique"):
    setattr(_NP, _k, _keywords(vars(_NP)[_k]))
_NP.einsum = _keywords(_NP.einsum, ("optimize",))
_NP.meshgrid = _keywords(_NP.meshgrid, ("copy",))
_NP.amax, _NP.amin = _NP.max, _NP.min
Linalg.norm = staticmethod(_keywords(Linalg.norm))
JArr.astype = _keywords(JArr.astype, _LAYOUT)
NP = _NP()


def conv(x, k):
    """float(x), int(x), bool(x) on values that may be terms"""
    if isinstance(x, JArr):
        if x.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        x = x.raw().reshape(-1)[0]
    if isinstance(x, T):
        if k == "i":
            return cast(x, "i")
        if k == "f":
            t = tm._num(x)
            if t.sort == I and t.op == "const":
                return float(t.args[0])
            return t
        if k == "b":
            return bool(x)
        return x
    return {"i": int, "f": float, "b": bool, "c": complex}[k](x)
