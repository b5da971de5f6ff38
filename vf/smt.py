"""Translation to z3 and proof calls."""
import time
import z3
from vf import terms as tm
from vf.terms import T, R, I, B

STATS = {"z3_calls": 0, "z3_time": 0.0, "unknown": 0}
_memo = {}


def sort_of(s):
    return {R: z3.RealSort(), I: z3.IntSort(), B: z3.BoolSort()}[s]


def num(x, want):
    """coerce a z3 expr to a sort"""
    if want == R and z3.is_int(x):
        return z3.ToReal(x)
    return x


class Tr:
    """term -> z3; collects side axioms"""
    def __init__(self):
        self.ax = []
        self.done = {}
        self.env = {}
        self.counts = {}
        self.grow = set()

    def go(self, t, bound=()):
        key = (t.id, tuple(b.get_id() for b in bound) if _has_bvar(t) else ())
        r = self.done.get(key)
        if r is None:
            r = self._go(t, bound)
            self.done[key] = r
        return r

    def _go(self, t, bound):
        op = t.op
        if op == "const":
            if t.sort == I:
                return z3.IntVal(int(t.args[0]))
            return z3.RealVal(str(t.args[0]))
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "var":
            return z3.Const("v%d_%s" % (t.id, t.args[0]), sort_of(t.sort))
        if op == "bvar":
            # a bound variable outside its binder: any value
            return self.env[t.id] if t.id in self.env else z3.Const("b%d" % t.id, sort_of(t.sort))
        if op in ("add", "mul"):
            a, b = self.go(t.args[0], bound), self.go(t.args[1], bound)
            if t.sort == R:
                a, b = num(a, R), num(b, R)
            return a + b if op == "add" else a*b
        if op == "div":
            a, b = num(self.go(t.args[0], bound), R), num(self.go(t.args[1], bound), R)
            return a/b
        if op in ("lt", "le", "eq"):
            a, b = self.go(t.args[0], bound), self.go(t.args[1], bound)
            if z3.is_real(a) or z3.is_real(b):
                a, b = num(a, R), num(b, R)
            return a < b if op == "lt" else a <= b if op == "le" else a == b
        if op == "not":
            return z3.Not(self.go(t.args[0], bound))
        if op == "and":
            return z3.And(*[self.go(a, bound) for a in t.args])
        if op == "or":
            return z3.Or(*[self.go(a, bound) for a in t.args])
        if op == "ite":
            c, a, b = (self.go(x, bound) for x in t.args)
            if t.sort == R:
                a, b = num(a, R), num(b, R)
            return z3.If(c, a, b)
        if op == "app":
            name = t.args[0]
            a = [self.go(x, bound) for x in t.args[1:]]
            if name == "idiv":
                return a[0]/a[1]
            if name == "imod":
                return a[0] % a[1]
            if name == "sqrt":
                x = num(a[0], R)
                s = z3.Function("sqrt", z3.RealSort(), z3.RealSort())(x)
                if not _has_bvar(t):
                    self.ax += [s >= 0, z3.Implies(x >= 0, s*s == x)]
                return s
            if name == "trunc":
                x = num(a[0], R)
                return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
            if name == "floor":
                return z3.ToInt(num(a[0], R))
            if name == "rint":
                x = num(a[0], R)
                n = z3.ToInt(x + z3.Q(1, 2))
                return z3.If(z3.And(z3.ToReal(n) == x + z3.Q(1, 2), n % 2 == 1), n - 1, n)
            f = z3.Function("f_" + name + "_%d" % len(a), *[x.sort() for x in a], sort_of(t.sort))
            return f(*a)
        if op in ("sum", "last", "lam"):
            # abstract: a function of the bound variables and its id
            bs = [self.go(b, bound) for b in _bvars(t)]
            if op == "last":
                f = z3.Function("last_%d" % t.id, *[b.sort() for b in bs], z3.IntSort()) if bs else None
                v = f(*bs) if bs else z3.Int("last_%d" % t.id)
                if not bs:
                    lo, hi = self.go(t.args[1], bound), self.go(t.args[2], bound)
                    ex = self.go(tm._mk("exists", t.args, B), bound)
                    x = z3.Int("bl_%d" % t.id)
                    body = self.bind(t, x, bound)
                    self.ax.append(z3.Implies(ex, z3.And(lo <= v, v < hi, z3.substitute(body, (x, v)),
                                   z3.ForAll([x], z3.Implies(z3.And(v < x, x < hi), z3.Not(body))))))
                return v
            if op == "sum" and counting(t):
                return self.count(t, bound)
            if bs:
                return z3.Function("sum_%d" % t.id, *[b.sort() for b in bs], sort_of(t.sort))(*bs)
            return z3.Const("sum_%d" % t.id, sort_of(t.sort))
        if op == "exists":
            x = z3.Int("be_%d_%d" % (t.id, len(bound)))
            lo, hi = self.go(t.args[1], bound), self.go(t.args[2], bound)
            body = self.bind(t, x, bound)
            return z3.Exists([x], z3.And(lo <= x, x < hi, body))
        raise tm.Unsupported("z3 translation of %s" % op)

    def count(self, t, bound):
        """sum of zeros and ones as a function of its range: never negative,
        at most the length of the range, and growing by the body"""
        bv, lo, hi, body = t.args
        lo, hi = self.go(lo, bound), self.go(hi, bound)
        f = z3.Function("count_%d_%d" % (bv.id, body.id), z3.IntSort(), z3.IntSort(), z3.IntSort())
        v = f(lo, hi)
        if not _has_bvar(t):
            self.ax += [v >= 0, z3.Implies(hi <= lo, v == 0), z3.Implies(lo <= hi, v <= hi - lo)]
            x = z3.Int("cz_%d" % t.id)
            self.ax.append(z3.Implies(v == 0, z3.ForAll([x], z3.Implies(z3.And(lo <= x, x < hi), self.at(t, x) == 0))))
            same = self.counts.setdefault(f.name(), [])
            for lo2, hi2, v2 in same:
                if z3.eq(lo, lo2):
                    for a, b, x, y in ((hi, hi2, v, v2), (hi2, hi, v2, v)):
                        self.ax.append(z3.Implies(z3.And(lo <= a, a < b), x + self.at(t, a) <= y))
            same.append((lo, hi, v))
        elif not _has_bvar(t.args[1]) and f.name() not in self.grow:
            self.grow.add(f.name())
            a, b = z3.Ints("ca_%d cb_%d" % (t.id, t.id))
            self.ax.append(z3.ForAll([a, b], z3.Implies(z3.And(lo <= a, a < b), f(lo, a) + self.at(t, a) <= f(lo, b)),
                                     patterns=[z3.MultiPattern(f(lo, a), f(lo, b))]))
        return v

    def at(self, t, x):
        b = self.bind(t, x, (x,))
        return b

    def bind(self, t, x, bound):
        bv = t.args[0]
        old = self.env.get(bv.id)
        self.env[bv.id] = x
        try:
            return self.go(t.args[3], bound + (x,))
        finally:
            if old is None:
                self.env.pop(bv.id, None)
            else:
                self.env[bv.id] = old


_cnt = {}


def counting(t):
    """a sum of zeros and ones whose body depends on no outer binder"""
    r = _cnt.get(t.id)
    if r is None:
        def zo(b):
            return b.op == "const" and b.args[0] in (0, 1) or b.op == "ite" and zo(b.args[1]) and zo(b.args[2])
        r = _cnt[t.id] = t.sort == I and zo(t.args[3]) and all(b is t.args[0] for b in _bvars(t.args[3]))
    return r


_bv = {}


def _bvars(t):
    """free bound-variable placeholders of t"""
    r = _bv.get(t.id)
    if r is None:
        if t.op == "bvar":
            r = (t,)
        else:
            s = {}
            for k, a in enumerate(t.args):
                if isinstance(a, T):
                    for b in _bvars(a):
                        if t.op in tm.BINDERS and b is t.args[0] and k in (0, 3):
                            continue
                        s[b.id] = b
            r = tuple(s[k] for k in sorted(s))
        _bv[t.id] = r
    return r


def _has_bvar(t):
    return bool(_bvars(t))


# axiom schemas: application name -> f(args) giving formulas that hold for
# every value of the arguments; instantiated for the applications of a query
def _enum(name):
    """the element of a set at a position is a member"""
    def f(key, i):
        if key.op != "lam":
            return []
        return [tm.or_(tm.lt(i, tm.const(0)), tm.le(tm.enum_count(key), i),
                       tm.member_of(key, tm.app(name, (key, i), I)))]
    return f


class Schemas(dict):
    BUILTIN = {n: _enum(n) for n in tm.ENUMS}

    def __init__(self):
        self.clear()

    def clear(self):
        dict.clear(self)
        dict.update(self, self.BUILTIN)


SCHEMAS = Schemas()


def instances(t, done, out):
    """instances for the applications of t outside binders; below an
    existential the instances are conjoined to its body"""
    for s in tm.subterms(t):
        if s.op == "app" and s.args[0] in SCHEMAS and s.id not in done and not _has_bvar(s):
            done.add(s.id)
            out += [f for f in SCHEMAS[s.args[0]](*s.args[1:]) if f is not tm.TRUE]


_inst = {}


def under(t):
    """t with the instances added below existentials"""
    if not any(s.op in ("exists", "last") for s in tm.subterms(t)):
        return t
    r = _inst.get(t.id)
    if r is None:
        r = _inst[t.id] = _under(t)
    return r


def _under(t):
    if t.op in ("exists",):
        v = tm.fresh("b", I)
        body = under(tm._rename(t.args[3], t.args[0], v))
        new, done = [], set()
        todo = [body]
        for _ in range(2):
            out = []
            for x in todo:
                for s in tm.subterms(x):
                    if s.op == "app" and s.args[0] in SCHEMAS and s.id not in done and tm.depends(s, v) \
                            and not _has_bvar(s):
                        done.add(s.id)
                        out += [f for f in SCHEMAS[s.args[0]](*s.args[1:]) if f is not tm.TRUE]
            new += out
            todo = out
        if not new and body is tm._rename(t.args[3], t.args[0], v):
            return t
        return tm._bind("exists", v, t.args[1], t.args[2], tm.and_(body, *new), B)
    if not any(isinstance(a, T) for a in t.args) or t.op in tm.BINDERS or t.op == "app":
        return t
    na = tuple(under(a) if isinstance(a, T) else a for a in t.args)
    return t if all(p is q for p, q in zip(na, t.args)) else tm.remake(t, na)


def axioms(fs):
    if not SCHEMAS:
        return list(fs)
    fs = [under(f) for f in fs]
    done, new, todo = set(), [], list(fs)
    for _ in range(3):
        out = []
        for f in todo:
            instances(f, done, out)
        new += out
        todo = out
        if not out:
            break
    return fs + new


BUSY = [0]      # a query is being built
SCALE = 1       # factor on all solver time limits


def linear_unsat(fs):
    """unsatisfiable already with every monomial an independent real number"""
    from vf.poly import poly, padd, TooBig
    mono, opaque = {}, {}

    def value(p):
        e = z3.RealVal(0)
        for m, c in p.items():
            x = z3.RealVal(str(c))
            if m:
                v = mono.get(m)
                if v is None:
                    v = mono[m] = z3.Real("m%d" % len(mono))
                x = x*v
            e = e + x
        return e

    def go(f):
        if f.op == "true" or f.op == "false":
            return z3.BoolVal(f.op == "true")
        if f.op == "not":
            return z3.Not(go(f.args[0]))
        if f.op in ("and", "or"):
            return (z3.And if f.op == "and" else z3.Or)(*[go(a) for a in f.args])
        if f.op in ("lt", "le", "eq") and f.args[0].sort != B and not _has_bvar(f):
            try:
                e = value(padd(poly(tm._num(f.args[0])), poly(tm._num(f.args[1])), -1))
                return e < 0 if f.op == "lt" else e <= 0 if f.op == "le" else e == 0
            except TooBig:
                pass
        b = opaque.get(f.id)
        if b is None:
            b = opaque[f.id] = z3.Bool("o%d" % f.id)
        return b
    s = z3.Solver()
    s.set("timeout", 500)
    try:
        for f in fs:
            s.add(go(f))
    except TooBig:
        return False
    return s.check() == z3.unsat


def check(fs, timeout=2000, want_model=False):
    """satisfiability of a conjunction of terms"""
    timeout = int(timeout*SCALE)
    BUSY[0] += 1
    try:
        fs = axioms(fs)
    finally:
        BUSY[0] -= 1
    key = (frozenset(f.id for f in fs), want_model)
    if key in _memo and (_memo[key][0] != "unknown" or _memo[key][2] >= timeout):
        return _memo[key][:2]
    tr = Tr()
    s = z3.Solver()
    s.set("timeout", timeout)
    es = [tr.go(f) for f in fs]
    for e in es + tr.ax:
        s.add(e)
    t0 = time.time()
    STATS["z3_calls"] += 1
    r = s.check()
    STATS["z3_time"] += time.time() - t0
    m = None
    if r == z3.sat and want_model:
        m = s.model()
    res = str(r)
    if res == "unknown":
        if linear_unsat(fs):
            res = "unsat"
        else:
            STATS["unknown"] += 1
    _memo[key] = (res, (m, tr), timeout)
    return res, (m, tr)


def valid(assumptions, goal, timeout=2000):
    """'proved' | 'refuted' | 'unknown'"""
    if goal is tm.TRUE:
        return "proved"
    if any(a is tm.FALSE for a in assumptions):
        return "proved"
    if any(a is goal for a in assumptions):
        return "proved"
    r, _ = check(list(assumptions) + [tm.not_(goal)], timeout)
    return {"unsat": "proved", "sat": "refuted", "unknown": "unknown"}[r]


def model_values(res, names):
    """values of variables {label: term} in a model"""
    m, tr = res
    out = {}
    for k, t in names.items():
        try:
            v = m.eval(tr.go(t), model_completion=True)
            if z3.is_int_value(v):
                out[k] = v.as_long()
            elif z3.is_rational_value(v):
                out[k] = float(v.as_fraction())
            elif z3.is_algebraic_value(v):
                out[k] = float(v.approx(12).as_fraction())
        except Exception:
            pass
    return out
