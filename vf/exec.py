"""Path exploration and obligation discharge."""
import linecache
import os
import re
import random
import mpmath
from vf import terms as tm, smt, poly as pl, symnp, loader
from vf.terms import T, R, I, B, Unsupported

mpmath.mp.dps = 40
MAXPATHS = 200


class Path:
    def __init__(self, pc, value=None, exc=None, sides=()):
        self.pc, self.value, self.exc, self.sides = list(pc), value, exc, list(sides)
        self.frames = []


class Explorer:
    """runs a thunk over all feasible decision vectors"""
    def __init__(self, assumptions, timeout=400):
        self.assume = list(assumptions)
        self.timeout = timeout
        self.extra = []         # facts introduced by callee contracts on this path
        self.worlds = []

    def facts(self):
        r = list(self.assume) + [f for f, _ in self.taken] + list(self.extra)
        for fr in loader.LOOPS:
            r += fr.facts()
        return r

    def decide(self, f):
        if loader.LOOPS and loader.LOOPS[-1].deciding():
            return loader.LOOPS[-1].decide(f)
        return self.decide_outer(f)

    def decide_outer(self, f):
        nf = tm.not_(f)
        for g, _ in self.taken:     # g holds on this path
            if g is f:
                return True
            if g is nf:
                return False
        if len(self.taken) < len(self.prefix):
            v = self.prefix[len(self.taken)]
            self.taken.append((f if v else tm.not_(f), v))
            return v
        if len(self.taken) > 400:
            raise tm.Unsupported("too many decisions on one path")
        can_t = self.feasible(f)
        can_f = self.feasible(tm.not_(f)) if can_t else True
        if can_t and can_f:
            self.todo.append([v for _, v in self.taken] + [False])
            v = True
        else:
            v = can_t
        self.taken.append((f if v else tm.not_(f), v))
        return v

    def feasible(self, f):
        r, _ = smt.check(self.facts() + [f], self.timeout)
        return r != "unsat"

    def values(self, t, most=16):
        """all values the integer t can take here, None when there may be more than `most`"""
        fs = self.facts()
        far = tm.const(10**6)
        if self.feasible(tm.or_(tm.lt(far, t), tm.lt(t, tm.neg(far)))):
            return None
        out = []
        v = tm.var("value", I)
        fs.append(tm.eq(v, t))
        while True:
            r, res = smt.check(fs, self.timeout, want_model=True)
            if r == "unsat":
                return sorted(out) or None
            if r != "sat" or len(out) >= most:
                return None
            x = smt.model_values(res, {0: v}).get(0)
            if not isinstance(x, int) or x in out:
                return None
            out.append(x)
            fs.append(tm.not_(tm.eq(t, tm.const(x))))

    def divsafe(self, b):
        self.sides.append((tm.not_(tm.eq(b, tm.const(0))), list(f for f, _ in self.taken),
                           [x for fr in loader.LOOPS for x in fr.facts()]))

    def nonneg(self, b):
        self.sides.append((tm.le(tm.const(0), b), list(f for f, _ in self.taken),
                           [x for fr in loader.LOOPS for x in fr.facts()]))

    def side(self, f):
        self.sides.append((f, list(g for g, _ in self.taken), [x for fr in loader.LOOPS for x in fr.facts()]))

    def assume_fact(self, f):
        self.extra.append(f)

    def run(self, thunk):
        out = []
        self.todo = [[]]
        old = dict(tm._hooks)
        tm._hooks.update(decide=self.decide, values=self.values, divsafe=self.divsafe, nonneg=self.nonneg)
        global CURRENT
        prev, CURRENT = CURRENT, self
        try:
            while self.todo:
                if len(out) > MAXPATHS:
                    raise Unsupported("more than %d paths" % MAXPATHS)
                self.prefix = self.todo.pop()
                self.taken, self.sides, self.extra, self.worlds = [], [], [], []
                loader.LOOPS.clear()
                try:
                    v = thunk()
                    if loader.LOOPS:
                        raise Unsupported("loop left early")
                    p = Path([f for f, _ in self.taken] + self.extra, v, None, self.sides)
                    p.frames = [f for w in self.worlds for f in w.frames]
                except (Unsupported, KeyboardInterrupt, tm.PathAbort):
                    raise
                except Exception as e:
                    if loader.LOOPS:
                        loader.LOOPS.clear()
                        raise Unsupported("exception inside a symbolic loop: %s: %s" % (type(e).__name__, e))
                    if os.environ.get("VF_TRACE"):
                        import traceback
                        traceback.print_exc()
                    tb = e.__traceback__
                    while tb.tb_next is not None:
                        tb = tb.tb_next
                    fn = tb.tb_frame.f_code.co_filename
                    if isinstance(e, (TypeError, AttributeError, NotImplementedError)) and of_model(str(e)):
                        raise Unsupported("%s of a model of the verifier: %s" % (type(e).__name__, e))
                    if os.path.basename(fn) in BACKEND and os.path.dirname(fn) == os.path.dirname(__file__) and \
                            not linecache.getline(fn, tb.tb_lineno).strip().startswith("raise "):
                        raise Unsupported("%s in the verifier: %s (%s:%d)" % (
                            type(e).__name__, e, os.path.basename(fn), tb.tb_lineno))
                    if not fn.startswith(loader.REPO + os.sep) and not isinstance(
                            e, (ValueError, IndexError, KeyError, ZeroDivisionError, StopIteration)):
                        raise Unsupported("%s in the verifier's models: %s (%s:%d)" % (
                            type(e).__name__, e, os.path.basename(fn), tb.tb_lineno))
                    p = Path([f for f, _ in self.taken] + self.extra, None, e, self.sides)
                out.append(p)
        finally:
            tm._hooks.update(old)
            CURRENT = prev
            loader.LOOPS.clear()
        return out


# the parts of the verifier that stand for no part of NumPy: what goes wrong there is not the program's
BACKEND = {"smt.py", "poly.py", "simp.py", "terms.py", "exec.py"}
CURRENT = None
_MODELS = set()


def of_model(msg):
    """the message names a class of the verifier's models: what the real class does there is not known"""
    if not _MODELS:
        import sys
        _MODELS.update(("method", "function", "builtin_function_or_method"))
        for nm, m in list(sys.modules.items()):
            if nm.startswith(("vf.", "contracts.")) and m is not None:
                _MODELS.update(k for k, c in vars(m).items()
                               if isinstance(c, type) and getattr(c, "__module__", "").startswith(("vf.", "contracts.")))
    names = re.findall(r"'([\w.]+)'", msg) + re.findall(r"\b([\w.<>]+)\(\)", msg)
    return any(x in _MODELS for n in names for x in n.split(".")) or "<locals>" in msg


# ------------------------------------------------------------- evaluation
class NoValue(Exception):
    pass


def evaluate(t, env, memo=None):
    """value of a term (mpmath); env: var id -> number; uninterpreted
    applications get arbitrary but fixed values"""
    memo = {} if memo is None else memo

    def go(x):
        r = memo.get(x.id)
        if r is None:
            r = memo[x.id] = ev(x)
        return r

    def ev(x):
        op, a = x.op, x.args
        if op == "const":
            q = a[0]
            return int(q) if q.denominator == 1 else mpmath.mpf(q.numerator)/q.denominator
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "var":
            if x.id in env:
                return env[x.id]
            raise NoValue(a[0])
        if op == "add":
            return go(a[0]) + go(a[1])
        if op == "mul":
            return go(a[0])*go(a[1])
        if op == "div":
            d = go(a[1])
            if d == 0:
                raise NoValue("division by zero")
            return mpmath.mpf(1)*go(a[0])/d
        if op == "lt":
            return go(a[0]) < go(a[1])
        if op == "le":
            return go(a[0]) <= go(a[1])
        if op == "eq":
            return go(a[0]) == go(a[1])
        if op == "not":
            return not go(a[0])
        if op == "and":
            return all(go(y) for y in a)
        if op == "or":
            return any(go(y) for y in a)
        if op == "ite":
            return go(a[1]) if go(a[0]) else go(a[2])
        if op == "app":
            v = [go(y) for y in a[1:]]
            f = a[0]
            if f == "sqrt":
                if v[0] < 0:
                    raise NoValue("sqrt")
                return mpmath.sqrt(v[0])
            if f in ("sin", "cos", "exp"):
                return getattr(mpmath, f)(v[0])
            if f == "cis":
                return mpmath.expj(v[0])
            if f == "I*":
                return mpmath.mpc(0, 1)*v[0]
            if f == "arctan2":
                return mpmath.atan2(*v)
            if f in ("idiv", "imod"):
                if v[1] == 0:
                    raise NoValue("idiv")
                return v[0]//v[1] if f == "idiv" else v[0] % v[1]
            if f == "trunc":
                return int(v[0])
            if f == "floor":
                return int(mpmath.floor(v[0]))
            if f == "rint":
                return int(mpmath.nint(v[0]))
            key = (f,) + tuple(q if isinstance(q, (int, str)) else mpmath.nstr(q, 25) for q in v)
            if ("app", key) not in env:
                rnd = random.Random(repr(key))
                env[("app", key)] = rnd.randint(0, 5) if x.sort == I else \
                    bool(rnd.getrandbits(1)) if x.sort == B else mpmath.mpf(rnd.randint(-2000, 2000))/997
            return env[("app", key)]
        if op == "lam":
            return "lam%d" % x.id
        if op in ("sum", "exists", "last"):
            lo, hi = go(a[1]), go(a[2])
            if hi - lo > 400:
                raise NoValue("range")
            acc = 0 if op == "sum" else False
            for k in range(int(lo), int(hi)):
                b = evaluate(tm.instantiate(x, k), env)
                if op == "sum":
                    acc = acc + b
                elif op == "exists":
                    if b:
                        return True
                elif b:
                    acc = k
            return acc
        raise NoValue(op)
    import sys
    sys.setrecursionlimit(100000)
    return go(t)


def rel_diff(a, b):
    s = max(abs(a), abs(b))
    return 0 if s == 0 else abs(a - b)/s


# ---------------------------------------------------------------- proving
class Result:
    # kind of an "unknown": failed (the verifier does not accept the obligation) or
    # outside (it could not be generated or decided)
    def __init__(self, status, backend="", detail=None, witness=None, kind="failed"):
        self.status, self.backend, self.detail, self.witness, self.kind = status, backend, detail, witness, kind


def find_point(facts, variables, sampler, tries=60, check=None, seed=0):
    """assignment satisfying all facts (evaluated), and `check(env)` if given"""
    rng = random.Random(seed)
    last = None
    for k in range(tries):
        env = sampler(rng) if sampler else None
        if env is None:
            break
        env = {v.id: mpmath.mpf(x) if isinstance(x, float) else x for v, x in env.items()}
        try:
            memo = {}
            if all(evaluate(f, env, memo) for f in facts):
                if check is None or check(env):
                    return env
        except NoValue as e:
            last = e
    return None


def solver_point(facts, variables, timeout=3000):
    r, res = smt.check(list(facts), timeout, want_model=True)
    if r != "sat":
        return None
    vals = smt.model_values(res, {v.id: v for v in variables})
    return {k: (x if isinstance(x, int) else mpmath.mpf(x)) for k, x in vals.items()}


def named(env, variables):
    return {v.args[0]: (env[v.id] if isinstance(env[v.id], int) else float(env[v.id]))
            for v in variables if v.id in env}


def prove_equal(pairs, facts, variables=(), sampler=None, tol=pl.TOL, label=None, tries=12, timeout=3000):
    """all (got, want) equal under facts"""
    bad, nbad = None, 0
    used = set()
    for lab, g, w in pairs:
        if nbad >= 4:
            break
        g, w = tm._co(g), tm._co(w)
        if g is None or w is None:
            return Result("refuted", "evaluation", "%s: not a number" % (lab,), {})
        try:
            if pl.equal(g, w, tol):
                used.add("normal form")
                continue
        except pl.TooBig:
            pass
        r = smt.valid(facts, tm.eq(g, w), timeout) if _smallish(g, w) else "unknown"
        if r == "proved":
            used.add("z3")
            continue
        # look for a point where they differ
        memo = {}

        def differs(env):
            a, b = evaluate(g, env), evaluate(w, env)
            return abs(a - b) > mpmath.mpf("1e-9")*(1 + max(abs(a), abs(b))) and rel_diff(a, b) > mpmath.mpf("1e-9")
        env = find_point(facts, variables, sampler, tries=40, check=_safe(differs))
        if env is None and r == "refuted" and tol == 0:
            env = solver_point(list(facts) + [tm.not_(tm.eq(g, w))], variables)
            if env is not None and not _safe(differs)(env):
                env = None
        if env is None and r == "refuted":
            env = solver_point(list(facts) + [tm.lt(tm.const(1e-6), tm.absv(tm.add(g, tm.neg(w))))], variables)
            if env is not None and not _safe(lambda e: all(evaluate(f, e) for f in facts) and differs(e))(env):
                env = None
        if env is not None:
            a, b = evaluate(g, env), evaluate(w, env)
            return Result("refuted", "evaluation", "%s: code gives %s, contract requires %s" % (
                lab, mpmath.nstr(a, 12), mpmath.nstr(b, 12)), named(env, variables))
        nbad += 1
        bad = bad or "%s: %s =?= %s (%s)" % (lab, tm.show(g, 4)[:200], tm.show(w, 4)[:200], r)
        kind = tm.kind_of_unknown(g, w)
    if bad:
        return Result("unknown", "", bad, kind=kind)
    return Result("proved", "+".join(sorted(used)) or "normal form")


def _safe(f):
    def g(env):
        try:
            return f(env)
        except NoValue:
            return False
    return g


def _smallish(*ts):
    n = 0
    for t in ts:
        for _ in tm.subterms(t):
            n += 1
            if n > 3000:
                return False
    return True


def prove(goal, facts, variables=(), sampler=None, timeout=5000):
    r = smt.valid(facts, goal, timeout)
    if r == "proved":
        return Result("proved", "z3")
    env = find_point(facts, variables, sampler, tries=60, check=_safe(lambda e: not evaluate(goal, e)))
    if env is None and r == "refuted":
        env = solver_point(list(facts) + [tm.not_(goal)], variables)
        if env is not None and not _safe(lambda e: all(evaluate(f, e) for f in facts)
                                         and not evaluate(goal, e))(env):
            env = None
    if env is not None:
        return Result("refuted", "evaluation", "fails: %s" % tm.show(goal, 5)[:300], named(env, variables))
    return Result("unknown", "", "%s: %s" % (r, tm.show(goal, 5)[:300]), kind=tm.kind_of_unknown(goal))


def merge(results):
    """obligation made of several verification conditions"""
    st = "proved"
    det, wit, be, kind = None, None, set(), "failed"
    for r in results:
        if r.status == "refuted":
            return r
        if r.status == "unknown" and (st == "proved" or kind != "failed"):
            if st == "proved" or r.kind == "failed":
                st, det, kind = "unknown", r.detail, r.kind
        if r.backend:
            be.update(r.backend.split("+"))
    return Result(st, "+".join(sorted(be)) if st == "proved" else "", det, wit, kind)
