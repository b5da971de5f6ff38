"""Helpers to state contracts of real functions and discharge them."""
import random
import numpy as np
from vf import terms as tm, exec as ex, poly as pl, symnp, loader, smt
from vf.terms import T, R, I, B, Unsupported
from vf.symnp import NP, JArr, wrap
from vf.exec import Result, merge

World = loader.World


def rv(name):
    return tm.var(name, R)


def iv(name):
    return tm.var(name, I)


def arr(name, shape, sort=R):
    """array of distinct symbolic values"""
    o = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        o[i] = tm.var(name + "_" + "_".join(map(str, i)), sort)
    return wrap(o, {R: "f", I: "i"}[sort])


def variables_of(*xs):
    out = []
    for x in xs:
        if isinstance(x, T):
            if x.op == "var":
                out.append(x)
        elif isinstance(x, JArr):
            out += [v for v in x.raw().flat if isinstance(v, T) and v.op == "var"]
        elif isinstance(x, (list, tuple)):
            out += variables_of(*x)
    return out


def raw(x):
    """array or nested lists -> object ndarray"""
    if isinstance(x, JArr):
        return x.raw()
    if isinstance(x, np.ndarray):
        return x
    if isinstance(x, T) or not hasattr(x, "__len__"):
        o = np.empty((), dtype=object)
        o[()] = x
        return o
    return symnp.NP.array(x).raw()


def pairs(label, got, want):
    """elementwise pairs, or a refuting Result when the shapes differ"""
    g, w = raw(got), raw(want)
    if g.shape != w.shape:
        return Result("refuted", "evaluation", "%s has shape %s, contract requires %s" % (label, g.shape, w.shape), {})
    return [("%s%s" % (label, list(i)), g[i], w[i]) for i in np.ndindex(*g.shape)]


def same_terms(a, b):
    a, b = raw(a), raw(b)
    return a.shape == b.shape and all(tm._co(x) is tm._co(y) for x, y in zip(a.flat, b.flat))


class Abstraction:
    """replaces named polynomials by fresh variables inside formulas"""
    def __init__(self, named_terms):
        self.items = [(pl.poly(t), v) for t, v in named_terms]
        self.memo = {}

    def num(self, t):
        p = pl.poly(t)
        c = pl.pconst(p)
        if c is not None:
            return tm.const(c) if c.denominator != 1 or t.sort == R else tm.const(int(c))
        for q, v in self.items:
            m = max(k for k in q if k != pl.ONE)
            if m in p:
                a = p[m]/q[m]
                d = pl.padd(p, q, -a)
                b = pl.pconst(d)
                if b is not None:
                    return tm.add(tm.mul(tm.const(a), v), tm.const(b))
        return None

    def go(self, t):
        r = self.memo.get(t.id)
        if r is not None:
            return r
        r = None
        if t.op in ("add", "mul", "div") or (t.sort != B and t.op == "var"):
            r = self.num(t)
        if r is None:
            if not any(isinstance(a, T) for a in t.args):
                r = t
            else:
                na = [self.go(a) if isinstance(a, T) else a for a in t.args]
                if t.op in tm._rebuild:
                    r = tm._rebuild[t.op](*na)
                elif t.op == "div":
                    r = tm._rawdiv(*na)
                elif t.op == "app":
                    r = tm.sqrt(na[1]) if na[0] == "sqrt" else tm.app(na[0], na[1:], t.sort)
                else:
                    r = tm._mk(t.op, na, t.sort)
        self.memo[t.id] = r
        return r


# exceptions the models raise exactly when NumPy/CPython do; others (TypeError,
# AttributeError ...) may come from the models themselves and need a replay
REAL_EXC = (ValueError, IndexError, KeyError, ZeroDivisionError, AssertionError)


def exc_kind(e):
    return "failed" if isinstance(e, REAL_EXC) else "outside"


class Case:
    """one call of a function under contract"""
    def __init__(self, ctx, name, call, assume=(), variables=(), sampler=None, stubs=None, tol=pl.TOL,
                 function=None, replay=None, timeout=3000, ext=None):
        self.ctx, self.name, self.call = ctx, name, call
        self.assume, self.variables, self.sampler = list(assume), list(variables), sampler
        self.stubs, self.tol, self.function, self.replay = stubs, tol, function, replay
        self.timeout, self.ext = timeout, ext
        self.paths = None

    def run(self):
        X = ex.Explorer(self.assume)
        self.worlds = []

        def once():
            self.worlds.append(World(self.stubs() if callable(self.stubs) else self.stubs, self.ext))
            return self.call(self.worlds[-1])
        self.paths = X.run(once)
        if self.ctx.frame_only:
            self.frame()
        return self

    # routines that edit an argument by design
    INPLACE = {"preprocesor.boundary_conditions"}

    def frame(self):
        """C21: the frame obligation of this call only"""
        rs = []
        for p in self.paths:
            for name, items in p.frames:
                for it in items:
                    if name in self.INPLACE and it[0].startswith("argument of"):
                        continue
                    rs.append(MCase._one(self, it, self.assume + p.pc, 400, 2000))
        if any(p.exc is None for p in self.paths):
            self.ctx.frames.setdefault(self.name, [self.function, []])[1].extend(
                rs or [Result("unknown", "", "no call observed")])

    def put(self, what, res):
        rep = []
        if res.status == "refuted" and self.replay and res.witness:
            try:
                rep = self.replay(res.witness)
            except Exception as e:
                rep = []
        self.ctx.put(self.name + ("/" + what if what else ""), res.status, res.backend, res.detail, res.witness,
                     rep, self.function, res.kind)

    def cover(self):
        """the precondition admits an input (checked by evaluation or z3)"""
        ok = False
        if self.sampler is not None:
            ok = ex.find_point(self.assume, self.variables, self.sampler, tries=80) is not None
        if not ok:
            ok = smt.check(self.assume, 3000)[0] == "sat"
        self.ctx.cover(self.name, ok)
        if not ok:
            self.put("precondition-satisfiable", Result("unknown", "", "no input found for the precondition"))

    def verify(self, post, raises=None, what="result", defined=True, abstract=None):
        """post(value, path) -> list of items, each a Result, a (label, got, want)
        triple or a (label, formula) pair.  raises(exc, path) -> same for
        raising paths; None: the function must not raise"""
        if self.paths is None:
            self.run()
        if self.ctx.frame_only:
            return self
        self.cover()
        res, excs, sides = [], [], []
        for p in self.paths:
            facts = self.assume + p.pc
            if abstract:
                facts = [abstract.go(f) for f in facts]
            if p.exc is not None:
                if raises is None:
                    excs.append(self._infeasible(p, facts))
                else:
                    excs += self._items(raises(p.exc, p), facts, abstract)
            else:
                res += self._items(post(p.value, p), facts, abstract)
            if defined:
                for f, taken, loopf in p.sides:
                    fs = self.assume + list(taken) + list(loopf)
                    if abstract:
                        fs, f = [abstract.go(x) for x in fs], abstract.go(f)
                    r = self._side(f, fs)
                    sides.append(r)
        if not any(p.exc is None for p in self.paths):
            if not excs or all(r.status == "proved" for r in excs):
                if raises is None:
                    res.append(Result("unknown", "", "no returning path", kind=self._noreturn()))
        self.put(what, merge(res or [Result("proved", "path exploration")]))
        if raises is not None:
            self.put("raises", merge(excs) if excs else Result("unknown", "", "no raising path"))
        elif excs:
            self.put("no-exception", merge(excs))
        else:
            self.put("no-exception", Result("proved", "path exploration"))
        if sides:
            self.put("defined", merge(sides))
        return self

    def _noreturn(self):
        es = [p.exc for p in self.paths if p.exc is not None]
        return "outside" if any(exc_kind(e) == "outside" for e in es) else "failed"

    def _side(self, f, facts):
        r = smt.valid(facts, f, 2500)
        if r == "proved":
            return Result("proved", "z3")
        env = ex.find_point(facts, self.variables, self.sampler, tries=30,
                            check=ex._safe(lambda e: not ex.evaluate(f, e)))
        if env is not None:
            return Result("refuted", "evaluation", "undefined operation: %s fails" % tm.show(f)[:200],
                          ex.named(env, self.variables))
        # nonzero sums of squares and products of known-positive factors
        return Result("unknown", "", "side condition %s: %s" % (tm.show(f)[:200], r), kind=tm.kind_of_unknown(f))

    def _infeasible(self, p, facts):
        r, _ = smt.check(facts, self.timeout)
        if r == "unsat":
            return Result("proved", "z3")
        env = ex.find_point(facts, self.variables, self.sampler, tries=60)
        if env is None and r == "sat":
            env = ex.solver_point(facts, self.variables)
            if env is not None and not ex._safe(lambda e: all(ex.evaluate(f, e) for f in facts))(env):
                env = None
        msg = "raises %s: %s" % (type(p.exc).__name__, str(p.exc)[:100])
        if env is not None and (self.replay or isinstance(p.exc, REAL_EXC)):
            return Result("refuted", "evaluation", msg, ex.named(env, self.variables))
        return Result("unknown", "", msg, kind=exc_kind(p.exc))

    def _items(self, items, facts, abstract):
        out, triples = [], []
        if isinstance(items, Result):
            items = [items]
        for it in items:
            if isinstance(it, Result):
                out.append(it)
            elif len(it) == 3:
                triples.append(it)
            else:
                lab, f = it
                if isinstance(f, bool):
                    out.append(Result("proved", "evaluation") if f else Result("refuted", "evaluation", lab, {}))
                    continue
                if abstract:
                    f = abstract.go(f)
                r = ex.prove(f, facts, self.variables, None if abstract else self.sampler, self.timeout)
                if r.detail:
                    r.detail = "%s: %s" % (lab, r.detail)
                out.append(r)
        if triples:
            out.append(ex.prove_equal(triples, facts, self.variables, self.sampler, self.tol, timeout=self.timeout))
        return out


def uniform(lo, hi, *vs):
    def s(rng):
        return {v: rng.uniform(lo, hi) for v in vs}
    return s


def lemma(ctx, name, goal=None, facts=(), equal=None, tol=0, timeout=8000, function="(lemma over the contracts)",
          variables=(), sampler=None):
    if equal is not None:
        from vf import simp
        P = simp.Prover(list(facts))
        if any(x.op == "sum" for _, g, w in equal for y in (g, w) for x in tm.subterms(tm._co(y))):
            ok = all(P.equal(g, w) for _, g, w in equal)
            r = Result("proved", "+".join(sorted(P.used))) if ok else Result("unknown", "", equal[0][0])
        else:
            r = ex.prove_equal(equal, list(facts), variables, sampler, tol, timeout=timeout)
    else:
        r = ex.prove(goal, list(facts), variables, sampler, timeout)
    ctx.put(name, r.status, r.backend, r.detail, r.witness, function=function)


class MCase(Case):
    """call of a function over inputs of symbolic size.  post(value, path) yields
    Results, (label, got, want), (label, got, want, facts), (label, formula) or
    (label, formula, facts); obligations go to simp.Prover.  A failed obligation is
    left undischarged: the models of arrays and files do not give inputs that
    could be replayed (the run-time contracts search for those)."""
    # known(formula, facts): further facts for a definedness obligation
    known = None

    def bypassed(self):
        """the code uses none of the callee contracts this contract is stated in terms of"""
        import types
        return isinstance(self.stubs, dict) and bool(self.stubs) and \
            all(isinstance(f, types.FunctionType) for f in self.stubs.values()) and not any(w.called for w in self.worlds)

    def put(self, what, r):
        if r.status == "unknown" and r.kind == "failed" and self.bypassed():
            # nothing to decide with: the work is done by code that has no contract
            r = Result("unknown", r.backend, "no callee under contract is used; " + str(r.detail), kind="outside")
        return super().put(what, r)

    def verify(self, post, raises=None, what="result", budget=400, timeout=2000):
        if self.paths is None:
            self.run()
        if self.ctx.frame_only:
            return self
        self.cover()
        groups, excs, sides = {}, [], []
        nret = 0
        for p in self.paths:
            facts = self.assume + p.pc
            if p.exc is not None:
                if raises is None:
                    r = smt.check(facts, self.timeout)[0]
                    excs.append(Result("proved", "z3") if r == "unsat" else Result(
                        "unknown", "", "raises %s: %s" % (type(p.exc).__name__, str(p.exc)[:120]), kind=exc_kind(p.exc)))
                else:
                    for it in raises(p.exc, p):
                        excs.append(self._one(it, facts, budget, timeout))
            else:
                nret += 1
                for it in post(p.value, p):
                    g = ""
                    if isinstance(it, dict):
                        for g, its in it.items():
                            for q in its:
                                groups.setdefault(g, []).append(self._one(q, facts, budget, timeout))
                        continue
                    groups.setdefault(g, []).append(self._one(it, facts, budget, timeout))
            for f, taken, loopf in p.sides:
                fs = self.assume + list(taken) + list(loopf)
                more = self.known(f, fs) if self.known else []
                sides.append(self._one(("defined", f, more) if more else ("defined", f), fs, budget, timeout))
        if nret == 0 and raises is None:
            self.put(what, Result("unknown", "", "no returning path", kind=self._noreturn()))
        for g, rs in groups.items():
            self.put(what + ("/" + g if g else ""), merge(rs))
        if raises is not None:
            self.put("raises", merge(excs) if excs else Result("unknown", "", "no raising path"))
        else:
            self.put("no-exception", merge(excs or [Result("proved", "path exploration")]))
        if sides:
            self.put("defined", merge(sides))
        return self

    def _one(self, it, facts, budget, timeout):
        from vf import simp
        if isinstance(it, Result):
            return it
        lab = it[0]
        x = it[1]
        if isinstance(x, (bool, np.bool_)):
            return Result("proved", "evaluation") if x else Result("unknown", "", "%s does not hold" % lab)
        extra = []
        if len(it) > 2 and isinstance(it[-1], (list, tuple)):
            extra, it = list(it[-1]), it[:-1]
        P = simp.Prover(facts + extra, timeout=timeout, budget=budget)
        if len(it) == 2:
            ok = P.formula(x)
            d = tm.show(x, 6)[:300] if not ok else None
            ts = (x,)
        else:
            g, w = tm._co(it[1]), tm._co(it[2])
            if g is None or w is None:
                return Result("unknown", "", "%s: not a number" % lab)
            ok = P.equal(g, w)
            ts = (g, w)
            d = "%s =?= %s" % (tm.show(g, 6)[:250], tm.show(w, 6)[:250]) if not ok else None
        if ok:
            return Result("proved", "+".join(sorted(P.used)) or "normal form")
        return Result("unknown", "", "%s: %s" % (lab, d), kind=tm.kind_of_unknown(*ts))


def traced(name, log, result):
    """stub for a callee with a contract: records the bound arguments (defaults
    applied from the callee's own signature) and returns result(arguments)"""
    import inspect

    def make(orig, world):
        sig = inspect.signature(orig)

        def f(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            log.append((name, dict(b.arguments)))
            return result(dict(b.arguments))
        f.__signature__ = sig
        return f
    make.wants_orig = True
    return make


def same_array(a, b, facts=(), label="array", columns=None):
    """items stating that two arrays of symbolic shape hold the same values
    (columns: only the first columns of b, which a must have)"""
    from vf import symarr
    if a is b:
        return [(label, True)]
    if not hasattr(a, "shape") or not hasattr(b, "shape") or len(a.shape) != len(b.shape):
        return [(label + ": another shape", False)]
    if isinstance(a, symarr.CooMat) or isinstance(b, symarr.CooMat):
        at = lambda m: m.entry if isinstance(m, symarr.CooMat) else m.at
    else:
        a, b = symarr.lift(a), symarr.lift(b)
        at = lambda m: m.at
    ix = [tm.fresh("x", I) for _ in b.shape]
    fs = list(facts)
    out = []
    for n, (i, x, y) in enumerate(zip(ix, a.shape, b.shape)):
        if columns is not None and n == 1:
            fs += [tm.le(tm.const(0), i), tm.lt(i, tm.const(columns))]
            out.append((label + " columns", tm.le(tm.const(columns), tm._co(x)), list(facts)))
            continue
        fs += [tm.le(tm.const(0), i), tm.lt(i, tm._co(y))]
        out.append((label + " shape", tm.eq(tm._co(x), tm._co(y)), list(facts)))
    return out + [(label, at(a)(*ix), at(b)(*ix), fs)]


def over(got, den, inv, facts, budget=200):
    """got with every division by a value equal to den replaced by a product with
    inv (a name for 1/den)"""
    from vf import simp
    P = simp.Prover(list(facts), budget=budget)
    same = {}

    def is_den(d):
        r = same.get(d.id)
        if r is None:
            r = same[d.id] = any(x.op == "sum" for x in tm.subterms(d)) and P.equal(d, den)
        return r
    m = {}
    for x in list(tm.subterms(tm._co(got))):
        if x.op == "div" and not smt._has_bvar(x.args[1]) and is_den(x.args[1]):
            m[x] = tm.mul(x.args[0], inv)
    return tm.subst(got, m) if m else got


def positive_counts(count, bound):
    """hook for MCase.known: the denominators that are counts are positive"""
    from vf import simp

    def known(f, facts):
        out = []
        if not any(x.op == "sum" for x in tm.subterms(f)):
            return out
        vs = [x for x in tm.subterms(f) if x.op == "var" and x.sort == I and "#" in x.args[0]]
        def atoms(g):
            return sum((atoms(a) for a in g.args), []) if g.op in ("not", "and", "or") else [g]
        for d in atoms(f):
            if d.op != "eq":
                continue
            for x in d.args:
                if x.op == "const":
                    continue
                for v in vs:
                    c = count(v)
                    if v.id in tm.fv(c) and simp.Prover(facts, budget=200).equal(x, c):
                        out += [tm.implies(tm.and_(tm.le(tm.const(0), v), tm.lt(v, bound)), tm.lt(tm.const(0), x))]
        return out
    return known
