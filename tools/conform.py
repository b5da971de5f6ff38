#!/opt/veriftools/pyvenv/bin/python
"""Conformance of the verifier's model of Python and NumPy with the real thing.

    python3-vt tools/conform.py [-n SAMPLES] [names...]

Every program of conform_programs.py is executed once by the verifier on arrays of
symbolic length (and once more for each element of the tuple it returns); the paths
and terms found are then evaluated on random inputs and compared with what CPython
and NumPy compute: exactly one path condition holds, it ends with the same exception
or result, and shapes, kinds and elements agree.  Programs the model does not reach
are listed as outside, which is no error."""
import ast
import os
import random
import signal
import sys
import warnings
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
import mpmath
from vf import terms as tm, symarr, loader, exec as ex, smt
from vf.terms import R, I, B, T
from vf.contract import iv, rv, arr, World, raw

warnings.simplefilter("ignore")
HERE = os.path.dirname(os.path.abspath(__file__))
SRC = open(os.path.join(HERE, "conform_programs.py")).read()
ARGS = "n m a b c d e g h s k".split()
OUT = (tm.Unsupported, tm.PathAbort)


def split(src):
    """one function per returned element, so that a gap in one does not hide the others"""
    tree = ast.parse(src)
    head = [x for x in tree.body if not isinstance(x, ast.FunctionDef)]
    out = []
    for f in tree.body:
        if not isinstance(f, ast.FunctionDef):
            continue
        last = f.body[-1]
        parts = last.value.elts if isinstance(last, ast.Return) and isinstance(last.value, ast.Tuple) else None
        if parts is None:
            out.append((f.name, f.name, ast.unparse(f)))
            continue
        for q, part in enumerate(parts):
            g = ast.parse(ast.unparse(f)).body[0]
            g.name = "%s_%d" % (f.name, q)
            g.body[-1] = ast.Return(part)
            ast.fix_missing_locations(g)
            out.append((f.name, g.name, ast.unparse(g)))
    return head, out


def sample(rng, n, m):
    d = rng.integers(0, n, size=n)
    return dict(n=n, m=m, a=rng.integers(-2000, 2000, size=n)/997, b=rng.integers(-2000, 2000, size=(n, m))/997,
                c=rng.integers(-3, 4, size=n), d=d, e=rng.integers(0, n, size=(n, 3)),
                g=rng.integers(-2000, 2000, size=(3, 4))/997, h=rng.integers(0, 4, size=4),
                s=float(rng.integers(-2000, 2000)/997), k=int(rng.integers(0, 5)))


def symbols():
    n, m, k, s = iv("n"), iv("m"), iv("k"), rv("s")
    V = symarr.SArr.var
    h = arr("h", (4,), I)
    args = [n, m, V("a", (n,)), V("b", (n, m)), V("c", (n,), "i"), V("d", (n,), "i"), V("e", (n, 3), "i"),
            arr("g", (3, 4)), h, s, k]
    lo, hi = tm.const(0), tm.const(4)
    facts = [tm.le(tm.const(1), n), tm.le(tm.const(1), m), tm.le(lo, k), tm.le(k, hi)]
    for q in range(4):
        x = tm.var("h_%d" % q, I)
        facts += [tm.le(lo, x), tm.lt(x, hi)]
    return args, facts


def environment(v):
    env = {}
    for nm, sort in (("n", I), ("m", I), ("k", I), ("s", R)):
        env[tm.var(nm, sort).id] = v[nm] if sort is I else mpmath.mpf(v[nm])
    for nm in "abcde":
        for ix in np.ndindex(*v[nm].shape):
            x = v[nm][ix]
            env[("app", (nm,) + tuple(ix))] = int(x) if nm in "cde" else mpmath.mpf(float(x))
    for nm, sort in (("g", R), ("h", I)):
        for ix in np.ndindex(*v[nm].shape):
            env[tm.var(nm + "_" + "_".join(map(str, ix)), sort).id] = \
                int(v[nm][ix]) if nm == "h" else mpmath.mpf(float(v[nm][ix]))
    return env


def ev(t, env):
    """value of a scalar of the model"""
    if isinstance(t, (symarr.SArr, symarr.JArr)):
        t = t.item() if not isinstance(t, symarr.SArr) else t.at()
    t = tm._co(t)
    if t is None:
        raise ex.NoValue("no number")
    before = len(env)
    try:
        r = ex.evaluate(t, env)
    except TypeError as e:      # order of complex numbers
        raise ex.NoValue(str(e))
    if len(env) != before:
        new = [x for x in list(env)[before:]]
        for x in new:
            del env[x]
        raise ex.NoValue("free symbol %r" % (new[:1],))
    return r


def concrete(x, env):
    """value of the model -> NumPy value"""
    if x is None or isinstance(x, (bool, str)):
        return x
    if isinstance(x, (list, tuple)) or hasattr(x, "sym_len"):
        if isinstance(x, (list, tuple)) and not hasattr(x, "sym_len"):
            try:
                return [concrete(y, env) for y in (list.__iter__(x) if isinstance(x, list) else x)]
            except ex.NoValue:
                pass
        x = symarr.array(x, None)
    if isinstance(x, symarr.JArr) or isinstance(x, np.ndarray):
        r = raw(x)
        out = np.empty(r.shape, dtype=object)
        for ix in np.ndindex(*r.shape):
            out[ix] = ev(r[ix], env)
        return out
    if isinstance(x, symarr.SArr):
        shape = tuple(int(ev(q, env)) for q in x.shape)
        out = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            out[ix] = ev(x.at(*[tm.const(q) for q in ix]), env)
        return out
    return ev(x, env)


def kind(x):
    if hasattr(x, "vd"):
        return x.vd
    return None


def num(x):
    if isinstance(x, mpmath.mpc) or isinstance(x, complex):
        return complex(x)
    return complex(x) if hasattr(x, "imag") and x.imag else float(x)


def same(got, want):
    if isinstance(want, (set, frozenset)):
        want = sorted(want)
    if isinstance(want, np.generic):
        want = want.item()
    if want is None or isinstance(want, str) or got is None:
        return got == want
    if isinstance(want, tuple):
        want = list(want)
    if isinstance(got, tuple):
        got = list(got)
    if isinstance(want, list) and isinstance(got, list):
        return len(got) == len(want) and all(same(x, y) for x, y in zip(got, want))
    g, w = np.asarray(got, dtype=object), np.asarray(want)
    if g.shape != w.shape:
        return False
    return all(abs(num(x) - num(y)) <= 1e-9*max(1, abs(num(y))) for x, y in zip(g.flat, w.flat))


def holds(f, facts, env):
    """facts => f for all values of the indices that occur free"""
    free = sorted({v for x in [f] + facts for v in tm.fv(x) if v not in env})
    if len(free) > 2:
        return True
    try:
        for ix in np.ndindex(*[9]*len(free)):
            en = dict(env)
            en.update((v, int(q) - 1) for v, q in zip(free, ix))
            if all(ev(x, en) for x in facts) and not ev(f, en):
                return False
    except ex.NoValue:
        pass
    return True


class Late(BaseException):
    pass


def late(*_):
    raise Late()


def check(base, name, text, head, samples, seed, prelude=None):
    head = prelude or "\n".join(ast.unparse(x) for x in head)
    loader._code.pop("conform", None)
    tree = loader.Instr().visit(ast.parse(head + "\n" + text))
    ast.fix_missing_locations(tree)
    loader._code["conform"] = compile(tree, "conform", "exec")
    ns = {}
    exec(compile(head + "\n" + text, "native", "exec"), ns)
    args, facts = symbols()
    smt.SCHEMAS.clear()
    rng_ = lambda x: [tm.le(tm.const(0), x), tm.lt(x, args[0])]
    smt.SCHEMAS["d"] = lambda i: rng_(tm.app("d", [i], I))
    smt.SCHEMAS["e"] = lambda i, j: rng_(tm.app("e", [i, j], I))
    X = ex.Explorer(facts)
    try:
        paths = X.run(lambda: getattr(World().mod("conform"), name)(*args))
    except OUT as e:
        return "outside", str(e)[:90]
    for p in paths:
        if p.exc is not None and isinstance(p.exc, tm.Unsupported):
            return "outside", str(p.exc)[:90]
    rng = np.random.default_rng([seed, len(text)])
    done = 0
    for t in range(samples):
        n, m = (int(rng.integers(1, 6)) for _ in "nm")
        v = sample(rng, n, m)
        env = environment(v)
        nat = {q: (x.copy() if isinstance(x, np.ndarray) else x) for q, x in v.items()}
        try:
            want, exc = ns[name](*[nat[q] for q in ARGS]), None
        except Exception as e:
            want, exc = None, e
        hit = []
        try:
            for p in paths:
                if all(ev(f, env) for f in p.pc):
                    hit.append(p)
        except ex.NoValue as e:
            continue
        show = {q: (x.tolist() if isinstance(x, np.ndarray) else x) for q, x in v.items()}
        if len(hit) != 1:
            return "WRONG", "%d path conditions hold at %s" % (len(hit), show)
        p = hit[0]
        undefined = any(not holds(f, list(taken) + list(lf), env) for f, taken, lf in p.sides)
        if undefined and exc is None:
            return "WRONG", "is defined, the model requires %s at %s" % (
                [tm.show(f) for f, tk, lf in p.sides if not holds(f, list(tk) + list(lf), env)][:1], show)
        if exc is not None:
            if p.exc is not None and ex_name(p.exc) == ex_name(exc) or undefined:
                done += 1
                continue
            return "WRONG", "raises %r, the model %s at %s" % (exc, repr(p.exc), show)
        if p.exc is not None:
            return "WRONG", "the model raises %r at %s" % (p.exc, show)
        try:
            got = concrete(p.value, env)
        except ex.NoValue:
            continue
        except OUT as e:
            return "outside", str(e)[:90]
        done += 1
        if not same(got, want):
            return "WRONG", "gives %s, the model %s at %s" % (
                str(want)[:200], str(np.asarray(got, dtype=object).tolist() if not isinstance(got, list) else got)[:300], show)
        kw, kg = getattr(getattr(want, "dtype", None), "kind", None), kind(p.value)
        if kw is not None and kg is not None and isinstance(want, np.ndarray) and kw.replace("u", "i") != kg:
            return "WRONG", "kind %s, the model %s" % (kw, kg)
    return ("ok", done) if done else ("outside", "no value")


def ex_name(e):
    for c in (IndexError, KeyError, ValueError, TypeError, ZeroDivisionError):
        if isinstance(e, c):
            return c.__name__
    return type(e).__name__


def main():
    argv = sys.argv[1:]
    samples = 40
    if "-n" in argv:
        i = argv.index("-n")
        samples = int(argv[i + 1])
        del argv[i:i + 2]
    signal.signal(signal.SIGALRM, late)
    head, progs = split(SRC)
    tally = dict(ok=0, outside=0, WRONG=0, late=0)
    for base, name, text in progs:
        if argv and base not in argv and name not in argv:
            continue
        signal.alarm(60)
        try:
            st, what = check(base, name, text, head, samples, 1)
        except Late:
            st, what = "late", ""
        except OUT as e:
            st, what = "outside", str(e)[:90]
        finally:
            signal.alarm(0)
        tally[st] += 1
        if st != "ok":
            print("%-8s %-20s %s | %s" % (st, name, text.strip().splitlines()[-1].strip()[:70], what), flush=True)
    print(tally)
    return 1 if tally["WRONG"] else 0


if __name__ == "__main__":
    sys.exit(main())
