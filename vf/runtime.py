"""Run-time layer: executes the contracts on the real code of /repo under the
interpreter the project is installed in.  It is used (a) to replay the
verifier's counterexamples, (b) to cross-check the verifier against CPython on
every run, (c) as labelled bounded stand-in where an obligation is undecided.

usage: runtime.py --prop C06 --seed 1 --budget 20 --out res.json [--hints f]
       runtime.py --replay replay.json
"""
import argparse
import ast
import base64
import hashlib
import importlib
import io
import json
import os
import sys
import tempfile
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("VF_REPO", "/repo")
sys.dont_write_bytecode = True
for p in (ROOT, REPO):
    if p in sys.path:
        sys.path.remove(p)
    sys.path.insert(0, p)
os.environ.setdefault("MPLBACKEND", "Agg")

import numpy as np

NUMS = ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12",
        "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22")
MODS = ["femutil", "gaussutil", "uelutil", "assemutil", "solutil", "postprocesor",
        "preprocesor", "solids_GUI", "blochutil"]

CHECKS = []


class Known(str):
    """a failure that matches a committed known finding"""
    def __new__(cls, fid, msg):
        s = str.__new__(cls, msg)
        s.fid = fid
        return s


def check(prop, weight=1.0, cap=None):
    def deco(cls):
        CHECKS.append(dict(prop=prop, name=cls.__name__, gen=cls.gen, chk=cls.chk,
                           weight=weight, cap=cap))
        return cls
    return deco


# ------------------------------------------------------------- serialisation
def enc(x):
    if isinstance(x, np.ndarray):
        b = io.BytesIO()
        np.save(b, x, allow_pickle=False)
        r = {"__nd__": base64.b64encode(b.getvalue()).decode()}
        if x.size <= 64 and x.dtype.kind in "ifb":
            r["text"] = x.tolist()
        return r
    if isinstance(x, np.generic):
        return {"__np__": x.dtype.str, "v": x.item()}
    if isinstance(x, tuple):
        return {"__tu__": [enc(y) for y in x]}
    if isinstance(x, list):
        return [enc(y) for y in x]
    if isinstance(x, dict):
        return {"__di__": [[enc(k), enc(v)] for k, v in x.items()]}
    if isinstance(x, bool) or x is None or isinstance(x, (int, str)):
        return x
    if isinstance(x, float):
        return {"__fl__": x.hex()} if x == x and abs(x) != float("inf") else {"__fl__": repr(x)}
    raise TypeError(type(x))


def dec(x):
    if isinstance(x, list):
        return [dec(y) for y in x]
    if isinstance(x, dict):
        if "__nd__" in x:
            return np.load(io.BytesIO(base64.b64decode(x["__nd__"])), allow_pickle=False)
        if "__np__" in x:
            return np.dtype(x["__np__"]).type(x["v"])
        if "__tu__" in x:
            return tuple(dec(y) for y in x["__tu__"])
        if "__di__" in x:
            return {dec(k): dec(v) for k, v in x["__di__"]}
        if "__fl__" in x:
            s = x["__fl__"]
            return float.fromhex(s) if "0x" in s else float(s)
    return x


# ------------------------------------------------------------------ literals
def mine():
    """constants the code compares with: they decide where behaviour may change"""
    ints, flts = set(), set()
    for m in MODS:
        try:
            with open(os.path.join(REPO, "solidspy", m + ".py"), encoding="utf-8") as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError):
            continue
        for node in ast.walk(tree):
            srcs = []
            if isinstance(node, ast.Compare):
                srcs = [node]
            elif isinstance(node, ast.BinOp) and isinstance(node.op, (ast.Mod, ast.FloorDiv)):
                srcs = [node.right]
            elif isinstance(node, ast.Call) and getattr(node.func, "attr", getattr(node.func, "id", "")) in (
                    "isclose", "allclose", "min", "max", "clip", "round", "around", "minimum",
                    "maximum", "lru_cache", "where", "islice"):
                srcs = node.args + [k.value for k in node.keywords]
            elif isinstance(node, ast.Slice):
                srcs = [x for x in (node.lower, node.upper, node.step) if x is not None]
            elif isinstance(node, (ast.IfExp, ast.If, ast.While)):
                srcs = [node.test]
            elif isinstance(node, (ast.FunctionDef,)):
                srcs = [d for d in node.args.defaults + node.args.kw_defaults if d is not None]
            for s in srcs:
                for c in ast.walk(s):
                    if isinstance(c, ast.Constant):
                        if isinstance(c.value, bool):
                            continue
                        if isinstance(c.value, int):
                            ints.add(c.value)
                        elif isinstance(c.value, float):
                            flts.add(c.value)
            # module-level numeric constants too
        for node in tree.body:
            if isinstance(node, ast.Assign) and isinstance(node.value, ast.Constant) and \
                    isinstance(node.value.value, (int, float)) and not isinstance(node.value.value, bool):
                (ints if isinstance(node.value.value, int) else flts).add(node.value.value)
    ints |= {int(f) for f in flts if f == int(f) and abs(f) < 1e9}
    flts |= {float(i) for i in ints if abs(i) < 1e9}
    return sorted(ints), sorted(flts)


class Env:
    def __init__(self, seed, hints=None):
        self.seed = seed
        self.hints = hints or {}
        self.ints, self.floats = mine()
        self.sizes = sorted({v + d for v in self.ints for d in (-1, 0, 1, 2) if 1 <= v + d <= 1500})
        self.odd_floats = [f for f in self.floats if f not in (-1.0, 0.0, 1.0, 2.0)]
        self.mods = {}
        self.scratch = None

    def __getattr__(self, k):
        alias = {"fem": "femutil", "gau": "gaussutil", "uel": "uelutil", "ass": "assemutil",
                 "sol": "solutil", "pos": "postprocesor", "pre": "preprocesor",
                 "gui": "solids_GUI", "blo": "blochutil"}
        if k in alias:
            m = self.mods.get(k)
            if m is None:
                m = self.mods[k] = importlib.import_module("solidspy." + alias[k])
            return m
        raise AttributeError(k)

    # random helpers ------------------------------------------------------
    def fl(self, rng, lo=-2.0, hi=2.0):
        """a float: usually uniform, sometimes a value the code mentions"""
        u = rng.random()
        if u < 0.12 and self.floats:
            v = self.floats[rng.integers(len(self.floats))]
            w = rng.random()
            return float(v if w < .6 else v*(1 + 1e-3*rng.standard_normal()) if w < .8 else -v)
        if u < 0.2:
            return float(rng.integers(-3, 4))
        return float(rng.uniform(lo, hi))

    def size(self, rng, lo, hi, big=400):
        u = rng.random()
        s = [x for x in self.sizes if lo <= x <= big and x > hi]
        if u < 0.1 and s:
            return int(s[rng.integers(len(s))])
        return int(rng.integers(lo, hi + 1))

    def mat(self, rng):
        u = rng.random()
        E = float(10**rng.uniform(-2, 6)) if u < .6 else float(rng.choice([1.0, 2.0, 16.0, 8/3, 200.0, 210e9]))
        nu = float(rng.uniform(-0.9, 0.49)) if rng.random() < .5 else \
            float(rng.choice([0.0, 0.25, 0.3, 1/3, 0.2, 0.45, 0.49, 0.499, -0.3, 0.1, 0.4]))
        ok = [f for f in self.odd_floats if -0.95 < f < 0.4999]
        if ok and rng.random() < .15:
            nu = float(ok[rng.integers(len(ok))])
        rho = float(10**rng.uniform(-2, 4)) if rng.random() < .6 else float(rng.choice([1.0, 0.0, 2.0, 7850.0, 0.5]))
        ok = [f for f in self.odd_floats if f > 0]
        if ok and rng.random() < .15:
            E = float(ok[rng.integers(len(ok))])
        if ok and rng.random() < .15:
            rho = float(ok[rng.integers(len(ok))])
        return E, nu, rho


def close(got, want, rtol=1e-8, atol=1e-12, what="value"):
    """None, or a message.  atol is relative to the largest entry."""
    got = np.asarray(got)
    want = np.asarray(want)
    if got.shape != want.shape:
        return "%s: shape %s, expected %s" % (what, got.shape, want.shape)
    if got.size == 0:
        return None
    if got.dtype.kind not in "fciub":
        try:
            got = got.astype(float)
        except (TypeError, ValueError):
            return "%s: non-numeric result" % what
    scale = float(np.max(np.abs(want))) if want.size else 0.0
    with np.errstate(all="ignore"):
        bad = ~(np.abs(got - want) <= rtol*np.abs(want) + atol*scale + 1e-300)
        bad &= ~(np.isnan(got) & np.isnan(want))
    if bad.any():
        i = tuple(int(x) for x in np.argwhere(bad)[0])
        return "%s%s = %r, expected %r" % (what, list(i), got[i].item(), want[i].item())
    return None


def same(a, b):
    """bitwise-equal values, recursively"""
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if hasattr(a, "toarray"):
        return hasattr(b, "toarray") and same(a.toarray(), b.toarray())
    if isinstance(a, (np.ndarray, np.generic)) or isinstance(b, (np.ndarray, np.generic)):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and a.dtype == b.dtype and bool(
            np.array_equal(a, b, equal_nan=a.dtype.kind in "fc"))
    if isinstance(a, float) and a != a:
        return b != b
    return a == b


def raises(exc, f, *a, **k):
    try:
        f(*a, **k)
    except exc:
        return None
    except Exception as e:
        return "raised %s instead of %s" % (type(e).__name__, exc.__name__)
    return "returned a value instead of raising %s" % exc.__name__


def run_one(env, c, args):
    """None | message; harness errors propagate"""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        so = sys.stdout
        sys.stdout = io.StringIO()
        try:
            return c["chk"](env, **args)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            if any(os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + os.sep) for f in tb):
                last = [f for f in tb if os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + os.sep)][-1]
                return "raised %s: %s (in %s, %s)" % (type(e).__name__, str(e)[:200],
                                                      os.path.basename(last.filename), last.name)
            if isinstance(e, (ImportError, AttributeError)) and "solidspy" in str(e):
                return "raised %s: %s" % (type(e).__name__, str(e)[:200])
            raise
        finally:
            sys.stdout = so


def load_checks(props):
    for m in sorted(os.listdir(os.path.join(ROOT, "contracts"))):
        if m.startswith("num_") and m.endswith(".py"):
            importlib.import_module("contracts." + m[:-3])
    return [c for c in CHECKS if c["prop"] in props]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=20)
    ap.add_argument("--out")
    ap.add_argument("--hints")
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--try", dest="cands")
    a = ap.parse_args()
    if a.replay:
        rp = json.load(open(a.replay))
        if "args" not in rp:
            print("this replay file carries no failing input; obligation: %s" % rp.get("obligation"))
            print(rp.get("verifier_output", ""))
            return 0
        env = Env(0)
        with tempfile.TemporaryDirectory(prefix="vfnum") as td:
            env.scratch = td
            c = [c for c in load_checks([rp["property"]]) if c["name"] == rp["check"]][0]
            r = run_one(env, c, dec(rp["args"]))
        print("replay %s/%s: %s" % (rp["property"], rp["check"], r or "property holds on this input"))
        return 1 if r else 0
    hints = json.load(open(a.hints)) if a.hints else {}
    env = Env(a.seed, hints)
    res = dict(checks=[], violations=[], known=[], errors=[])
    checks = load_checks([a.prop])
    if a.only:
        checks = [c for c in checks if c["name"] == a.only]
    with tempfile.TemporaryDirectory(prefix="vfnum") as td:
        env.scratch = td
        if a.cands:
            for v in json.load(open(a.cands)):
                c = [c for c in checks if c["name"] == v["check"]]
                if not c:
                    continue
                try:
                    r = run_one(env, c[0], dec(v["args"]))
                except Exception as e:      # the candidate is not a valid input of the contract
                    res["errors"].append("%s: %r" % (v["check"], e))
                    continue
                if isinstance(r, Known):
                    res["known"].append(dict(id=r.fid, check=v["check"], msg=str(r), args=v["args"]))
                elif r is not None:
                    res["violations"].append(dict(property=a.prop, check=v["check"], msg=str(r), args=v["args"]))
                    break
            if res["violations"]:
                checks = []
        tot = sum(c["weight"] for c in checks) or 1
        t_all = time.time()
        for c in checks:
            t0 = time.time()
            lim = a.budget*c["weight"]/tot
            hs = int(hashlib.sha256(("%s/%s" % (c["prop"], c["name"])).encode()).hexdigest()[:8], 16)
            i, distinct, exhausted = 0, set(), False
            samples = []
            nfail = 0
            while True:
                if c["cap"] and i >= c["cap"]:
                    exhausted = True
                    break
                if time.time() - t0 > lim and i >= 3:
                    break
                rng = np.random.default_rng([a.seed, hs, i])
                args = c["gen"](env, rng, i)
                if args is None:
                    exhausted = True
                    break
                i += 1
                if args == "skip":
                    continue
                before = enc(args)
                js = json.dumps(before, sort_keys=True)
                distinct.add(hashlib.sha256(js.encode()).hexdigest())
                if len(samples) < 2 and len(js) < 3000:
                    samples.append(before)
                r = run_one(env, c, args)
                if r is None:
                    continue
                if isinstance(r, Known):
                    if not any(k["id"] == r.fid for k in res["known"]):
                        res["known"].append(dict(id=r.fid, check=c["name"], msg=str(r), args=before))
                    continue
                nfail += 1
                if nfail <= 2:
                    res["violations"].append(dict(property=c["prop"], check=c["name"], msg=str(r), args=before))
                if nfail >= 3:
                    break
            res["checks"].append(dict(name=c["name"], cases=i, distinct=len(distinct),
                                      exhaustive=bool(exhausted and not c["cap"]), samples=samples,
                                      wall=round(time.time() - t0, 2)))
        res["wall"] = round(time.time() - t_all, 2)
    s = json.dumps(res)
    if a.out:
        open(a.out, "w").write(s)
    else:
        for c in res["checks"]:
            print({k: v for k, v in c.items() if k != "samples"})
        for v in res["violations"] + res["known"]:
            print(v["check"], v["msg"])
            print({k: (x.get("text", "...") if isinstance(x, dict) else x) for k, x in
                   dec({"__di__": []}) or v["args"]["__di__"]} if False else "")
    return 0


if __name__ == "__main__":
    import vf.runtime as rt          # contracts import this module by its package name
    sys.exit(rt.main())
