"""Deductive layer: generates the proof obligations of a property from the
current source of /repo and discharges them.

usage: symrun.py --prop C06 [--tier quick] [--seed 1] [--limit 240] [--out f] [--only group]

Every contract group (contracts/sym_*.py) runs in its own process.  A group
that leaves the verifier's subset, exceeds its time or crashes inside the
verifier leaves its obligations undischarged ("unknown"); it never becomes a
violation.  "refuted" needs a concrete assignment that satisfies the
precondition and on which the two sides of the obligation differ."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("VF_REPO", "/repo")
sys.dont_write_bytecode = True
for p in (HERE,):
    if p in sys.path:
        sys.path.remove(p)
if ROOT in sys.path:
    sys.path.remove(ROOT)
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)

GROUPS = []


class Group:
    def __init__(self, props, name, fn, functions, expects, limit, thorough, trusted, assumes, frame):
        self.frame = frame
        self.props, self.name, self.fn = props, name, fn
        self.functions, self.expects, self.limit = functions, expects, limit
        self.thorough, self.trusted, self.assumes = thorough, trusted, assumes


def group(props, functions, expects=(), limit=100, thorough=False, trusted=(), assumes=(), frame=True):
    """register a contract group.  expects: names of the obligations it must
    produce (they are reported undischarged when the group does not get there)"""
    if isinstance(props, str):
        props = (props,)

    def deco(fn):
        GROUPS.append(Group(tuple(props), fn.__name__, fn, list(functions), list(expects), limit,
                            thorough, list(trusted), list(assumes), frame))
        return fn
    return deco


class Ctx:
    """collects the obligations of one group"""
    def __init__(self, group, tier, seed, conn, prop=None):
        # C21 takes the frame obligations of all groups, other properties the rest
        self.frame_only = prop == "C21"
        self.frames = {}
        self.group, self.tier, self.seed, self.conn = group, tier, seed, conn
        self.done = set()
        self.t = time.time()

    def put(self, name, status, backend="", detail=None, witness=None, replay=None, function=None, kind="failed"):
        now = time.time()
        if self.frame_only and not name.endswith("/frame"):
            return
        r = dict(name=self.group.name + "/" + name, status=status, backend=backend, detail=detail,
                 witness=witness, replay=replay or [], seconds=round(now - self.t, 3),
                 kind=kind if status == "unknown" else "",
                 function=function or ", ".join(self.group.functions))
        self.t = now
        self.done.add(name)
        self.conn.send(("obl", r))

    def flush(self):
        from vf.exec import merge
        for n, (fn, rs) in self.frames.items():
            r = merge(rs)
            self.put(n + "/frame", r.status, r.backend, r.detail, function=fn, kind=r.kind)

    def proved(self, name, backend, function=None):
        self.put(name, "proved", backend, function=function)

    def unknown(self, name, why, function=None, kind="failed"):
        self.put(name, "unknown", "", detail=why, function=function, kind=kind)

    def refuted(self, name, detail, witness=None, replay=None, backend="evaluation", function=None):
        self.put(name, "refuted", backend, detail, witness, replay, function=function)

    def cover(self, name, ok):
        if self.frame_only:
            return
        self.conn.send(("cover", dict(name=self.group.name + "/" + name, reachable=bool(ok))))


def child(group, tier, seed, conn, prop, scale):
    from vf import terms as tm, smt
    smt.SCALE = scale
    if os.environ.get("VF_DUMP"):
        import signal
        signal.signal(signal.SIGALRM, lambda n, f: print("".join(traceback.format_stack(f)[-14:]), flush=True))
        signal.setitimer(signal.ITIMER_REAL, float(os.environ["VF_DUMP"]), float(os.environ["VF_DUMP"]))
    ctx = Ctx(group, tier, seed, conn, prop)
    why, kind = None, "outside"
    try:
        group.fn(ctx)
    except tm.Unsupported as e:
        why = "outside the verifier's subset: %s" % e
        if os.environ.get("VF_TRACE"):
            traceback.print_exc()
    except BaseException as e:
        kind = "verifier"
        why = "verifier: %s: %s" % (type(e).__name__, str(e)[:400])
        if os.environ.get("VF_TRACE"):
            traceback.print_exc()
        tb = traceback.extract_tb(e.__traceback__)
        why += " at " + " < ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-3:][::-1])
    ctx.flush()
    if why:
        left = [n for n in group.expects if n not in ctx.done and not ctx.frame_only]
        if ctx.frame_only:
            left = ["(remaining)/frame"]
        for n in left or (["(remaining)"]):
            ctx.unknown(n, why, kind=kind)
    else:
        for n in group.expects:
            if n not in ctx.done and not ctx.frame_only:
                ctx.unknown(n, "obligation not generated", kind="outside")
    conn.send(("stats", dict(smt.STATS)))
    conn.close()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--limit", type=float, default=240)
    ap.add_argument("--out")
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=7)
    a = ap.parse_args()
    import vf.symrun as me
    for m in sorted(os.listdir(os.path.join(ROOT, "contracts"))):
        if m.startswith("sym_") and m.endswith(".py"):
            importlib.import_module("contracts." + m[:-3])
    gs = [g for g in me.GROUPS if a.prop is None or a.prop in g.props or (a.prop == "C21" and g.frame)]
    if a.only:
        gs = [g for g in gs if g.name == a.only]
    if a.tier == "quick":
        gs = [g for g in gs if not g.thorough]
    gs.sort(key=lambda g: -g.limit)
    t0 = time.time()
    obls, covers, stats = [], [], {"z3_calls": 0, "z3_time": 0.0, "unknown": 0}
    pend, run = [(g, 1) for g in gs], []
    first = {}
    mpx = mp.get_context("fork")
    while pend or run:
        while pend and len(run) < a.jobs:
            g, scale = pend.pop(0)
            r, w = mpx.Pipe(False)
            p = mpx.Process(target=child, args=(g, a.tier, a.seed, w, a.prop, scale))
            p.start()
            w.close()
            run.append([g, p, r, time.time(), [], scale])
        mp.connection.wait([x[2] for x in run], timeout=1.0)
        for x in list(run):
            g, p, r, ts, got, scale = x
            eof = False
            try:
                while r.poll():
                    kind, v = r.recv()
                    if kind == "obl":
                        got.append(v)
                    elif kind == "cover":
                        covers.append(v)
                    else:
                        for k in stats:
                            stats[k] += v[k]
            except EOFError:
                eof = True
            lim = g.limit*(1 if a.tier == "quick" else 6)*(1 if scale == 1 else 2)
            over = time.time() - ts > lim or time.time() - t0 > a.limit
            if eof or over or not p.is_alive():
                if over and p.is_alive():
                    p.kill()
                p.join()
                if not eof:
                    try:
                        while r.poll():
                            kind, v = r.recv()
                            if kind == "obl":
                                got.append(v)
                    except EOFError:
                        pass
                names = {o["name"] for o in got}
                why = "time limit" if over else "verifier process ended"

                def missing(n):
                    return dict(name=g.name + "/" + n, status="unknown", backend="", witness=None, kind="time",
                                replay=[], function=", ".join(g.functions), seconds=0, detail=why)
                miss = [missing(n) for n in g.expects if g.name + "/" + n not in names] if a.prop != "C21" else []
                got += miss
                if not miss and (over or (not got and a.prop != "C21")):
                    got.append(missing("(all)" if not got else "(remaining)"))
                if any(o["kind"] == "failed" for o in got) and scale == 1 and time.time() - t0 < .6*a.limit:
                    # once more with more time for the solver
                    first[g.name] = got
                    pend.append((g, 4))
                    run.remove(x)
                    continue
                if over and g.name in first:
                    got = first[g.name]
                obls += got
                run.remove(x)
    fs = sorted({f for g in gs for f in g.functions})
    trusted, assumes = list(TRUST), []
    for g in gs:
        trusted += [x for x in g.trusted if x not in trusted]
        assumes += [x for x in g.assumes if x not in assumes]
    res = dict(obligations=obls, vacuity=covers, functions=fs, trusted=trusted,
               assumptions=ASSUME + assumes, solver_seconds=stats["z3_time"],
               solver_calls=stats["z3_calls"], wall=time.time() - t0)
    if a.out:
        with open(a.out, "w") as f:
            json.dump(res, f)
    else:
        for o in obls:
            print("%-8s %-60s %6.2fs %s %s" % (o["status"], o["name"], o["seconds"] or 0, o["backend"],
                                              (o["detail"] or "")[:600]))
            if o["status"] == "refuted":
                print("     witness:", str(o["witness"])[:500])
        for c in covers:
            if not c["reachable"]:
                print("UNREACHABLE precondition", c)
        print("wall %.1f z3 %.1fs/%d" % (res["wall"], stats["z3_time"], stats["z3_calls"]))
    return 0


TRUST = ["vf/ (the verifier itself: symbolic interpreter, normal forms, loop rule)",
         "z3 5.3.2 (python3-vt)", "CPython 3.12 executing the instrumented functions",
         "vf/symnp.py and vf/symarr.py: the contracts assumed of the NumPy/SciPy functions the code calls, executed in "
         "their place on symbolic arguments (anything without one is reported undischarged, never skipped)",
         "generator functions are run to their end when their iterator is created (no consumer effect can interleave)"]
ASSUME = ["machine floats are treated as reals: rounding is not modelled, decimal constants equal to within 1e-11 "
          "(relative, per normal-form coefficient) are identified",
          "machine integers are treated as mathematical integers"]

if __name__ == "__main__":
    import vf.symrun as me
    sys.exit(me.main())
