"""Check driver:  check.py <property>

Runs, on the current /repo: the deductive layer (vf/symrun.py: obligations
generated from the source, discharged function by function) and the run-time
layer (vf/runtime.py: the same contracts executed on the real code), writes
evidence/<property>.json, and reports.

exit 0  the property held on everything decided
exit 1  VIOLATION line printed
exit 3  the check itself failed
"""
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NUMPY = "/opt/venv/bin/python"
SYMPY = "/opt/veriftools/pyvenv/bin/python"
REPO = os.environ.get("VF_REPO", "/repo")


def known_ids(prop):
    ids = {}
    with open(os.path.join(ROOT, "known_findings.txt"), encoding="utf-8") as f:
        for line in f:
            if line.startswith("known: property=%s " % prop):
                parts = line.split(None, 3)
                ids[parts[2][3:]] = parts[3].strip()
    return ids


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    tier = "thorough" if tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    nbudget = 240 if tier == "thorough" else 22
    slimit = 600 if tier == "thorough" else 240
    work = tempfile.mkdtemp(prefix="vfchk")
    env = dict(os.environ, MPLBACKEND="Agg", MPLCONFIGDIR=os.path.join(work, "mpl"),
               PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1",
               OMP_NUM_THREADS="1")
    env.pop("PYTHONPATH", None)
    os.makedirs(env["MPLCONFIGDIR"])
    outdir = os.path.join(ROOT, "evidence")
    repdir = os.path.join(outdir, "replay")
    os.makedirs(repdir, exist_ok=True)
    for f in os.listdir(repdir):
        if f.startswith(prop + "-"):
            os.remove(os.path.join(repdir, f))

    def numeric(budget, sd, extra=(), tag="num"):
        out = os.path.join(work, tag + ".json")
        cmd = [NUMPY, os.path.join(ROOT, "vf", "runtime.py"), "--prop", prop, "--seed", str(sd),
               "--budget", str(budget), "--out", out, *extra]
        log = open(os.path.join(work, tag + ".log"), "w+")
        p = subprocess.Popen(cmd, cwd=work, env=env, stdout=log, stderr=subprocess.STDOUT,
                             start_new_session=True)
        return p, out, log, 4*budget + 200

    def finish(p, out, log, limit):
        try:
            p.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            return None, "time limit"
        log.seek(0)
        txt = log.read()
        if p.returncode != 0 or not os.path.exists(out):
            return None, txt[-3000:]
        with open(out) as f:
            return json.load(f), txt

    try:
        rc = run(prop, tier, seed, t0, nbudget, slimit, work, env, repdir, outdir, numeric, finish)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return rc


def run(prop, tier, seed, t0, nbudget, slimit, work, env, repdir, outdir, numeric, finish):
    num_h = numeric(nbudget, seed)
    sout = os.path.join(work, "sym.json")
    slog = open(os.path.join(work, "sym.log"), "w+")
    sp = subprocess.Popen([SYMPY, os.path.join(ROOT, "vf", "symrun.py"), "--prop", prop, "--tier", tier,
                           "--seed", str(seed), "--limit", str(slimit), "--out", sout],
                          cwd=work, env=env, stdout=slog, stderr=subprocess.STDOUT, start_new_session=True)
    num, ntxt = finish(*num_h)
    sym, stxt = finish(sp, sout, slog, slimit + 120)
    if num is None:
        print("check %s: run-time layer failed:\n%s" % (prop, ntxt))
        return 3
    if sym is None:
        # no verdict from the verifier: nothing is proved, the run-time contracts decide alone
        print("check %s: deductive layer gave no result:\n%s" % (prop, stxt))
        sym = dict(obligations=[dict(name="(all)", status="unknown", kind="verifier", backend="", function="",
                                     seconds=0, detail="the deductive layer gave no result: " + (stxt or "")[-400:])],
                   trusted=[], functions=[], assumptions=[], solver_seconds=0.0, solver_calls=0, vacuity=[])
    obls = sym["obligations"]
    if not obls and not num["checks"]:
        print("check %s: no obligations" % prop)
        return 3
    refuted = [o for o in obls if o["status"] == "refuted"]
    nviol = list(num["violations"])
    rep = []
    # obligations that no longer hold (not those the verifier could not reach)
    failed = [o for o in obls if o["status"] == "unknown" and o.get("kind") == "failed"]
    # replay of counterexamples on the real code, and search for failing inputs
    if (refuted or failed) and not nviol:
        cands = [c for o in refuted for c in o.get("replay", [])]
        cf = os.path.join(work, "cands.json")
        with open(cf, "w") as f:
            json.dump(cands, f)
        r2, txt = finish(*numeric(max(20, nbudget), seed + 1000, ("--try", cf), "num2"))
        if r2 is not None:
            nviol += r2["violations"]
            for k in r2["known"]:
                if not any(x["id"] == k["id"] for x in num["known"]):
                    num["known"].append(k)
            if not nviol:
                for o in refuted:
                    if o.get("replay"):
                        o["detail"] = "(no failing run of the real code found) %s" % (o.get("detail") or "")
    known = known_ids(prop)
    out_lines = []
    for k in num["known"]:
        if k["id"] in known:
            out_lines.append("KNOWN-FINDING: property=%s %s" % (prop, known[k["id"]]))
        else:
            nviol.append(dict(property=prop, check=k["check"], msg=k["msg"], args=k["args"]))
    violations = []
    broken = refuted + failed
    rlim = sorted({o["name"] for o in broken})
    for i, v in enumerate(nviol[:5]):
        path = os.path.join(repdir, "%s-%s-%d.json" % (prop, v["check"], i))
        with open(path, "w") as f:
            json.dump(dict(property=prop, check=v["check"], message=v["msg"], args=v["args"],
                           failed_obligations=rlim,
                           how="%s %s/vf/runtime.py --replay %s" % (NUMPY, ROOT, path)), f, indent=1)
        violations.append((path, "%s: %s" % (v["check"], v["msg"]), True))
    if not violations:
        for i, o in enumerate(broken[:5]):
            path = os.path.join(repdir, "%s-obligation-%d.json" % (prop, i))
            with open(path, "w") as f:
                json.dump(dict(property=prop, obligation=o["name"], function=o.get("function"), status=o["status"],
                               verifier_output=o.get("detail"), witness=o.get("witness"), all_failed_obligations=rlim,
                               how="%s %s/vf/symrun.py --prop %s --only %s" % (SYMPY, ROOT, prop, o["name"].split("/")[0])),
                          f, indent=1)
            violations.append((path, "obligation %s of %s %s: %s" % (
                o["name"], o.get("function"), "refuted" if o["status"] == "refuted" else "not discharged",
                (o.get("detail") or "")[:300]), False))
    done = [o for o in obls if o["status"] == "proved"]
    und = [o for o in obls if o["status"] == "unknown"]
    backends = {}
    for o in done:
        backends[o["backend"]] = backends.get(o["backend"], 0) + 1
    vac = sym.get("vacuity", [])
    ev = dict(
        property=prop, tier=tier, seed=seed, level="proof" if not und and not refuted else "other",
        coverage=dict(
            **({} if not und and not refuted else dict(explanation="not every obligation was discharged on this run: "
               "the undischarged ones are listed; for them only the bounded run-time contracts were evaluated")),
            obligations=len(obls), discharged=len(done),
            evaluations=sum(c["cases"] for c in num["checks"]),
            checker_cmd="%s %s/vf/symrun.py --prop %s --tier %s" % (SYMPY, ROOT, prop, tier),
            trusted_base=sym["trusted"],
            functions_under_contract=sym["functions"],
            discharged_by=backends,
            solver_seconds=round(sym["solver_seconds"], 3),
            solver_calls=sym["solver_calls"],
            obligation_list=[dict(name=o["name"], function=o.get("function"), status=o["status"],
                                  backend=o["backend"], seconds=o.get("seconds"),
                                  **({"detail": o["detail"]} if o["status"] != "proved" and o.get("detail") else {}),
                                  **({"kind": o.get("kind") or "failed"} if o["status"] == "unknown" else {}))
                             for o in obls],
            undischarged=[o["name"] for o in und],
            precondition_covers=vac,
            bounded_stand_in=dict(
                label="bounded: the executable contracts run on the real code, never counted as proved",
                evaluations=sum(c["cases"] for c in num["checks"]),
                distinct_nontrivial=sum(c["distinct"] for c in num["checks"]),
                rule="inputs drawn by contracts/num_*.py (valid by construction, constants the source "
                     "compares with included); distinct = different arguments",
                per_contract=[{k: v for k, v in c.items() if k != "samples"} for c in num["checks"]],
                samples=[s for c in num["checks"] for s in c["samples"][:1]][:6]),
        ),
        assumptions=sym["assumptions"],
        wall_s=round(time.time() - t0, 2),
        violations=len(violations))
    with open(os.path.join(outdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d discharged, %d undischarged, %d refuted; %d run-time evaluations (%.0f s)" % (
        prop, len(obls), len(done), len(und), len(refuted),
        sum(c["cases"] for c in num["checks"]), time.time() - t0))
    for o in und:
        print("  undischarged (%s): %s: %s" % (o.get("kind"), o["name"], (o.get("detail") or "")[:200]))
    for line in out_lines:
        print(line)
    if violations:
        for path, msg, repl in violations:
            print("  " + msg)
        path, msg, repl = violations[0]
        print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if repl else " no-failing-input-found"))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
