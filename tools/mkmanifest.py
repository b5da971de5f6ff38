"""writes MANIFEST.json"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "C23": "Convergence rate under refinement is an asymptotic statement about Sobolev norms of the difference to the "
        "exact solution of a boundary value problem: it is not a postcondition of any function, and the analytic lemmas "
        "(Cea, Bramble-Hilbert) are outside what the installed provers have; its code-level ingredients are decided as "
        "C01-C07, C10-C13.",
 "C24": "A backward-error bound needs floating-point reasoning about SuperLU/LAPACK and NumPy summation order, external "
        "binary code with no contract; the verifier treats machine arithmetic as real arithmetic.",
}
TECH = "contract-based deductive verification: VCs generated from the real source by symbolic execution with loop " \
       "summarisation, discharged by exact polynomial normal forms and z3"
LEVELS = {}
NOTES = {}
exec(open(os.path.join(ROOT, "tools", "levels.py")).read())
checks = []
for i in range(1, 23):
    p = "C%02d" % i
    checks.append(dict(property=p, quick_cmd="python3 vf/check.py %s" % p,
                       thorough_cmd="python3 vf/check.py %s --thorough" % p,
                       technique=TECH, level=LEVELS.get(p, "proof"),
                       level_note=NOTES.get(p, DEFAULT_NOTE)))
m = dict(version=1, setup_cmd="python3 vf/setup.py", checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
         notes="No hooks in /repo: the verifier reads the source files and instruments them in memory.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
