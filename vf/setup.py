"""setup: checks that the two interpreters and the solver are there"""
import subprocess
import sys
ok = True
for py, mods in (("/opt/venv/bin/python", "numpy, scipy, matplotlib"),
                 ("/opt/veriftools/pyvenv/bin/python", "numpy, z3")):
    r = subprocess.run([py, "-c", "import " + mods], capture_output=True, text=True)
    print(py, "ok" if r.returncode == 0 else r.stderr)
    ok = ok and r.returncode == 0
sys.exit(0 if ok else 1)
