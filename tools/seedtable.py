#!/usr/bin/env python3
"""Rows of DESIGN.md's table from a log of runseeds.py: seedtable.py LOG"""
import re, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for b in re.split(r"^== ", open(sys.argv[1]).read(), flags=re.M)[1:]:
    i, p, rc = re.match(r"(\S+) (C\d\d) rc=(\d)", b).groups()
    ls = b.splitlines()
    kinds = set(re.findall(r":(refuted|failed|outside|time|verifier|unknown)(?:;|$)", ls[1].split("sym:")[1])) if len(ls) > 1 and "sym:" in ls[1] else set()
    ded = next((k for k in ("refuted", "failed", "time", "verifier", "outside", "unknown") if k in kinds), "-")
    num = "input" if len(ls) > 2 and ls[2].strip() and not ls[2].strip().startswith("obligation") else "-"
    needs = json.load(open(f"{ROOT}/seeded/{i}/meta.json"))["needs"].replace("|", "/").replace("\n", " ")
    print("| %s | %s | %s | %s%s |" % (i, needs, ded, num, "" if rc == "1" else " (missed)"))
