#!/opt/veriftools/pyvenv/bin/python
"""Random programs for the conformance check: python3-vt tools/conform_fuzz.py SEED COUNT"""
import random
import signal
import sys
import os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import conform as C

HEAD = "import numpy as np\n"
# expressions by kind: V reals (n,), W integers (n,), D indices (n,), M reals (n,m), E indices (n,3), G (3,4), H indices (4,), S scalar


class Gen:
    def __init__(self, rng):
        self.r, self.vars = rng, {}

    def e(self, kind, depth):
        own = [v for v, k in self.vars.items() if k == kind]
        base = {"V": ["a"], "W": ["c"], "D": ["d"], "M": ["b"], "E": ["e"], "G": ["g"], "H": ["h"], "S": ["s", "k", "a[0]", "c[-1]", "2"], "B": ["(c > 0)"],
                "N": ["(b > 0)"]}[kind] + own*2
        if depth <= 0:
            return self.r.choice(base)
        x = lambda k: self.e(k, depth - 1)
        opts = {
            "V": lambda: ["%s + %s" % (x("V"), x("V")), "%s*%s" % (x("V"), x("S")), "np.where(%s, %s, %s)" % (x("B"), x("V"), x("V")),
                          "%s[%s]" % (x("V"), x("D")), "%s[::-1]" % x("V"), "%s[:, %s]" % (x("M"), self.r.choice(["0", "-1"])), "%s.sum(axis=1)" % x("M"),
                          "np.cumsum(%s)" % x("V"), "np.concatenate((%s[1:], %s[:1]))" % (x("V"), x("V")), "abs(%s)" % x("V"), "%s[%s].sum(axis=1)" % (x("V"), x("E")),
                          "%s/2 - %s" % (x("V"), x("W")), "np.bincount(%s, weights=%s, minlength=n)" % (x("D"), x("V")), "%s @ %s[0]" % (x("M"), x("M")), "np.maximum(%s, %s)" % (x("V"), x("S")),
                          "np.append(%s, %s)[1:]" % (x("V"), x("S")), "np.array([q*%s for q in %s])" % (x("S"), x("V")), "np.repeat(%s, 2)[::2]" % x("V"), "(%s).astype(float)" % x("W"),
                          "np.column_stack((%s, %s))[:, %s]" % (x("V"), x("V"), self.r.choice("01"))],
            "W": lambda: ["%s + %s" % (x("W"), x("D")), "%s %% 3" % x("W"), "np.cumsum(%s)" % x("B"), "np.where(%s, %s, -1)" % (x("B"), x("W")), "%s[:, 1] - %s[:, 0]" % (x("E"), x("E")), "%s*2" % x("W"),
                          "np.bincount(%s, minlength=n)" % x("D"), "(%s).sum(axis=1)" % x("N"), "%s[%s]" % (x("W"), x("D")), "-%s" % x("W"), "%s//2" % x("W"), "np.array([q + 1 for q in %s])" % x("W"), "(%s).astype(int)" % x("B"),
                          "np.array([i if q > 0 else -i for i, q in enumerate(%s)])" % x("W")],
            "D": lambda: ["%s[::-1]" % x("D"), "%s[%s]" % (x("D"), x("D")), "np.arange(n)", "%s[:, %s]" % (x("E"), self.r.choice("012")), "np.where(%s, %s, 0)" % (x("B"), x("D")), "n - 1 - %s" % x("D"), "np.minimum(%s, %s)" % (x("D"), x("D"))],
            "M": lambda: ["%s + %s[:, None]" % (x("M"), x("V")), "%s*%s" % (x("M"), x("S")), "%s[%s]" % (x("M"), x("D")), "%s[::-1]" % x("M"), "%s[:, ::-1]" % x("M"), "np.where(%s, %s, %s)" % (x("N"), x("M"), x("S")),
                          "%s.T.copy().T" % x("M"), "np.cumsum(%s, axis=%s)" % (x("M"), self.r.choice("01")), "%s.reshape(-1).reshape(n, m)" % x("M"), "%s.T.reshape(n, m)" % x("M"), "np.vstack((%s[1:], %s[:1]))" % (x("M"), x("M")), "np.outer(%s, %s[0])" % (x("V"), x("M")),
                          "np.tile(%s, (1, 2))[:, :m]" % x("M"), "%s - %s.mean(axis=0)" % (x("M"), x("M"))],
            "E": lambda: ["%s[%s]" % (x("E"), x("D")), "%s[:, [2, 0, 1]]" % x("E"), "%s[%s]" % (x("D"), x("E")), "np.stack([%s, %s, %s], axis=1)" % (x("D"), x("D"), x("D")), "%s[:, ::-1]" % x("E")],
            "G": lambda: ["%s + %s" % (x("G"), x("G")), "%s[::-1]" % x("G"), "%s*%s" % (x("G"), x("S")), "%s[:, h]" % x("G"), "np.where(%s > 0, %s, 1)" % (x("G"), x("G"))],
            "H": lambda: ["%s[%s]" % (x("H"), x("H")), "3 - %s" % x("H"), "%s[::-1]" % x("H"), "np.arange(4)"],
            "S": lambda: ["%s.sum()" % x("V"), "%s[%s]" % (x("V"), self.r.choice(["0", "-1", "n - 1", "n//2"])), "%s + %s" % (x("S"), x("S")), "(%s if %s > 0 else %s)" % (x("S"), x("S"), x("S")), "%s.sum()" % x("W"), "len(%s[%s])" % (x("V"), x("B")), "%s[%s].sum()" % (x("V"), x("B")),
                          "%s.sum()" % x("N"), "sum(q for q, p in zip(%s, %s) if p > 0)" % (x("V"), x("W")), "%s.mean()" % x("M"), "%s[1, 2]" % x("G"), "(%s).any()*1" % x("B"), "%s @ %s" % (x("V"), x("V")), "sum(1 for q in %s if q == 1)" % x("W"), "%s*(%s)" % (x("S"), x("S")), "%s[%s][0]" % (x("W"), x("D"))],
            "B": lambda: ["(%s > %s)" % (x("V"), x("S")), "(%s == %s)" % (x("W"), x("D")), "~%s" % x("B"), "(%s & %s)" % (x("B"), x("B")), "(%s | %s)" % (x("B"), x("B")), "(%s[:, 0] > 0)" % x("M"), "(%s).any(axis=1)" % x("N"), "%s[%s]" % (x("B"), x("D")), "(%s == 0)" % x("W")],
            "N": lambda: ["(%s > %s)" % (x("M"), x("S")), "(%s & %s[:, None])" % (x("N"), x("B")), "~%s" % x("N"), "(%s <= %s)" % (x("M"), x("M"))]}[kind]()
        return "(%s)" % self.r.choice(opts)

    def stmts(self):
        r, out, q = self.r, [], 0
        for _ in range(r.randint(1, 4)):
            q += 1
            v = "v%d" % q
            x = lambda k, dd=1: self.e(k, dd)
            kind = r.choice("VVMMWDES")
            mine = [w for w, k in self.vars.items() if k in "VM"]
            t = r.random()
            if t < .45 or not mine:
                fresh = {"V": "1.0*", "M": "1.0*", "W": "1*"}.get(kind, "")
                out.append("%s = %s%s" % (v, fresh, self.e(kind, r.randint(1, 2))))
                self.vars[v] = kind
                continue
            w = r.choice(mine)
            if self.vars[w] == "V":
                out += r.choice([["%s[%s] = %s" % (w, x("B"), x("S"))], ["%s[%s] += 1" % (w, x("D"))], ["np.add.at(%s, %s, %s)" % (w, x("D"), x("V"))], ["%s[1:] = %s[:-1]" % (w, x("V"))], ["%s *= 2" % w],
                                 ["for i in range(n):", "    %s[i] += %s[i]" % (w, x("V"))], ["for i, j in enumerate(%s):" % x("D"), "    %s[j] = a[i]" % w], ["for i in range(n):", "    if %s[i]:" % x("B"), "        %s[i] = %s[i]" % (w, x("V"))],
                                 ["for i, j in enumerate(%s):" % x("D"), "    %s[j] += %s[i]" % (w, x("V"))], ["%s[0] = %s" % (w, x("S"))], ["%s = %s + %s" % (v, w, w), "%s[:] = %s" % (w, x("V"))], ["p = %s[::-1]" % w, "p[0] = 7"], ["if %s > 0:" % x("S"), "    %s[-1] = 3" % w]])
            else:
                out += r.choice([["%s[:, 0] = %s" % (w, x("V"))], ["%s[%s] = 2" % (w, x("N"))], ["p = %s.T" % w, "p[0] += 1"], ["for row in %s:" % w, "    row *= 2"], ["%s[%s, 0] = 5" % (w, x("D"))], ["%s[0] = %s[-1]" % (w, x("M"))],
                                 ["for i in range(n):", "    for j in range(m):", "        %s[i, j] += i - j" % w], ["for i in range(n):", "    %s[i] = %s[%s[i]]" % (w, x("M"), x("D"))], ["p = %s.reshape(-1)" % w, "p[-1] = 4"], ["%s += %s" % (w, x("M"))], ["np.add.at(%s, %s, %s)" % (w, x("D"), x("M"))],
                                 ["for i in range(n):", "    if c[i] > 0:", "        %s[i, 0] = a[i]" % w, "    else:", "        %s[i, -1] -= 1" % w]])
        return out


def main(seed, count, only=None):
    signal.signal(signal.SIGALRM, C.late)
    tally = dict(ok=0, outside=0, WRONG=0, late=0)
    why = {}
    for q in range(count):
        if only is not None and q != only:
            continue
        rng = random.Random(seed*100003 + q)
        g = Gen(rng)
        body = g.stmts()
        vs = list(g.vars)
        ret = "return [%s]" % ", ".join(["%s*1" % v for v in vs] + [g.e(rng.choice("VMWS"), 2)])
        text = "def f(n, m, a, b, c, d, e, g, h, s, k):\n    " + "\n    ".join(body + [ret])
        signal.alarm(40)
        try:
            st, what = C.check("f", "f", text, [], 10, seed, HEAD)
        except C.Late:
            st, what = "late", ""
        except C.OUT as e:
            st, what = "outside", str(e)[:90]
        finally:
            signal.alarm(0)
        tally[st] += 1
        if st == "WRONG":
            print("---- %d\n%s\n%s" % (q, text, what[:900]), flush=True)
        elif st != "ok":
            import re
            key = re.sub(r"#?\d+", "", str(what))[:60]
            why[key] = why.get(key, 0) + 1
    print(tally, sorted(why.items(), key=lambda x: -x[1])[:12])


if __name__ == "__main__":
    main(int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]) if len(sys.argv) > 3 else None)
