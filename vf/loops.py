"""Loop rule.  A `for` over a symbolic iterable is summarised from its own body.

The body is executed on an arbitrary iteration k with everything it modifies
replaced by unknowns (passes are repeated until the set of modified objects is
closed).  From the stores and final values of all its paths the rule derives
the loop invariant:
  * a scalar (or element of a small array) that every path changes by an amount
    that does not depend on unknowns is its initial value plus the bounded sum
    of the amounts of the iterations before k;
  * one that is overwritten is the value written by the last iteration that
    writes it;
  * an array is its initial contents plus the stores of the iterations before
    k; a read of it inside the body refers to the initial contents when no
    earlier iteration can have stored there (proved with z3), else to the
    stores of the iterations before k;
  * a list is its initial contents followed by the appended items.
Initiation and preservation hold by construction of these forms.  Anything
else (early exit, recurrences, exceptions) is outside the subset."""
from vf import terms as tm, symnp, simp
from vf.terms import T, R, I, B, Unsupported
from vf.symnp import JArr, wrap, kind_of
import numbers
import types
import numpy as _n

UNORDERED = []
MAXPATHS = 64


class Poison:
    """value of an unknown object"""
    def __init__(self, what):
        self.__dict__["_w"] = what

    def __getattr__(self, k):
        raise Unsupported("use of %s" % self._w)


def _p(self, *a, **k):
    raise Unsupported("use of %s" % self._w)


for _m in ("call getitem setitem add radd sub rsub mul rmul truediv rtruediv iter len bool eq ne lt le gt ge "
           "float int index neg abs contains matmul rmatmul floordiv mod pow iadd isub imul").split():
    setattr(Poison, "__%s__" % _m, _p)
Poison.__hash__ = object.__hash__


def _ex():
    from vf import exec as ex
    return ex.CURRENT


def root(a):
    while a.base is not None:
        a = a.base
    return a


def same(a, b):
    if a is b:
        return True
    if type(a) is type(b) and isinstance(a, (int, float, str, bool, complex)):
        return a == b and repr(a) == repr(b)
    if isinstance(a, range) and isinstance(b, range):
        return a == b
    return False


def scalar(x):
    return isinstance(x, T) or (isinstance(x, (numbers.Number, _n.generic)) and not isinstance(x, complex))


class Frame:
    def __init__(self, get, no, k, lo, hi, guard):
        from vf import symarr
        self.get, self.no = get, no
        self.k, self.lo, self.hi, self.guard, self.g0 = k, lo, hi, guard, guard
        self.base = [tm.le(lo, k), tm.lt(k, hi)] + ([guard] if guard is not tm.TRUE else [])
        self.taken, self.prefix, self.todo = [], [], None
        self.serial = next(symarr._serial)
        self.saved = {}         # id -> (object, snapshot)
        self.jold = {}          # id(root) -> (root, saved copy or None)
        self.born, self.hbase = {}, {}
        self.bits, self.now, self.jnow = [], set(), set()
        self.unknown = set()    # ids of the unknowns of this frame
        self.hnames = set()
        self.flat = None        # (n, m): the index is used as a pair

    # ---- facts and decisions
    def facts(self):
        return self.base + list(self.taken)

    def deciding(self):
        return True

    def mentions(self, f):
        ids = tm.fv(f)
        if self.k.id in ids or ids & self.unknown:
            return True
        return any(s.op == "app" and s.args[0] in self.hnames for s in tm.subterms(f))

    def decide(self, f):
        from vf import loader
        X = _ex()
        nf = tm.not_(f)
        for g in self.taken:
            if g is f:
                return True
            if g is nf:
                return False
        if not self.mentions(f):
            # the same in every iteration: decided outside the loop
            if not X.feasible(f):
                return False
            if not X.feasible(nf):
                return True
            i = loader.LOOPS.index(self)
            if i > 0:
                return loader.LOOPS[i - 1].decide(f)
            return X.decide_outer(f)
        if len(self.taken) < len(self.prefix):
            v = self.prefix[len(self.taken)]
        else:
            ct = X.feasible(f)
            cf = X.feasible(tm.not_(f)) if ct else True
            if ct and cf:
                self.todo.append(self.bits + [False])
                v = True
            else:
                v = ct
        self.taken.append(f if v else tm.not_(f))
        self.bits.append(v)
        return v

    def leave(self, kind):
        raise Unsupported("%s inside a loop of symbolic length" % kind)

    # ---- memory
    def touch(self, obj):
        if obj.serial >= self.serial:
            return
        if id(obj) not in self.saved:
            self.saved[id(obj)] = (obj, obj.snap())
        self.now.add(id(obj))

    def write(self, a):
        r = root(a)
        if id(r) in self.jold:
            o, s = self.jold[id(r)]
            if s is None:
                self.jold[id(r)] = (o, o.copy())
            self.jnow.add(id(r))
            return
        if id(r) not in self.born:
            raise Unsupported("store into an array of unknown origin inside a symbolic loop")

    def reach(self, objs):
        """arrays that exist before the loop"""
        from vf import symarr
        seen = set()
        st = list(objs)
        while st:
            x = st.pop()
            if isinstance(x, JArr):
                r = root(x)
                self.jold.setdefault(id(r), (r, None))
            elif isinstance(x, (list, tuple)):
                if id(x) in seen:
                    continue
                seen.add(id(x))
                st += list(list.__iter__(x)) if isinstance(x, list) else list(x)
                if isinstance(x, list) and getattr(x, "segs", None):
                    st += list(x.segs)
            elif isinstance(x, symarr.VSet):
                st.append(x.lst)
            elif isinstance(x, types.FunctionType):
                if id(x) in seen:
                    continue
                seen.add(id(x))
                st += list(x.__defaults__ or ())
                for c in x.__closure__ or ():
                    try:
                        st.append(c.cell_contents)
                    except ValueError:
                        pass
            elif isinstance(x, dict):
                if id(x) in seen:
                    continue
                seen.add(id(x))
                st += list(dict.values(x))


def whook(a):
    from vf import loader
    for fr in loader.LOOPS:
        fr.write(a)


symnp.WRITE_HOOK[0] = whook


def finalize(a):
    """called by JArr.__array_finalize__ inside loops"""
    from vf import loader
    r = root(a)
    for fr in loader.LOOPS:
        if id(r) not in fr.jold:
            fr.born[id(r)] = r


symnp.BORN[0] = finalize


def iterator(x):
    from vf import symarr
    it = x.sym_iter
    lo, hi, elem, guard = symarr.bag_iter(x) or it()
    return tm._co(lo), tm._co(hi), elem, guard


class Span:
    """range with a condition"""
    def __init__(self, lo, hi, guard=None):
        self.lo, self.hi, self.guard = lo, hi, guard

    def sym_iter(self):
        return self.lo, self.hi, lambda k: k, self.guard


def tree(x):
    """segments of a list that is not one range, or None"""
    from vf.symarr import VList
    if isinstance(x, VList) and x.mode == "segs" and not x.nolen and x.single() is None:
        return x.segs
    return None


def comp_tree(segs, elt, conds, flat):
    from vf.symarr import Seg, VList, map_item, segs_of
    out = []
    for s in segs:
        if isinstance(s, Seg):
            def at(t, k, s=s):
                return tm.subst(t, {s.v: k})

            def inner(k, xs, s=s):
                return VList.ofsegs(comp_tree([map_item(y, lambda t: at(t, k, s)) for y in xs], elt, conds, flat))
            if len(s.alts) == 1:
                (g, xs), = s.alts
                r = comp(Span(s.lo, s.hi, lambda k: at(g, k)), lambda k: inner(k, xs), [], True)
            else:
                def one(k, s=s):
                    return VList.ofsegs([y for g, xs in s.alts for y in segs_of(comp(
                        Span(tm.const(0), tm.const(1), lambda _: at(g, k, s)), lambda _: inner(k, xs, s), [], True))])
                r = comp(Span(s.lo, s.hi), one, [], True)
            out += segs_of(r)
        else:
            r = comp(Span(tm.const(0), tm.const(1)), lambda _: elt(s), [lambda _, c=c: c(s) for c in conds], flat)
            out += segs_of(r)
    return out


def run_tree(segs, get, set_, no, line):
    from vf.symarr import Seg, map_item
    for s in segs:
        if isinstance(s, Seg):
            def items(k, xs, s=s):
                return [map_item(y, lambda t: tm.subst(t, {s.v: k})) for y in xs]
            if len(s.alts) == 1:
                (g, xs), = s.alts
                for k in run(Span(s.lo, s.hi, lambda k: tm.subst(g, {s.v: k})), get, set_, -1 - no, line):
                    yield from run_tree(items(k, xs), get, set_, no, line)
            else:
                for k in run(Span(s.lo, s.hi), get, set_, -1 - no, line):
                    for g, xs in s.alts:
                        gk = tm.subst(g, {s.v: k})
                        for _ in run(Span(tm.const(0), tm.const(1), lambda _: gk), get, set_, -1 - no, line):
                            yield from run_tree(items(k, xs), get, set_, no, line)
        else:
            yield s


def comp(x, elt, conds, flat):
    """comprehension over a symbolic iterable -> VList of one segment"""
    from vf import loader, symarr
    if isinstance(x, (symarr.SSet, symarr.VSet)):
        raise Unsupported("comprehension over a set")
    from vf.symarr import VList, Seg, segs_of
    segs = tree(x)
    if segs is not None:
        return VList.ofsegs(comp_tree(segs, elt, conds, flat))
    lo, hi, elem, guard = iterator(x)
    k = tm.fresh("k", I)
    g0 = guard(k) if guard is not None else tm.TRUE
    fr = Frame(None, -1, k, lo, hi, g0)
    X = _ex()
    alts = []
    todo = [[]]
    loader.LOOPS.append(fr)
    try:
        while todo:
            if len(alts) > MAXPATHS:
                raise Unsupported("too many paths in a comprehension")
            fr.prefix, fr.taken, fr.bits, fr.todo = todo.pop(), [], [], todo
            fr.now, fr.jnow = set(), set()
            v = elem(k)
            g = tm.TRUE
            for c in conds:
                b = c(v)
                b = b if isinstance(b, T) else tm.const(bool(b))
                g = tm.and_(g, symnp._bo(b))
                if g is tm.FALSE:
                    break
            if g is not tm.TRUE:
                fr.base.append(g)
            try:
                items = []
                if g is not tm.FALSE:
                    e = elt(v)
                    items = segs_of(e) if flat else [e]
            finally:
                if g is not tm.TRUE:
                    fr.base.pop()
            if fr.now:
                raise Unsupported("comprehension with side effects")
            alts.append((tm.and_(g0, *fr.taken, g), items))
    finally:
        if fr in loader.LOOPS:
            loader.LOOPS.remove(fr)
    alts = merge_alts(alts, [tm.le(lo, k), tm.lt(k, hi)])
    if len(alts) == 1 and alts[0][0] is tm.TRUE and len(alts[0][1]) == 1 and tm._co(alts[0][1][0]) is not None and (
            symarr.known(tm.le(lo, hi))):
        t = tm._co(alts[0][1][0])
        return VList.ofarr(symarr.SArr.make((symarr.dim(tm.add(hi, tm.neg(lo))),), symarr.kind_of(t), lambda idx: tm.subst(
            t, {k: tm.add(lo, tm._co(idx[0]))})))
    return VList.ofsegs([Seg(k, lo, hi, alts)])


def merge_alts(alts, facts):
    """alternatives with single scalar items become one"""
    alts = [(g, xs) for g, xs in alts if g is not tm.FALSE and xs]
    if len(alts) > 1 and all(len(xs) == 1 and scalar(xs[0]) for g, xs in alts):
        val = tm._co(alts[-1][1][0])
        for g, xs in reversed(alts[:-1]):
            val = tm.ite(g, tm._co(xs[0]), val)
        g = tm.or_(*[g for g, _ in alts])
        alts = [(g, [val])]
    X = _ex()
    out = []
    for g, xs in alts:
        if g is not tm.TRUE and simp.entails((X.facts() if X else []) + facts, g):
            g = tm.TRUE
        out.append((g, xs))
    return out


class Cell:
    """a modified scalar: local variable, component of one, or array element"""
    def __init__(self, key, init, h):
        self.key, self.init, self.h = key, init, h
        self.closed = None      # k -> term
        self.how = None
        self.posts = []


def flat(v):
    """scalars of a value and the way back, or None"""
    if scalar(v):
        return [tm._co(v)], lambda xs: xs[0]
    if isinstance(v, JArr) and all(tm._co(x) is not None for x in v.raw().flat):
        sh, vd = v.shape, v.vd
        return [tm._co(x) for x in v.raw().flat], lambda xs: wrap(_arr(xs, sh), vd)
    return None


def _arr(xs, sh):
    o = _n.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        o[i] = x
    return o.reshape(sh)


def run(x, get, set_, no, line):
    from vf import loader, symarr
    from vf.symarr import Buf, VList, SArr, known
    if isinstance(x, symarr.VSet):
        x = x.view()
    unordered = isinstance(x, symarr.SSet)
    lo, hi, elem, guard = iterator(x)
    if known(tm.le(hi, lo)):
        return
    X = _ex()
    start = dict(get())
    k = tm.fresh("k", I)
    g0 = guard(k) if guard is not None else tm.TRUE
    fr = Frame(get, no, k, lo, hi, g0)
    fr.reach(start.values())
    for m in X.worlds:
        for md in m.mods.values():
            fr.reach([v for n, v in vars(md).items() if not n.startswith("__")])
    for f2 in loader.LOOPS:
        for o, s in f2.jold.values():
            fr.jold.setdefault(id(o), (o, None))
        for o in f2.born.values():
            fr.jold.setdefault(id(o), (o, None))
    L = {}          # local name -> havoc value (None: poison)
    Lsort = {}      # local name -> sorts of its components
    jm = {}         # id(root) -> set of modified flat positions
    hv = {}         # id(obj) -> havoc application name (Buf) / True (VList)
    nside, nextra = len(X.sides), len(X.extra)
    cells = {}
    closed = None
    done = False
    for passno in range(14):
        del X.sides[nside:]
        del X.extra[nextra:]
        paths = []
        # ---- unknowns of this pass
        loc, fr.unknown, fr.hnames = dict(start), set(), set()
        newcells = {}
        for name in L:
            fl = flat(start[name])
            if fl is None or Lsort[name] is None:
                loc[name] = Poison("variable %r of an earlier iteration (line %d)" % (name, line))
                continue
            xs = []
            for i, (t, s) in enumerate(zip(fl[0], Lsort[name])):
                c = newcells[("loc", name, i)] = Cell(("loc", name, i), t, tm.fresh(name, s))
                xs.append(closed[c.key][0](k) if closed and c.key in closed else c.h)
                fr.unknown.add(c.h.id)
            loc[name] = fl[1](xs)
        jval = {}
        for rid, pos in jm.items():
            o, s = fr.jold[rid]
            val = s.copy().reshape(-1)
            for i, srt in pos.items():
                c = newcells[("arr", rid, i)] = Cell(("arr", rid, i), tm._co(s.reshape(-1)[i]),
                                                     tm.fresh("el%d" % i, srt))
                val[i] = closed[c.key][0](k) if closed and c.key in closed else c.h
                fr.unknown.add(c.h.id)
            jval[rid] = val.reshape(s.shape)
        cells = newcells
        bases = {}
        for oid, nm in hv.items():
            if nm is not True:
                hn = "H%s" % nm
                fr.hnames.add(hn)
                bases[oid] = hn
        todo = [[]]
        loader.LOOPS.append(fr)
        fr.born = {}
        try:
            while todo:
                if len(paths) > MAXPATHS:
                    raise Unsupported("too many paths in a loop body (line %d)" % line)
                fr.prefix, fr.taken, fr.bits, fr.todo = todo.pop(), [], [], todo
                fr.now, fr.jnow = set(), set()
                restore(fr, hv, bases, jval)
                set_(loc)
                fr.s0 = len(X.sides)
                yield elem(k)
                if not loader.LOOPS or loader.LOOPS[-1] is not fr:
                    raise Unsupported("loop nesting")
                paths.append(collect(fr, get(), hv, bases))
        finally:
            if fr in loader.LOOPS:
                loader.LOOPS.remove(fr)
        if fr.flat is not None:
            # the index is only a pair (k // m, k % m): two nested loops in the same order
            del X.sides[nside:]
            del X.extra[nextra:]
            restore(fr, {}, {}, {}, final=True)
            set_(dict(start))
            n, m = (symarr.dim(t) for t in fr.flat)
            rng = lambda n: symarr.SRange(n)
            for i in run(rng(n), get, set_, no, line):
                i = tm._co(i)
                if not symarr.issym(m):
                    for j in range(m):
                        yield tm.add(tm.mul(i, tm.const(m)), tm.const(j))
                else:
                    for j in run(rng(m), get, set_, no, line):
                        yield tm.add(tm.mul(i, tm._co(m)), j)
            return
        # ---- closure of the modified set
        grow = False
        for p in paths:
            for name in start:
                if name not in p["loc"]:
                    raise Unsupported("del inside a symbolic loop")
                if not same(p["loc"][name], loc[name]):
                    fl = flat(start[name])
                    fp = flat(p["loc"][name])
                    ok = fl is not None and fp is not None and len(fl[0]) == len(fp[0]) and \
                        type(start[name]) is type(p["loc"][name]) or (
                            scalar(start[name]) and scalar(p["loc"][name]))
                    if isinstance(p["loc"][name], JArr) and isinstance(start[name], JArr) and \
                            start[name].shape != p["loc"][name].shape:
                        ok = False
                    srt = [prom(a.sort, b.sort) for a, b in zip(fl[0], fp[0])] if ok else None
                    if name in L:
                        old = Lsort[name]
                        srt = None if old is None or srt is None else [prom(a, b) for a, b in zip(old, srt)]
                    if name not in L or srt != Lsort[name]:
                        L[name], Lsort[name] = True, srt
                        grow = True
            for oid in p["now"]:
                if oid not in hv:
                    o = fr.saved[oid][0]
                    hv[oid] = True if isinstance(o, VList) else "%d_%d" % (o.serial, next(symarr._serial))
                    grow = True
            for rid in p["jnow"]:
                o, s = fr.jold[rid]
                m = jm.setdefault(rid, {})
                before = (jval[rid] if rid in jval else s).reshape(-1)
                after = p["jpost"][rid].reshape(-1)
                for i in range(after.size):
                    if not same(after[i], before[i]):
                        a, b = tm._co(s.reshape(-1)[i]), tm._co(after[i])
                        if a is None or b is None:
                            raise Unsupported("object stored in an array inside a symbolic loop")
                        srt = prom(a.sort, b.sort)
                        if i in m:
                            srt = prom(srt, m[i])
                        if m.get(i) != srt:
                            m[i] = srt
                            grow = True
                if rid not in jval:
                    grow = True
        if grow:
            closed = None
            continue
        # ---- closed forms
        res = Resolver(fr, X, paths, cells, hv, bases, k, lo, hi, g0)
        if cells and closed is None:
            closed = res.cells_closed()
            if closed:
                continue
        res.closed_pre = closed or {}
        done = True
        break
    if not done:
        raise Unsupported("loop without closed form (line %d)" % line)
    # ---- final state
    res.resolve(unordered)
    sides = [(f, list(t), list(lf)) for f, t, lf in X.sides[nside:]]
    del X.sides[nside:]
    keep = [f for f in X.extra[nextra:] if not fr.mentions(f)]
    del X.extra[nextra:]
    X.extra += keep
    restore(fr, {}, {}, {}, final=True)
    for f, t, lf in sides:
        X.sides.append((res.close(f, t + lf), t, [res.close_fact(q) for q in lf]))
    for oid, nm in hv.items():
        o = fr.saved[oid][0]
        symarr.touch(o)
        if isinstance(o, VList):
            o._tosegs()
            o.segs += res.segments(oid)
        else:
            for e in res.entries[oid]:
                o.state = (o.state[0], o.state[1] + (e,))
            o.memo = {}
    fin = {}
    for rid, pos in jm.items():
        o, s = fr.jold[rid]
        whook(o.view(JArr))
        of = o.reshape(-1)
        for i in pos:
            v = res.final(cells[("arr", rid, i)])
            if v is None:
                raise Unsupported("array element without closed form after the loop (line %d)" % line)
            of[i] = v
    loc = dict(start)
    for name in L:
        fl = flat(start[name])
        if fl is None or Lsort[name] is None:
            loc[name] = Poison("variable %r after the loop at line %d" % (name, line))
            continue
        xs = [res.final(cells[("loc", name, i)]) for i in range(len(fl[0]))]
        loc[name] = Poison("variable %r after the loop at line %d" % (name, line)) \
            if any(v is None for v in xs) else fl[1](xs)
    allp = set()
    for p in paths:
        allp |= set(p["loc"])
    for name in allp:
        if name not in start:
            v = res.last_value(name)
            loc[name] = v if v is not None else Poison("variable %r after the loop at line %d" % (name, line))
    set_(loc)


def prom(a, b):
    if a == b:
        return a
    return R if R in (a, b) else I


def restore(fr, hv, bases, jval, final=False):
    from vf.symarr import VList, app_base, SORT
    for oid, (o, s) in fr.saved.items():
        o.restore(s)
        if oid in hv:
            if isinstance(o, VList):
                o.havoc()
            else:
                fr.hbase[oid] = app_base(bases[oid], SORT[o.kind])
                o.state = (fr.hbase[oid], ())
                o.memo = {}
    for rid, (o, s) in fr.jold.items():
        if s is not None:
            o[...] = jval[rid] if rid in jval else s


def collect(fr, loc, hv, bases):
    from vf.symarr import VList
    p = dict(loc=dict(loc), now=set(fr.now), jnow=set(fr.jnow), taken=list(fr.taken), ent={}, lst={}, jpost={})
    for oid in fr.now:
        o = fr.saved[oid][0]
        if isinstance(o, VList):
            if oid in hv:
                if o.mode != "segs" or not o.nolen:
                    raise Unsupported("list replaced inside a symbolic loop")
                p["lst"][oid] = list(o.segs)
        elif oid in hv:
            p["ent"][oid] = list(o.state[1])
            if o.state[0] is not fr.hbase[oid]:
                raise Unsupported("array replaced inside a symbolic loop")
    for rid in fr.jnow:
        p["jpost"][rid] = fr.jold[rid][0].copy()
    return p


class Resolver:
    def __init__(self, fr, X, paths, cells, hv, bases, k, lo, hi, g0):
        self.fr, self.X, self.paths, self.cells, self.hv, self.bases = fr, X, paths, cells, hv, bases
        self.k, self.lo, self.hi, self.g0 = k, lo, hi, g0
        self.sigma = {}
        self.entries = {}
        self.hmemo, self.inprog = {}, set()
        self.base = X.facts() + [tm.le(lo, k), tm.lt(k, hi)] + ([g0] if g0 is not tm.TRUE else [])
        self.closed_pre = {}
        for p in paths:
            p["G"] = tm.and_(*p["taken"])
            for c in cells.values():
                c.posts.append(self.post(p, c))
        self.rebase()

    def rebase(self):
        """raw entries of all paths: (path, Entry)"""
        self.raw = {}
        for oid in self.hv:
            if self.hv[oid] is True:
                continue
            self.raw[oid] = [[e for e in p["ent"].get(oid, [])] for p in self.paths]

    def post(self, p, c):
        kind, a, i = c.key
        if kind == "loc":
            return flat(p["loc"][a])[0][i]
        fr = self.fr
        v = p["jpost"].get(a)
        return tm._co(v.reshape(-1)[i]) if v is not None else c.h

    # ---- scalars
    def unresolved(self, t):
        ids = tm.fv(t)
        for c in self.cells.values():
            if c.h.id in ids:
                return True
        return any(s.op == "app" and s.args[0] in self.fr.hnames for s in tm.subterms(t))

    def sub(self, t):
        return tm.subst(t, self.sigma) if self.sigma else t

    def cells_closed(self):
        """closed forms (as functions of k) of the cells that have one"""
        out = {}
        again = True
        while again:
            again = False
            for c in self.cells.values():
                if c.closed is None and self.try_cell(c):
                    out[c.key] = (c.closed, c.how)
                    again = True
        return out

    def merged(self, ts, only=None):
        """value of the path taken"""
        idx = [i for i in range(len(ts)) if only is None or i in only]
        t = ts[idx[-1]]
        for i in reversed(idx[:-1]):
            g = self.hread(self.sub(self.paths[i]["G"]), [])
            if ts[i] is not t:
                t = tm.ite(g, ts[i], t)
        return t

    def try_cell(self, c):
        from vf.symarr import increment, sumsimp
        from vf.poly import poly, padd, term_of
        posts = []
        for p, t in zip(self.paths, c.posts):
            posts.append(self.hread(self.sub(t), self.base + [self.sub(q) for q in p["taken"]]))
        incs = []
        for t in posts:
            if t is c.h:
                incs.append(tm.const(0))
                continue
            inc = increment(c.h, t)
            if inc is None or self.unresolved(inc) or tm.depends(inc, c.h):
                incs = None
                break
            incs.append(inc)
        k, lo = self.k, self.lo
        gs = [self.hread(self.sub(p["G"]), []) for p in self.paths]
        if incs is not None and (all(t is incs[0] for t in incs) or not any(self.unresolved(g) for g in gs)):
            # (the same increment on every path: which path is taken does not matter)
            inc = incs[0] if all(t is incs[0] for t in incs) else self.merged(incs)
            if self.g0 is not tm.TRUE:
                inc = tm.ite(self.g0, inc, tm.const(0))
            init = c.init

            def closed(kk, inc=inc, init=init):
                j = tm.fresh("j", I)
                s = simp.mksum(j, lo, kk, tm.subst(inc, {k: j}))
                return tm.add(init, s)

            def closedk(kk):
                # inside the loop lo <= k: the closed product needs no max()
                if not tm.depends(inc, k):
                    n = tm._normint(tm.add(kk, tm.neg(lo)))
                    if self.X.feasible(tm.lt(kk, lo)) and kk is not k:
                        n = symnp.smax(tm.const(0), n)
                    return tm.add(init, tm.mul(inc, n))
                return closed(kk)
            c.closed, c.how = closedk, "sum"
            self.sigma[c.h] = closedk(k)
            return True
        writers = [i for i, t in enumerate(posts) if t is not c.h]
        if any(self.unresolved(posts[i]) for i in writers) or any(self.unresolved(g) for g in gs):
            return False
        gw = tm.or_(*[gs[i] for i in writers])
        if self.g0 is not tm.TRUE:
            gw = tm.and_(self.g0, gw)
        if gw is not tm.TRUE and simp.entails(self.base[:-1] if self.g0 is not tm.TRUE else self.base, gw):
            gw = tm.TRUE
        val = self.merged(posts, writers)
        init = c.init
        if gw is tm.TRUE:
            def closed(kk):
                return tm.ite(tm.lt(lo, kk), tm.subst(val, {k: tm.add(kk, tm.const(-1))}), init)
        else:
            def closed(kk):
                j = tm.fresh("j", I)
                g = tm.subst(gw, {k: j})
                lastj = tm.last(j, lo, kk, g)
                return tm.ite(tm.exists(j, lo, kk, g), tm.subst(val, {k: lastj}), init)
        c.closed = closed
        self.sigma[c.h] = closed(k)
        return True

    # ---- reads of the memory at the start of the iteration
    def hread(self, t, facts):
        """replace reads of unknown memory that can be resolved now"""
        names = self.fr.hnames
        if not any(s.op == "app" and s.args[0] in names for s in tm.subterms(t)):
            return t

        def f(x, ctx):
            if x.op == "app" and x.args[0] in names:
                return self.resolve_read(x, [q for q in ctx if not self.unresolved(q)])
            return None
        return simp.walk_ctx(t, f, self.base + list(facts))

    def resolve_read(self, x, facts):
        oid = [o for o, n in self.bases.items() if n == x.args[0]][0]
        idx = x.args[1:]
        key = (x.id, tuple(q.id for q in facts))
        if key in self.hmemo:
            return self.hmemo[key]
        if oid in self.inprog:
            return None
        self.inprog.add(oid)
        try:
            return self._resolve_read(x, facts, oid, idx, key)
        finally:
            self.inprog.discard(oid)

    def _resolve_read(self, x, facts, oid, idx, key):
        o, snap = self.fr.saved[oid]
        if any(self.unresolved(i) for i in idx):
            return None
        start = o.read(tuple(idx), (snap[0], snap[1]))
        j = tm.fresh("j", I)
        m = {self.k: j}
        live = []
        ents = self.collected(oid)
        if ents is None:
            return None
        for e in ents:
            if any(self.unresolved(i) for i in e.idx):
                return None
            g = e.guard
            if self.unresolved(g):
                conj = g.args if g.op == "and" else (g,)
                g = tm.and_(*[q for q in conj if not self.unresolved(q)])
                partial = True
            else:
                partial = False
            e1 = e.fresh()
            fs = [tm.le(self.lo, j), tm.lt(j, self.k)]
            if self.g0 is not tm.TRUE:
                fs.append(tm.subst(self.g0, m))
            gg = [tm.subst(q, m) for q in ((e1.guard.args if e1.guard.op == "and" else (e1.guard,))
                                           if not partial else
                                           [q for q in (e1.guard.args if e1.guard.op == "and" else (e1.guard,))
                                            if not self.unresolved(q)])]
            for v, l, h in e1.binders:
                fs += [tm.le(tm.subst(tm._co(l), m), v), tm.lt(v, tm.subst(tm._co(h), m))]
            eqs = [tm.eq(tm.subst(a, m), b) for a, b in zip(e1.idx, idx)]
            if simp.entails(facts + fs + gg + eqs, tm.FALSE, 600):
                continue
            live.append((e, partial))
        if not live:
            self.hmemo[key] = start
            return start
        if any(pt or self.unresolved(e.val) or self.unresolved(e.guard) for e, pt in live):
            return None
        r = start
        for e, _ in self.lift([e for e, _ in live], j, self.k):
            r = e.apply(tuple(idx), r)
        self.hmemo[key] = r
        return r

    def collected(self, oid):
        """entries of one iteration, paths merged (guards and values not closed)"""
        from vf.symarr import Entry
        paths = self.raw[oid]
        out = []
        # paths that store at the same places in the same order are merged
        groups = {}
        order = []
        seqs, apart = {}, []
        for p, es in zip(self.paths, paths):
            seqs[id(p)] = []
            base = self.base + [self.sub(q) for q in p["taken"]]
            G = self.hread(self.sub(p["G"]), [])
            apart.append((G, []))
            for n, e in enumerate(es):
                e = e.map(lambda t: self.hread(self.sub(t), base))
                canon = tuple(i.id for i in e.idx) if not e.binders else None
                key = (canon, e.add, len(e.binders)) if canon is not None else self.alpha(e)
                q = groups.get(key)
                if q is None or any(pp is p for pp, _, _ in q):
                    if q is not None:
                        key = key + (len(order),)
                    groups[key] = q = []
                    order.append(key)
                q.append((p, G, e))
                seqs[id(p)].append(key)
                apart[-1][1].append(e)
        pos = {key: i for i, key in enumerate(order)}
        for p in self.paths:
            src = [pos[key] for key in seqs[id(p)]]
            if src != sorted(src):
                # stores in another order on another path: keep the paths apart
                return [Entry(e.binders, tm.and_(G, e.guard), e.idx, e.val, e.add)
                        for G, es in apart for e in es]
        for key in order:
            q = groups[key]
            if len(q) == 1:
                p, G, e = q[0]
                out.append(Entry(e.binders, tm.and_(G, e.guard), e.idx, e.val, e.add))
                continue
            e0 = q[0][2]
            guard, val = tm.FALSE, None
            for p, G, e in reversed(q):
                if e.binders:
                    m = {v: w for (v, _, _), (w, _, _) in zip(e.binders, e0.binders)}
                    e = Entry(e0.binders, tm.subst(e.guard, m), e0.idx, tm.subst(e.val, m), e.add)
                gg = tm.and_(G, e.guard)
                guard = tm.or_(guard, gg)
                val = e.val if val is None else (val if val is e.val else tm.ite(gg, e.val, val))
            if simp.entails(self.base + [r for v, l, h in e0.binders for r in (tm.le(l, v), tm.lt(v, h))], guard):
                guard = tm.TRUE
            out.append(Entry(e0.binders, guard, e0.idx, val, e0.add))
        return out

    def alpha(self, e):
        d = {}
        cs = []
        for n, (v, lo, hi) in enumerate(e.binders):
            cs.append((tm.subst(tm._co(lo), d).id, tm.subst(tm._co(hi), d).id))
            d[v] = tm.var("alpha%d" % n, I)
        return (tuple(tm.subst(i, d).id for i in e.idx), e.add, tuple(cs))

    def lift(self, es, j, upto):
        """entries of all iterations in [lo, upto), binder j"""
        from vf.symarr import Entry
        m = {self.k: j}
        for e in es:
            e = e.fresh()
            g = tm.and_(self.g0, e.guard)
            e = Entry(((self.k, self.lo, upto),) + e.binders, g, e.idx, e.val, e.add)
            yield e.fresh(), None

    # ---- final
    def resolve(self, unordered=False):
        if not self.closed_pre:
            self.cells_closed()
        else:
            for key, c in self.cells.items():
                if key in self.closed_pre:
                    c.closed, c.how = self.closed_pre[key]
                    self.sigma[c.h] = c.closed(self.k)
            self.cells_closed()
        if unordered and (any(c.how != "sum" for c in self.cells.values())
                          or any(v is True for v in self.hv.values())):
            raise Unsupported("order of a set matters")
        for oid in self.raw:
            for _ in range(3):
                self.hmemo = {}
                es = self.collected(oid)
                if not any(self.unresolved(t) for e in es for t in (e.guard, e.val) + e.idx):
                    break
            for e in es:
                for t in (e.guard, e.val) + e.idx:
                    if self.unresolved(t):
                        raise Unsupported("recurrence in a loop: %s" % tm.show(t, 4)[:160])
            self.commute(oid, es, unordered)
            self.entries[oid] = [e for e, _ in self.lift(es, None, self.hi)]

    def commute(self, oid, es, unordered=False):
        """stores of different iterations through different entries do not meet
        (so that entry order can replace iteration order)"""
        if all(e.add for e in es) or (len(es) < 2 and not unordered):
            return
        j = tm.fresh("j", I)
        m = {self.k: j}
        for a in range(len(es)):
            for b in range(len(es)):
                if (a == b and not unordered) or (es[a].add and es[b].add):
                    continue
                # instance of entry a at iteration j, of a later entry b at iteration k, j > k
                if a > b:
                    continue
                ea, eb = es[a].fresh(), es[b].fresh()
                eqs = [tm.eq(tm.subst(x, m), y) for x, y in zip(ea.idx, eb.idx)]
                if any(q is tm.FALSE for q in eqs):
                    continue
                fs = [tm.lt(self.k, j), tm.lt(j, self.hi), tm.subst(ea.guard, m), eb.guard] + eqs
                if self.g0 is not tm.TRUE:
                    fs.append(tm.subst(self.g0, m))
                for v, l, h in ea.binders:
                    fs += [tm.le(tm.subst(tm._co(l), m), v), tm.lt(v, tm.subst(tm._co(h), m))]
                for v, l, h in eb.binders:
                    fs += [tm.le(l, v), tm.lt(v, h)]
                if ea.val.sort == eb.val.sort and not (ea.add or eb.add) and (
                        tm.eq(tm.subst(ea.val, m), eb.val) is tm.TRUE):
                    continue
                if not simp.entails(self.base + fs, tm.FALSE, 1500):
                    raise Unsupported("stores of different iterations may overlap")

    def close(self, f, facts):
        r = self.hread(self.sub(f), [self.sub(q) for q in facts])
        if self.unresolved(r):
            return tm.var("undetermined", B) if r.sort == B else r
        return r

    def close_fact(self, f):
        r = self.hread(self.sub(f), [])
        return tm.TRUE if self.unresolved(r) else r

    def segments(self, oid):
        from vf.symarr import Seg, map_item
        alts = []
        for p in self.paths:
            items = p["lst"].get(oid, [])
            if not items:
                continue
            base = self.base + [self.sub(q) for q in p["taken"]]
            g = tm.and_(self.g0, self.hread(self.sub(p["G"]), []))
            its = [map_item(x, lambda t: self.hread(self.sub(t), base)) for x in items]
            for t in [g] + terms_in(its):
                if self.unresolved(t):
                    raise Unsupported("list item depends on a recurrence")
            alts.append((g, its))
        k = tm.fresh("k", I)
        m = {self.k: k}
        alts = merge_alts(alts, [tm.le(self.lo, self.k), tm.lt(self.k, self.hi)])
        return [Seg(self.k, self.lo, self.hi, alts).rename(k)]

    def final(self, c):
        return c.closed(self.hi) if c.closed is not None else None

    def last_value(self, name):
        """value of a variable first bound inside the loop"""
        vals = []
        for p in self.paths:
            v = p["loc"].get(name)
            if not scalar(v):
                return None
            vals.append(self.hread(self.sub(tm._co(v)), self.base))
        if self.g0 is not tm.TRUE or any(self.unresolved(v) for v in vals):
            return None
        if not simp.entails(self.X.facts(), tm.lt(self.lo, self.hi)):
            return None
        t = self.merged(vals)
        if self.unresolved(t):
            return None
        return tm.subst(t, {self.k: tm.add(self.hi, tm.const(-1))})


def terms_in(xs):
    out = []
    from vf.symarr import Seg

    def go(x):
        if isinstance(x, T):
            out.append(x)
        elif isinstance(x, Seg):
            go(x.lo)
            go(x.hi)
            for g, ys in x.alts:
                go(g)
                for y in ys:
                    go(y)
        elif isinstance(x, JArr):
            for y in x.raw().flat:
                go(y)
        elif isinstance(x, (list, tuple)):
            for y in (list.__iter__(x) if isinstance(x, list) else x):
                go(y)
    for x in xs:
        go(x)
    return out
