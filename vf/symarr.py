"""Arrays, lists, ranges and sets of symbolic size.

A Buf is memory: a base function of the index plus a history of stores
(Entry).  An SArr is a view of a Buf; results of operations are views of new
Bufs whose base captures the operands' state at that moment, so aliasing and
copies behave as in NumPy.  Reading folds the history:  a store with binders
(a slice store, or a store made by a summarised loop) is solved for its
binders, or becomes a bounded sum / existential when it cannot be."""
import builtins
import itertools
import numbers
import numpy as _n
from vf import terms as tm, symnp
from vf.terms import T, R, I, B, Unsupported
from vf.symnp import JArr, NP, BIN, UN, CMP, cast, promote, kind_of, norm_dtype, wrap

_serial = itertools.count(1)
SORT = {"f": R, "i": I, "b": B, "c": R}


# ------------------------------------------------------------------ facts
def facts():
    from vf import exec as ex
    return ex.CURRENT.facts() if ex.CURRENT is not None else []


def known(f, timeout=400):
    """is f provable here"""
    if f is tm.TRUE or f is True:
        return True
    if f is tm.FALSE or f is False:
        return False
    if f.op == "le" and f.args[0].op == "const" and f.args[0].args[0] <= 0 and nonneg(f.args[1]):
        return True
    from vf import smt
    if smt.BUSY[0]:
        # asked while a query is being built
        return False
    return smt.valid(facts(), f, timeout) == "proved"


def nonneg(t):
    """is t a count: sums, conditionals and products of natural numbers"""
    if t.op == "const":
        return t.args[0] >= 0
    if t.op == "sum":
        return nonneg(t.args[3])
    if t.op == "ite":
        return nonneg(t.args[1]) and nonneg(t.args[2])
    if t.op in ("add", "mul"):
        return all(nonneg(a) for a in t.args if isinstance(a, T))
    return False


def side(f):
    """f must hold for the operation to be defined"""
    if f is tm.TRUE or f is True:
        return
    from vf import exec as ex
    if ex.CURRENT is not None:
        ex.CURRENT.side(f)


def assume(f):
    from vf import exec as ex
    if ex.CURRENT is not None and f is not tm.TRUE:
        ex.CURRENT.assume_fact(f)


# ------------------------------------------------------------------ dims
def dim(x):
    if isinstance(x, T):
        if x.sort != I:
            raise TypeError("'float' object cannot be interpreted as an integer")
        x = tm._normint(x)
        return int(x.args[0]) if x.op == "const" else x
    if isinstance(x, (float, str)) or x is None:
        raise TypeError("'%s' object cannot be interpreted as an integer" % type(x).__name__)
    return int(x)


def issym(d):
    return isinstance(d, T)


def deq(a, b):
    """dimensions equal?  Undecidable here: Unsupported"""
    if not issym(a) and not issym(b):
        return a == b
    f = tm.eq(tm._co(a), tm._co(b))
    if f is tm.TRUE:
        return True
    if f is tm.FALSE:
        return False
    if known(f):
        return True
    if known(tm.not_(f)):
        return False
    if any(x.op in tm.BINDERS for x in tm.subterms(f)):
        from vf import simp
        if simp.Prover(facts(), timeout=500, budget=100).equal(tm._co(a), tm._co(b)):
            return True
        raise Unsupported("sizes given by different counts")
    return bool(f)


def samedim(a, b):
    """dimensions known to be equal (no case split)"""
    if not issym(a) and not issym(b):
        return a == b
    return known(tm.eq(tm._co(a), tm._co(b)))


def prod_dims(ds):
    r = 1
    for d in ds:
        r = r*d if not issym(r) else tm.mul(r, tm._co(d))
    return dim(r) if issym(r) else r


def tt(x):
    return x if isinstance(x, T) else tm.const(x if not isinstance(x, _n.generic) else x.item()) \
        if not isinstance(x, complex) else x


def norm_ix(i, n):
    """index i into a dimension of size n"""
    if isinstance(i, T) and i.op == "const":
        i = dim(i)
    if not isinstance(i, T):
        i = int(i)
        if not issym(n):
            if not -n <= i < n:
                raise IndexError("index %d is out of bounds for axis with size %d" % (i, n))
            return tm.const(i + n if i < 0 else i)
        if i < 0:
            side(tm.le(tm.const(-i), n))
            return tm.add(n, tm.const(i))
        side(tm.lt(tm.const(i), n))
        return tm.const(i)
    n = tm._co(n)
    nonneg = tm.le(tm.const(0), i)
    if known(nonneg):
        side(tm.lt(i, n))
        return i
    if known(tm.lt(i, tm.const(0))):
        side(tm.le(tm.neg(n), i))
        return tm.add(i, n)
    side(tm.and_(tm.le(tm.neg(n), i), tm.lt(i, n)))
    return tm.ite(nonneg, i, tm.add(i, n))


# ---------------------------------------------------------------- memory
class Entry:
    """store  buf[idx] (+)= val  for all values of the binders with guard"""
    __slots__ = ("binders", "guard", "idx", "val", "add")

    def __init__(self, binders, guard, idx, val, add=False):
        self.binders, self.guard, self.idx, self.val, self.add = tuple(binders), guard, tuple(idx), val, add

    def map(self, f):
        return Entry([(v, f(lo), f(hi)) for v, lo, hi in self.binders], f(self.guard),
                     [f(i) for i in self.idx], f(self.val), self.add)

    def fresh(self):
        m, bs = {}, []
        for v, lo, hi in self.binders:
            w = tm.fresh("w", I)
            bs.append((w, tm.subst(lo, m) if m else lo, tm.subst(hi, m) if m else hi))
            m[v] = w
        if not m:
            return self
        s = lambda t: tm.subst(t, m)
        return Entry(bs, s(self.guard), [s(i) for i in self.idx], s(self.val), self.add)

    def apply(self, idx, prev):
        bs, conds, val = self.solve(idx)
        if bs is None:
            return prev
        c = tm.and_(*conds)
        if c is tm.FALSE:
            return prev
        if self.add:
            return tm.add(prev, hide(bs, c, val))
        return overwrite(bs, c, val, prev)

    def hits(self, idx):
        """formula: some instance of the store hits idx"""
        bs, conds, val = self.solve(idx)
        if bs is None:
            return tm.FALSE
        c = tm.and_(*conds)
        for v, lo, hi in reversed(bs):
            c = tm.exists(v, lo, hi, c)
        return c

    def solve(self, idx):
        return solve(self.binders, self.guard, self.idx, self.val, idx)


def hide(bs, c, val):
    """sum over the leftover binders of [c]*val"""
    t = tm.ite(c, val, tm.const(0))
    for v, lo, hi in reversed(bs):
        t = tm.bsum(v, lo, hi, t)
    return t


def overwrite(bs, c, val, prev):
    """the last store (in binder order) wins"""
    if not bs:
        return tm.ite(c, val, prev)
    (v, lo, hi), rest = bs[0], bs[1:]
    inner = c
    for w, l, h in reversed(rest):
        inner = tm.exists(w, l, h, inner)
    ex = tm.exists(v, lo, hi, inner)
    used = tm.depends(tm.ite(c, val, tm.const(0)), v) or any(
        tm.depends(tm._co(x), v) for _, l, h in rest for x in (l, h))
    if not any(tm.depends(val, b[0]) for b in bs):
        return tm.ite(ex, val, prev)
    if not used:
        return tm.ite(tm.lt(lo, hi), overwrite(rest, c, val, prev), prev)
    lv = tm.last(v, lo, hi, inner)
    s = lambda t: tm.subst(tm._co(t), {v: lv})
    body = overwrite([(w, s(l), s(h)) for w, l, h in rest], s(c), s(val), prev)
    return tm.ite(ex, body, prev)


def linear(t, v):
    """(coefficient polynomial, rest polynomial) of t in the variable v, or None"""
    from vf.poly import poly, ATOM
    try:
        p = poly(t)
    except Exception:
        return None
    co, rest = {}, {}
    for m, c in p.items():
        d = dict(m)
        e = d.pop(v.id, 0)
        if e not in (0, 1):
            return None
        if any(x < 0 or tm.depends(ATOM[x], v) for x in d):
            return None
        k = tuple(sorted(d.items()))
        (co if e else rest)[k] = c
    return co, rest


def solve(binders, guard, eidx, val, idx):
    """eliminate binders from eidx == idx.  (leftover binders, conditions, value)"""
    from vf.poly import pconst, term_of, ONE
    bs = [(v, tm._co(lo), tm._co(hi)) for v, lo, hi in binders]
    todo = [(a, b) for a, b in zip(eidx, idx)]
    conds = [guard]

    def sub(m):
        nonlocal todo, conds, val, bs
        s = lambda t: tm.subst(t, m)
        todo = [(s(a), b) for a, b in todo]
        conds = [s(c) for c in conds]
        val = s(val)
        bs = [(v, s(lo), s(hi)) for v, lo, hi in bs]
    again = True
    while again and bs:
        again = False
        for j, (v, lo, hi) in enumerate(bs):
            for q, (a, b) in enumerate(todo):
                if not tm.depends(a, v) or tm.depends(b, v):
                    continue
                lr = linear(a, v)
                if lr is None:
                    continue
                c = pconst(lr[0])
                if c not in (1, -1):
                    continue
                x = tm.add(b, tm.neg(term_of(lr[1], I)))
                x = tm._normint(x if c == 1 else tm.neg(x))
                if tm.depends(x, v) or not _ordered(bs, j, x, lo, hi):
                    continue
                conds += [tm.le(lo, x), tm.lt(x, hi)]
                del bs[j], todo[q]
                sub({v: x})
                again = True
                break
            if again:
                break
        if again:
            continue
        # leftover binder v with  0 <= x - v*m < m  among the conditions
        for j, (v, lo, hi) in enumerate(bs):
            x = _divmod_pattern(conds, v)
            if x is not None:
                q = tm.app("idiv", x, I)
                conds = [c for c in conds]
                conds += [tm.le(lo, q), tm.lt(q, hi), tm.lt(tm.const(0), x[1])]
                del bs[j]
                sub({v: q})
                again = True
                break
    for a, b in todo:
        f = tm.eq(a, b)
        if f is tm.FALSE:
            return None, None, None
        conds.append(f)
    if any(c is tm.FALSE for c in conds):
        return None, None, None
    return bs, conds, val


def _ordered(bs, j, x, lo, hi):
    """binders appearing in the solution x of binder j stay bound outside or
    inside: always fine for sums; for bounds of earlier binders it must not
    depend on later ones"""
    return True


def _divmod_pattern(conds, v):
    from vf.poly import poly, term_of, pconst
    los, his = {}, {}
    for c in conds:
        if c.op == "le" or c.op == "lt":
            a, b = c.args
            if not tm.depends(c, v):
                continue
            if c.op == "le" and a.op == "const" and a.args[0] == 0:
                los[b.id] = b
            if c.op == "lt":
                his[a.id] = (a, b)
    for k, e in los.items():
        if k in his:
            m = his[k][1]
            if tm.depends(m, v):
                continue
            lr = linear(e, v)
            if lr is None:
                continue
            co = term_of(lr[0], I)
            if tm._cmp("eq", tm.neg(co), m) is tm.TRUE:
                return (tm._normint(term_of(lr[1], I)), m)
    return None


class Buf:
    anyorder = False    # the order of the elements in memory is not known

    def __init__(self, shape, kind, base, entries=()):
        self.serial = next(_serial)
        self.shape, self.kind = tuple(shape), kind
        self.state = (base, tuple(entries))
        self.memo = {}

    def snap(self):
        return self.state

    def restore(self, s):
        self.state = s
        self.memo = {}

    def read(self, idx, state=None):
        idx = tuple(tm._normint(tm._co(i)) for i in idx)
        st = self.state if state is None else state
        key = tuple(i.id for i in idx)
        if st is self.state:
            r = self.memo.get(key)
            if r is not None:
                return r
        t = tm._co(st[0](idx)) if not isinstance(st[0](idx), complex) else st[0](idx)
        for e in st[1]:
            t = e.apply(idx, t)
        if st is self.state:
            self.memo[key] = t
        return t

    def write(self, e):
        touch(self)
        self.state = (self.state[0], self.state[1] + (e,))
        self.memo = {}

    def setbase(self, base):
        touch(self)
        self.state = (base, ())
        self.memo = {}


class MaybeCopy(Buf):
    """a reshaped array that may or may not share the memory of its source"""
    def __init__(self, shape, kind, base, src):
        self.src, self.seen = src, src.state
        Buf.__init__(self, shape, kind, base)

    @property
    def state(self):
        if self.src.state is not self.seen:
            raise Unsupported("a reshaped array that may be a copy, read after a write to its source")
        return self._state

    @state.setter
    def state(self, s):
        self._state = s

    def read(self, idx, state=None):
        if state is None:
            return Buf.read(self, idx)
        idx = tuple(tm._normint(tm._co(i)) for i in idx)
        t = tm._co(state[0](idx))
        for e in state[1]:
            t = e.apply(idx, t)
        return t

    def write(self, e):
        raise Unsupported("write to a reshaped array that may be a copy")

    def setbase(self, base):
        raise Unsupported("write to a reshaped array that may be a copy")


def touch(obj):
    from vf import loader
    for fr in loader.LOOPS:
        fr.touch(obj)


def loopvars():
    """iteration variables of the enclosing summarised loops"""
    from vf import loader
    return tuple(fr.k for fr in loader.LOOPS)


def app_base(name, sort):
    return lambda idx: tm.app(name, idx, sort)


# ------------------------------------------------------------------ arrays
class SArr:
    __array_priority__ = 1000.0
    enum = None         # enumeration of a set
    rows = None         # flattened matrix: (state, rows, columns, reader)
    _bag = None         # (state of the buffer, segments, axis, element): the rows as a bag
    _mbag = None        # the same for several axes: (state, {axis: segments}, element(items, index))

    @property
    def bag(self):
        b = self._bag
        return b[1] if b is not None and b[0] is self.buf.state else None

    @bag.setter
    def bag(self, b):
        self._bag = None if b is None else (self.buf.state, b)

    @property
    def mbag(self):
        """({axis: segments}, element({axis: item}, index)), or None"""
        b = self._mbag
        if b is not None and b[0] is self.buf.state:
            return b[1:]
        b = self.bag
        if b is not None and not isinstance(b[0], tuple) and b[1] is not None:
            segs, pos, f = b
            return {pos: segs}, lambda items, idx: f(items[pos], idx)
        return None

    def setbag(self, axes, F):
        if len(axes) == 1:
            (pos, segs), = axes.items()
            nd = self.ndim
            self.bag = (segs, pos, lambda it, idx: F({pos: it}, tuple(idx) if len(idx) else (tm.const(0),)*nd))
        elif axes:
            self._mbag = (self.buf.state, dict(axes), F)

    def __init__(self, buf, shape=None, amap=None):
        self.buf = buf
        self.shape_ = tuple(buf.shape if shape is None else shape)
        self.amap = amap
        self.serial = next(_serial)

    # ---- construction
    @staticmethod
    def make(shape, kind, base):
        """functional array"""
        shape = tuple(dim(d) for d in shape)
        return SArr(Buf(shape, kind, base))

    @staticmethod
    def var(name, shape, kind="f"):
        """input array: an uninterpreted function of the index"""
        return SArr.make(shape, kind, app_base(name, SORT[kind]))

    def __array_ufunc__(self, uf, method, *inputs, out=None, **kw):
        return ufunc(uf.__name__, method, inputs, out, kw)

    def __array_function__(self, func, types, args, kwargs):
        raise Unsupported("numpy function %s on a symbolic array" % func.__name__)

    def at(self, *idx):
        """element (no bounds obligation: for contracts)"""
        return self.buf.read(self.amap(idx) if self.amap else idx)

    def snapshot(self):
        st, amap, buf = self.buf.state, self.amap, self.buf
        return lambda idx: buf.read(amap(idx) if amap else idx, st)

    def inorder(self):
        """is the memory known to be in the order of the indices?"""
        return self.amap is None and (len(self.shape_) < 2 or not self.buf.anyorder)

    # ---- attributes
    @property
    def shape(self):
        return self.shape_

    @property
    def ndim(self):
        return len(self.shape_)

    @property
    def size(self):
        return prod_dims(self.shape_)

    @property
    def vd(self):
        return self.buf.kind

    @property
    def dtype(self):
        return symnp.Dt(self.buf.kind)

    @property
    def T(self):
        return self.transpose()

    @property
    def real(self):
        if self.vd == "c":
            raise Unsupported("real part")
        return self

    @property
    def flat(self):
        return self.flatten()

    @property
    def sym_len(self):
        if not self.shape_ or not issym(self.shape_[0]):
            raise AttributeError("sym_len")
        return self.shape_[0]

    @property
    def sym_iter(self):
        n = self.sym_len
        return lambda: (tm.const(0), n, lambda k: self._row(k), None)

    @property
    def sym_enumerate(self):
        self.sym_len
        return lambda start=0: SEnumer(self, start)

    def _row(self, k):
        return self._basic((("int", k),))

    def slen(self):
        if not self.shape_:
            raise TypeError("len() of unsized object")
        return self.shape_[0]

    def __len__(self):
        if not self.shape_:
            raise TypeError("len() of unsized object")
        if issym(self.shape_[0]):
            raise Unsupported("len() of a symbolic array")
        return self.shape_[0]

    def __iter__(self):
        if not self.shape_:
            raise TypeError("iteration over a 0-d array")
        if issym(self.shape_[0]):
            raise Unsupported("iteration over a symbolic array outside a for loop")
        return iter([self[i] for i in range(self.shape_[0])])

    def __contains__(self, v):
        return bool(quant(self == v, None, "any"))

    def __bool__(self):
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def __repr__(self):
        return "SArr(%s, %s)" % (self.shape_, self.vd)

    __hash__ = None

    def __float__(self):
        raise Unsupported("float() of a symbolic array")

    # ---- indexing
    def __getitem__(self, ix):
        items = norm_index(ix, self.shape_)
        if any(k[0] in ("arr", "mask") for k in items):
            return self._fancy(items)
        return self._basic(items)

    def _region(self, items):
        """basic indexing: (shape, map region index -> view index)"""
        shape, maps = [], []
        d = 0
        for it in items:
            if it[0] == "int":
                maps.append(("int", norm_ix(it[1], self.shape_[d])))
                d += 1
            elif it[0] == "new":
                shape.append(1)
                maps.append(("new",))
            else:
                start, n, step = slice_of(it[1], self.shape_[d])
                shape.append(n)
                maps.append(("sl", start, step))
                d += 1
        for e in range(d, len(self.shape_)):
            shape.append(self.shape_[e])
            maps.append(("sl", tm.const(0), 1))

        def m(idx):
            idx = list(idx)
            out = []
            for q in maps:
                if q[0] == "int":
                    out.append(q[1])
                elif q[0] == "new":
                    idx.pop(0)
                else:
                    i = tm._co(idx.pop(0))
                    out.append(tm.add(q[1], i if q[2] == 1 else tm.mul(tm.const(q[2]), i)))
            return tuple(out)
        return shape, m

    def _basic(self, items):
        shape, m = self._region(items)
        if not shape:
            return self.buf.read(self._to(m(())))
        amap = self.amap
        v = SArr(self.buf, shape, (lambda idx: amap(m(idx))) if amap else m)
        b = self.mbag
        if b is not None:
            at, d, q = {}, 0, 0
            for it in list(items) + [("sl", slice(None))]*(self.ndim - sum(1 for i in items if i[0] != "new")):
                if it[0] == "sl":
                    if it[1] == slice(None) or it[1] == slice(0, None):
                        at[d] = q
                    q += 1
                elif it[0] == "new":
                    q += 1
                    continue
                d += 1
            if all(e in at for e in b[0]):
                v.setbag({at[e]: sg for e, sg in b[0].items()},
                         lambda its, idx: b[1]({e: its[at[e]] for e in b[0]}, m(idx)))
        return v

    def _to(self, idx):
        return self.amap(idx) if self.amap else idx

    def _fancy(self, items):
        shape, m, enum, bag = self._fancy_region(items)
        rd = self.snapshot()
        r = functional(shape, self.vd, lambda idx: rd(m(idx)))
        if bag is not None and isinstance(r, SArr):
            axes, over, at = bag
            own = self.mbag
            if own is None:
                r.setbag(axes, lambda its, idx: rd(over(its, idx)))
            else:
                # the rows of the array itself are a bag
                oaxes, oF = own
                if all(at.get(e) is not None for e in oaxes):
                    pos = {at[e]: e for e in oaxes}
                    r.setbag({**axes, **{at[e]: sg for e, sg in oaxes.items()}},
                             lambda its, idx: oF({e: its[q] for q, e in pos.items()}, over(its, idx)))
        return r

    def _fancy_region(self, items):
        """integer-array indexing: shape, map, set enumeration used, (bag axes, map by items, axis -> region axis)"""
        items = maskpos(items)
        arrs, d, plan = [], 0, []
        for it in items:
            if it[0] == "new":
                plan.append(("new",))
                continue
            n = self.shape_[d]
            if it[0] in ("int", "arr"):
                plan.append(("adv", len(arrs), n))
                arrs.append(it[1])
            else:
                plan.append(("sl",) + slice_of(it[1], n))
            d += 1
        for e in range(d, len(self.shape_)):
            plan.append(("sl", tm.const(0), self.shape_[e], 1))
        bs = broadcast_shapes([() if isinstance(a, (T, int)) else tuple(a.shape) for a in arrs])
        advpos = [i for i, p in enumerate(plan) if p[0] == "adv"]
        contiguous = advpos == list(range(advpos[0], advpos[-1] + 1))
        shape = []
        placed = False
        if not contiguous:
            shape += list(bs)
            placed = True
        at, e = {}, 0       # full slices: axis of the array -> axis of the region
        for i, p in enumerate(plan):
            if p[0] == "adv":
                if not placed:
                    shape += list(bs)
                    placed = True
            elif p[0] == "new":
                shape.append(1)
            else:
                if p[3] == 1 and p[1] is tm.const(0) and samedim(p[2], self.shape_[e]):
                    at[e] = len(shape)
                shape.append(p[2])
            if p[0] != "new":
                e += 1
        nb = len(bs)
        first = 0 if not contiguous else sum(1 for p in plan[:advpos[0]])
        readers = [reader(a, bs) for a in arrs]
        # bounds of the index arrays: one obligation per array
        negs = {p[1] for p in plan if p[0] == "adv" and check_index_array(arrs[p[1]], p[2])}

        def m(idx, over=()):
            idx = list(idx)
            if contiguous:
                lead, bidx = idx[:first], idx[first:first + nb]
                rest = idx[first + nb:]
                seq = lead + rest
            else:
                bidx, seq = idx[:nb], idx[nb:]
            out = []
            for p in plan:
                if p[0] == "adv":
                    i = over[p[1]](bidx) if p[1] in over else readers[p[1]](bidx)
                    out.append(wrapneg(i, p[2], p[1] in negs))
                elif p[0] == "new":
                    seq.pop(0)
                else:
                    i = tm._co(seq.pop(0))
                    out.append(tm.add(p[1], i if p[3] == 1 else tm.mul(tm.const(p[3]), i)))
            return tuple(out)
        enum = bag = None
        special = [i for i, a in enumerate(arrs) if getattr(a, "enum", None) is not None]
        if len(special) == 1 and nb == 1:
            a = arrs[special[0]]
            enum = (a.enum, first, lambda x, idx: m(idx, over={special[0]: lambda bidx: x}),
                    lambda q: readers[special[0]]((q,)))
        axes, parts, bad = {}, {}, False
        for i, a in enumerate(arrs):
            b = a.mbag if isinstance(a, SArr) else None
            if b is None:
                continue
            off = nb - a.ndim
            for e, segs in b[0].items():
                bad = bad or (e + off in axes and axes[e + off] is not segs)
                axes[e + off] = segs
            parts[i] = (b, off)
        if axes:
            # every operand that extends along a bag axis has to be given by its items there
            for i, a in enumerate(arrs):
                if isinstance(a, (T, int)):
                    continue
                off = nb - a.ndim
                mine = {e + off for e in parts[i][0][0]} if i in parts else set()
                for e, n in enumerate(a.shape):
                    if e + off in axes and e + off not in mine and (issym(n) or n != 1):
                        bad = True
        if axes and not bad:
            pos = {q: (first + q if contiguous else q) for q in axes}

            def over(its, idx):
                def one(b, off, a):
                    def g(bidx):
                        own = tuple(tm.const(0) if (not issym(n) and n == 1) else i
                                    for n, i in zip(a.shape, list(bidx)[off:]))
                        return b[1]({e: its[pos[e + off]] for e in b[0]}, own)
                    return g
                return m(idx, over={i: one(b, off, arrs[i]) for i, (b, off) in parts.items()})
            bag = ({pos[q]: segs for q, segs in axes.items()}, over, at)
        elif axes:
            bag = ("mixed", None, at)
        return shape, m, enum, bag

    def __setitem__(self, ix, v):
        items = norm_index(ix, self.shape_)
        enum = None
        inj = True
        if any(k[0] in ("arr", "mask") for k in items):
            shape, m, enum, bag = self._fancy_region(items)
            inj = False
        else:
            shape, m = self._region(items)
            bag = None
        self._store([dim(s) for s in shape], m, v, inj, enum, bag)

    def _store(self, shape, m, v, inj=True, enum=None, bag=None, add=False):
        k = self.vd
        if not isinstance(v, SArr):
            if hasattr(v, "sym_len"):
                v = array(v, None)
            elif isinstance(v, (list, tuple, range, _n.ndarray)) and not isinstance(v, JArr):
                v = NP.asarray(v)
        if isinstance(v, (JArr, SArr)):
            if v.vd == "c" and k != "c":
                raise Unsupported("complex stored in a real array")
            vs = tuple(v.shape)
            if len(vs) > len(shape):
                if any(issym(x) or x != 1 for x in vs[:len(vs) - len(shape)]):
                    raise ValueError("could not broadcast input array from shape %s into shape %s" % (vs, shape))
                v = v.reshape(vs[len(vs) - len(shape):])
                vs = tuple(v.shape)
            off = len(shape) - len(vs)
            for a, b in zip(vs, shape[off:]):
                if not (not issym(a) and a == 1) and not deq(a, b):
                    raise ValueError("could not broadcast input array from shape %s into shape %s" % (
                        tuple(map(str, vs)), tuple(map(str, shape))))
            rv = v.snapshot() if isinstance(v, SArr) else jreader(v)

            def rd(idx):
                return rv(tuple(tm.const(0) if (not issym(a) and a == 1) else i
                                for a, i in zip(vs, idx[off:])))
        else:
            if isinstance(v, (str, dict)) or v is None:
                raise TypeError("float() argument must be a number")
            sv = v
            off = 0

            def rd(idx):
                return sv
        if bag is not None:
            return self._store_bag(shape, bag, v, rd, off, add)
        stores = []
        symd = [i for i, d in enumerate(shape) if issym(d)]
        cons = [range(d) if not issym(d) else (None,) for d in shape]
        for cidx in itertools.product(*cons):
            binders, guard, idx = [], tm.TRUE, []
            from vf import exec as ex
            nside = len(ex.CURRENT.sides) if ex.CURRENT is not None else 0
            for i, d in enumerate(shape):
                if issym(d):
                    b = tm.fresh("s", I)
                    if enum is not None and i == enum[1]:
                        lo, hi = self._universe(enum)
                        binders.append((b, lo, hi))
                        guard = tm.and_(guard, enum[0].member(b))
                    else:
                        binders.append((b, tm.const(0), d))
                    idx.append(b)
                else:
                    idx.append(tm.const(cidx[i]))
            if enum is not None:
                x = idx[enum[1]]
                pos = list(idx)
                if not isinstance(v, (JArr, SArr)) or self._noenum(v, shape, enum):
                    val = rd(tuple(pos))
                else:
                    # the position enters through the element enumerated there only
                    pos[enum[1]] = q = tm.fresh("q", I)
                    val, el = rd(tuple(pos)), enum[3](q)

                    def at(t):
                        t = tm.replace(t, el, x) if isinstance(t, T) else t
                        if isinstance(t, T) and tm.depends(t, q):
                            raise Unsupported("array stored through an enumeration of a set")
                        return t
                    val = at(val)
                    if ex.CURRENT is not None:
                        ex.CURRENT.sides[nside:] = [(at(f), t, [at(g) for g in lf])
                                                    for f, t, lf in ex.CURRENT.sides[nside:]]
                tgt = enum[2](x, idx)
            else:
                val, tgt = rd(tuple(idx)), m(tuple(idx))
            if binders and ex.CURRENT is not None:
                # definedness of the stored value: for the elements stored only
                rg = [q for b, lo, hi in binders for q in (tm.le(tm._co(lo), b), tm.lt(b, tm._co(hi)))] + [guard]
                ex.CURRENT.sides[nside:] = [(f, t, list(lf) + rg) for f, t, lf in ex.CURRENT.sides[nside:]]
            tgt = tuple(tm._normint(tm._co(t)) for t in self._to(tgt))
            if isinstance(val, complex):
                if k != "c":
                    raise Unsupported("complex stored in a real array")
                if val.imag == 0:
                    val = tm.const(val.real)
                else:
                    raise Unsupported("complex constant stored")
            val = cast(val, k)
            stores.append((binders, guard, tgt, val))
        for binders, guard, tgt, val in stores:
            if add:
                self.buf.write(Entry(binders, guard, tgt, val, True))
                continue
            # x[i] = x[i]: nothing changes
            cur = self.buf.read(tgt)
            if cur is val:
                continue
            inc = increment(cur, val)
            if inc is None and not binders and cur.op == "app" and any(
                    x.op == "app" and x.args[0] == cur.args[0] and any(y.op == "ite" for y in tm.subterms(x))
                    for x in tm.subterms(val)):
                # read before the conditions that hold here were known
                from vf import simp
                v2 = simp.walk_ctx(val, lambda x, ctx: None, facts(), prune=True)
                if v2 is cur:
                    continue
                inc = increment(cur, v2)
            if inc is not None and (inj or not binders):
                e = Entry(binders, guard, tgt, inc, True)
            else:
                e = Entry(binders, guard, tgt, val)
            self.buf.write(e)

    def _store_bag(self, shape, bag, v, rd, off, add):
        """store to the positions selected by conditions: one entry per item"""
        axes, over, _ = bag
        if axes == "mixed":
            raise Unsupported("store through selected and other positions at once")
        from vf import exec as ex
        vb = None
        if isinstance(v, (SArr, JArr)):
            vs = tuple(v.shape)
            along = [q for q in axes if q - off >= 0 and (issym(vs[q - off]) or vs[q - off] != 1)]
            if along:
                b = v.mbag if isinstance(v, SArr) else None
                if b is not None and {e + off: id(sg) for e, sg in b[0].items()} == {q: id(axes[q]) for q in along}:
                    vb = b[1]
                elif len(axes) != 1:
                    raise Unsupported("array stored at selected positions")
        else:
            along = []
        cons = [range(d) if i not in axes and not issym(d) else (None,) for i, d in enumerate(shape)]
        order = sorted(axes)
        entries = []
        if along and vb is None and len(axes) != 1:
            raise Unsupported("array stored at selected positions")
        for combo in itertools.product(*[list(ranked(axes[q])) for q in order]):
            for cidx in itertools.product(*cons):
                binders, guard, its, idx = [], tm.TRUE, {}, [None]*len(shape)
                ranks = {}
                for q, (bs, g, it, rk) in zip(order, combo):
                    bs, g, (it, ranks[q]) = freshen(bs, g, [it, rk])
                    binders += list(bs)
                    guard = tm.and_(guard, g)
                    its[q] = it
                    idx[q] = tm.const(0)
                nside = len(ex.CURRENT.sides) if ex.CURRENT is not None else 0
                for i, d in enumerate(shape):
                    if i in axes:
                        continue
                    if issym(d):
                        b = tm.fresh("s", I)
                        binders.append((b, tm.const(0), d))
                        idx[i] = b
                    else:
                        idx[i] = tm.const(cidx[i])
                if vb is not None:
                    val = vb({q - off: its[q] for q in along}, tuple(idx[off:]))
                elif along:
                    vidx = list(idx)
                    for q in along:
                        vidx[q] = ranks[q]
                    val = rd(tuple(vidx))
                else:
                    val = rd(tuple(idx))
                tgt = over(its, tuple(idx))
                if binders and ex.CURRENT is not None:
                    rg = [q for b, lo, hi in binders for q in (tm.le(tm._co(lo), b), tm.lt(b, tm._co(hi)))] + [guard]
                    ex.CURRENT.sides[nside:] = [(f, t, list(lf) + rg) for f, t, lf in ex.CURRENT.sides[nside:]]
                tgt = tuple(tm._normint(tm._co(t)) for t in self._to(tgt))
                if isinstance(val, complex):
                    raise Unsupported("complex constant stored")
                entries.append(Entry(binders, guard, tgt, cast(val, self.vd), add))
        for e in entries:
            self.buf.write(e)

    def _noenum(self, v, shape, enum):
        vs = tuple(v.shape)
        i = enum[1] - (len(shape) - len(vs))
        return i < 0 or (not issym(vs[i]) and vs[i] == 1)

    def _universe(self, enum):
        s = enum[0]
        if s.lo is not None:
            return s.lo, s.hi
        raise Unsupported("set without a known range")

    # ---- shape changes
    def transpose(self, *axes):
        n = self.ndim
        if axes and len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        axes = tuple(int(a) % n for a in axes) if axes else tuple(reversed(range(n)))
        amap = self.amap

        def m(idx):
            out = [None]*n
            for i, a in zip(idx, axes):
                out[a] = i
            return amap(tuple(out)) if amap else tuple(out)
        r = SArr(self.buf, [self.shape_[a] for a in axes], m)
        b = self.mbag
        if b is not None:
            at = {e: axes.index(e) for e in b[0]}

            def back(idx):
                out = [None]*n
                for i, a in zip(idx, axes):
                    out[a] = i
                return tuple(out)
            r.setbag({at[e]: sg for e, sg in b[0].items()},
                     lambda its, idx: b[1]({e: its[at[e]] for e in at}, back(idx)))
        return r

    def cumsum(self, axis=None, dtype=None):
        return NP.cumsum(self, axis, dtype)

    def swapaxes(self, a, b):
        p = list(range(self.ndim))
        p[a], p[b] = p[b], p[a]
        return self.transpose(*p)

    def reshape(self, *shape, order="C"):
        if order == "F":
            if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
                shape = tuple(shape[0])
            return self.ravel("F").reshape(*reversed(shape)).transpose()
        if order not in ("C", "A"):
            raise Unsupported("reshape order")
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        shape = [dim(s) for s in shape]
        total = self.size
        if any(not issym(s) and s == -1 for s in shape):
            j = [i for i, s in enumerate(shape) if not issym(s) and s == -1][0]
            others = prod_dims(shape[:j] + shape[j + 1:])
            if not issym(others) and others == 1:
                shape[j] = total
            elif not issym(total) and not issym(others):
                if total % others:
                    raise ValueError("cannot reshape")
                shape[j] = total//others
            else:
                q = divide_dims(self.shape_, shape[:j] + shape[j + 1:])
                if q is None:
                    q = dim(tm.idiv(tm._co(total), tm._co(others)))
                shape[j] = q
        if not deq(prod_dims(shape), total):
            raise ValueError("cannot reshape array of size %s into shape %s" % (total, shape))
        src = self.shape_
        m = reshape_map(src, shape)
        amap = self.amap
        if self.inorder() or [d for d in src if issym(d) or d != 1] == [d for d in shape if issym(d) or d != 1]:
            r = SArr(self.buf, shape, (lambda idx: amap(m(idx))) if amap else m)
        else:
            # NumPy copies or not, depending on the strides
            rd = self.snapshot()
            r = SArr(MaybeCopy(shape, self.vd, lambda idx: rd(m(idx)), self.buf))
        b = self.mbag
        if b is not None:
            # only unit axes come or go
            old = [i for i, d in enumerate(src) if issym(d) or d != 1]
            new = [i for i, d in enumerate(shape) if issym(d) or d != 1]
            if len(old) == len(new) and all(samedim(src[i], shape[j]) for i, j in zip(old, new)) and \
                    all(e in old for e in b[0]):
                at = dict(zip(old, new))

                def back(idx):
                    out = [tm.const(0)]*len(src)
                    for i, j in at.items():
                        out[i] = idx[j]
                    return tuple(out)
                r.setbag({at[e]: sg for e, sg in b[0].items()},
                         lambda its, idx: b[1]({e: its[at[e]] for e in b[0]}, back(idx)))
        return r

    def flatten(self, order="C"):
        if order == "F" and self.ndim > 1:
            return self.transpose().flatten()
        r = functional_copy(self.reshape(-1)) if self.ndim != 1 else self.copy()
        if self.ndim == 2 and isinstance(r, SArr):
            r.rows = (r.buf.state, self.shape_[0], self.shape_[1], self.snapshot())
        if self.bag is not None and isinstance(r, SArr):
            segs, pos, f = self.bag
            if pos == 0 and all(not issym(d) for d in self.shape_[1:]):
                if self.ndim == 1:
                    r.bag = self.bag
                else:
                    r.bag = (("flat", segs, [range(d) for d in self.shape_[1:]], f), None, None)
        elif self.mbag is not None and isinstance(r, SArr):
            # the elements in order: the segments of the axes nested
            axes, F = self.mbag
            if all(issym(d) and e in axes or e in axes or not issym(d) for e, d in enumerate(self.shape_)):
                def nest(e, its, idx):
                    if e == self.ndim:
                        return [F(its, tuple(idx))]
                    if e not in axes:
                        return [x for i in range(self.shape_[e]) for x in nest(e + 1, its, idx + [tm.const(i)])]
                    return bind_segs(axes[e], lambda it: nest(e + 1, {**its, e: it}, idx + [tm.const(0)]))
                segs = nest(0, {}, [])
                r.bag = (segs, 0, lambda it, idx: it)
        return r

    def ravel(self, order="C"):
        if order == "F" and self.ndim > 1:
            return self.transpose().ravel()
        if self.bag is not None or self.mbag is not None:
            return self.flatten()
        r = self.reshape(-1)
        if self.ndim == 2 and r.rows is None:
            r.rows = (r.buf.state, self.shape_[0], self.shape_[1], self.snapshot())
        return r

    def squeeze(self, axis=None):
        if axis is None:
            keep = [i for i, d in enumerate(self.shape_) if not deq(d, 1)]
        else:
            drop = {int(x) % self.ndim for x in (axis if isinstance(axis, (tuple, list)) else (axis,))}
            if not all(deq(self.shape_[i], 1) for i in drop):
                raise ValueError("cannot select an axis to squeeze out which has size not equal to one")
            keep = [i for i in range(self.ndim) if i not in drop]
        amap = self.amap
        n = self.ndim

        def m(idx):
            out = [tm.const(0)]*n
            for i, k in zip(idx, keep):
                out[k] = i
            return amap(tuple(out)) if amap else tuple(out)
        return SArr(self.buf, [self.shape_[i] for i in keep], m)

    def copy(self, order="C"):
        r = functional_copy(self)
        if isinstance(r, SArr):
            b, mb = self.bag, self.mbag
            r.bag, r.enum = b, self.enum
            if b is None and mb is not None:
                r.setbag(*mb)
        return r

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, d, copy=True, **kw):
        k = norm_dtype(d)
        if not copy and k == self.vd:
            return self
        rd = self.snapshot()
        r = functional(self.shape_, k, lambda idx: cast(rd(idx), k))
        if isinstance(r, SArr):
            sameorder(r, self)
            if k == self.vd:
                r.bag, r.enum = self.bag, self.enum
            b = self.mbag
            if b is not None and r.bag is None:
                r.setbag(b[0], lambda its, idx: cast(b[1](its, idx), k))
        return r

    def tolist(self):
        if self.ndim == 1:
            return VList.ofarr(self)
        raise Unsupported("tolist of a matrix")

    @property
    def to_vlist(self):
        return lambda: VList.ofarr(self)

    def fill(self, v):
        self[...] = v

    def item(self, *a):
        raise Unsupported("item()")

    # ---- reductions and products
    def sum(self, axis=None, *a, **kw):
        return NP.sum(self, axis, *a, **kw)

    def mean(self, axis=None, *a, **kw):
        return NP.mean(self, axis, *a, **kw)

    def max(self, axis=None, *a, **kw):
        return NP.max(self, axis, *a, **kw)

    def min(self, axis=None, *a, **kw):
        return NP.min(self, axis, *a, **kw)

    def any(self, axis=None, *a, **kw):
        return NP.any(self, axis, *a, **kw)

    def all(self, axis=None, *a, **kw):
        return NP.all(self, axis, *a, **kw)

    def dot(self, o):
        return matmul(self, o)

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    def conj(self):
        if self.vd == "c":
            raise Unsupported("conjugate of complex")
        return self.copy()

    conjugate = conj

    def __getattr__(self, k):
        if k.startswith("__") or k in ("sym_len", "sym_iter", "sym_enumerate", "sym_reversed"):
            raise AttributeError(k)
        raise Unsupported("ndarray.%s of a symbolic array" % k)


def total_items(segs):
    """number of items"""
    n = tm.const(0)
    for s in segs:
        if isinstance(s, Seg):
            per = tm.const(0)
            for g, xs in s.alts:
                per = tm.add(per, tm.ite(g, total_items(xs), tm.const(0)))
            n = tm.add(n, sumsimp(s.v, s.lo, s.hi, per))
        else:
            n = tm.add(n, tm.const(1))
    return n


def ranked(segs, bs=(), g=tm.TRUE, before=None):
    """all items: (binders, guard, item, number of items before it)"""
    before = tm.const(0) if before is None else before
    for s in segs:
        if isinstance(s, Seg):
            per = tm.const(0)
            for ga, xs in s.alts:
                per = tm.add(per, tm.ite(ga, total_items(xs), tm.const(0)))
            w = tm.fresh("w", I)
            acc = tm.add(before, sumsimp(w, s.lo, s.v, tm.subst(per, {s.v: w})))
            for ga, xs in s.alts:
                yield from ranked(xs, tuple(bs) + ((s.v, s.lo, s.hi),), tm.and_(g, ga), acc)
                acc = tm.add(acc, tm.ite(ga, total_items(xs), tm.const(0)))
            before = tm.add(before, sumsimp(s.v, s.lo, s.hi, per))
        else:
            yield tuple(bs), g, s, before
            before = tm.add(before, tm.const(1))


_WHERE = {}


def selection(c):
    """segments of the positions of the true elements of a boolean array (the same object for the same array)"""
    nd = c.ndim
    if isinstance(c, JArr):
        g = [symnp._bo(x) for x in c.raw().flat]
        key = (tuple(c.shape), tuple(g))
        r = _WHERE.get(key)
        if r is None:
            r = []
            for ix, b in zip(_n.ndindex(*c.shape), g):
                it = tuple(tm.const(i) for i in ix)
                it = it[0] if nd == 1 else it
                if b is tm.TRUE:
                    r.append(it)
                elif b is not tm.FALSE:
                    r.append(Seg(tm.fresh("w", I), tm.const(0), tm.const(1), [(b, [it])]))
            _WHERE[key] = r
        return r
    ks = [tm.fresh("q", I) for _ in range(nd)]
    g = symnp._bo(c.at(*ks))
    can = [tm.var("select!%d!%d" % (nd, i), I) for i in range(nd)]
    if any(tm.depends(g, x) for x in can):
        raise Unsupported("nested selection")
    key = (tuple(tm._co(d) for d in c.shape_), tm.subst(g, dict(zip(ks, can))))
    r = _WHERE.get(key)
    if r is None:
        last = issym(c.shape_[-1])

        def nest(i, m, pos):
            if i == nd:
                it = pos[0] if nd == 1 else tuple(pos)
                gi = tm.subst(g, m)
                if last or gi is tm.TRUE:
                    return [it]
                if gi is tm.FALSE:
                    return []
                return [Seg(tm.fresh("w", I), tm.const(0), tm.const(1), [(gi, [it])])]
            d = c.shape_[i]
            if issym(d):
                gi = tm.subst(g, m) if i == nd - 1 else tm.TRUE
                return [Seg(ks[i], tm.const(0), tm._co(d), [(gi, nest(i + 1, m, pos + [ks[i]]))])]
            return [y for e in range(d) for y in nest(i + 1, {**m, ks[i]: tm.const(e)}, pos + [tm.const(e)])]
        r = nest(0, {}, [])
        _WHERE[key] = r
    return r


def maskpos(items):
    """masks replaced by the index arrays of their true elements"""
    out = []
    for it in items:
        if it[0] == "mask":
            out += [("arr", a) for a in where_(it[1])]
        else:
            out.append(it)
    return out


def where_(c):
    c = lower(c)
    segs = selection(c)
    if c.ndim == 1:
        return (segs_array(segs, int),)
    n = tm.const(0)
    for bs, g, _ in walk(segs):
        n = tm.add(n, count(bs, g))
    n = dim(n)
    out = []
    for i in range(c.ndim):
        nm = "select#%d" % next(_serial)
        ks = loopvars()
        r = SArr.make((n,), "i", lambda idx, nm=nm: tm.app(nm, ks + tuple(idx), I))
        r.setbag({0: segs}, lambda its, idx, i=i: its[0][i])
        out.append(r)
    return tuple(out)


def _op(name, refl=False):
    def f(self, o):
        if isinstance(o, (str, type(None), dict)):
            return NotImplemented
        return ufunc(name, "__call__", (o, self) if refl else (self, o), None, {})
    return f


def _iop(name):
    def f(self, o):
        ufunc(name, "__call__", (self, o), (self,), {})
        return self
    return f


for _s, _u in (("add", "add"), ("sub", "subtract"), ("mul", "multiply"), ("truediv", "true_divide"),
               ("floordiv", "floor_divide"), ("mod", "remainder"), ("pow", "power"),
               ("and", "bitwise_and"), ("or", "bitwise_or")):
    setattr(SArr, "__%s__" % _s, _op(_u))
    setattr(SArr, "__r%s__" % _s, _op(_u, True))
    setattr(SArr, "__i%s__" % _s, _iop(_u))
for _s, _u in (("lt", "less"), ("le", "less_equal"), ("gt", "greater"), ("ge", "greater_equal"),
               ("eq", "equal"), ("ne", "not_equal")):
    setattr(SArr, "__%s__" % _s, _op(_u))
SArr.__hash__ = None
SArr.__neg__ = lambda self: ufunc("negative", "__call__", (self,), None, {})
SArr.__pos__ = lambda self: self
SArr.__abs__ = lambda self: ufunc("absolute", "__call__", (self,), None, {})
SArr.__invert__ = lambda self: ufunc("invert", "__call__", (self,), None, {})


def increment(cur, val):
    """inc when val is cur + inc with inc independent of cur's value"""
    if val.op == "add" and cur.op != "const":
        a, b = val.args
        if a is cur:
            return b
        if b is cur:
            return a
    from vf.poly import poly, padd, term_of, TooBig
    if cur.op in ("const",):
        return None
    try:
        pc = poly(cur)
        pv = poly(val)
    except TooBig:
        return None
    if not pc or not all(pv.get(m) == c for m, c in pc.items()):
        return None
    d = padd(pv, pc, -1)
    return term_of(d, I if cur.sort == I and val.sort == I else R)


def wrapneg(i, n, neg):
    """position an index stands for (neg: it may be negative)"""
    i = tm._co(i)
    if i.op == "const":
        return i if i.args[0] >= 0 else tm.add(tm._co(n), i)
    return tm.ite(tm.lt(i, tm.const(0)), tm.add(tm._co(n), i), i) if neg else i


def may_be_negative(x, given=()):
    from vf import smt
    return not smt.BUSY[0] and not (x.op == "const" or nonneg(x)) and \
        smt.check(facts() + list(given) + [tm.lt(x, tm.const(0))], 400)[0] == "sat"


def check_index_array(a, n):
    """obligation that the entries are indices of a dimension n; true when they may be negative"""
    n = tm._co(n)
    if isinstance(a, (T, int)):
        a = tm._co(a)
        neg = may_be_negative(a)
        side(tm.and_(tm.le(tm.neg(n) if neg else tm.const(0), a), tm.lt(a, n)))
        return neg
    if isinstance(a, JArr):
        low = tm.const(0)
        neg = any(may_be_negative(tm._co(x)) for x in a.raw().flat)
        if neg:
            low = tm.neg(n)
        for x in a.raw().flat:
            x = tm._co(x)
            if x.op == "const" and n.op == "const":
                if not -n.args[0] <= x.args[0] < n.args[0]:
                    raise IndexError("index out of bounds")
                continue
            side(tm.and_(tm.le(low, x), tm.lt(x, n)))
        return neg
    if a.enum is not None:
        x = tm.fresh("x", I)
        s = a.enum
        if s.lo is not None:
            side_forall([(x, s.lo, s.hi)], s.member(x), tm.and_(tm.le(tm.const(0), x), tm.lt(x, n)))
        else:
            raise Unsupported("index set without a known range")
        return False
    if a.bag is not None and a.bag[1] is not None:
        segs, pos, f = a.bag
        for bs, g, item in walk(segs):
            x = f(item, ())
            side_forall(bs, g, tm.and_(tm.le(tm.const(0), x), tm.lt(x, n)))
        return False
    bs = [(tm.fresh("p", I), tm.const(0), tm._co(d)) for d in a.shape]
    x = a.at(*[b[0] for b in bs])
    neg = may_be_negative(x, [q for v, lo, hi in bs for q in (tm.le(lo, v), tm.lt(v, hi))])
    side_forall(bs, tm.TRUE, tm.and_(tm.le(tm.neg(n) if neg else tm.const(0), x), tm.lt(x, n)))
    return neg


def side_forall(bs, guard, goal):
    """obligation for all values of the (fresh) binders"""
    h = [guard]
    for v, lo, hi in bs:
        h += [tm.le(lo, v), tm.lt(v, hi)]
    side(tm.implies(tm.and_(*h), goal))


def norm_index(ix, shape):
    ix = ix if isinstance(ix, tuple) else (ix,)
    nd = len(shape)
    used = sum(1 for i in ix if i is not None and i is not Ellipsis)
    out = []
    for i in ix:
        if i is Ellipsis:
            out += [("sl", slice(None))]*(nd - used)
        elif i is None:
            out.append(("new",))
        elif isinstance(i, slice):
            out.append(("sl", i))
        elif isinstance(i, bool) or isinstance(i, _n.bool_):
            raise Unsupported("boolean index")
        elif isinstance(i, T):
            if i.sort == R:
                raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer "
                                 "or boolean arrays are valid indices")
            if i.sort == B:
                raise Unsupported("boolean index")
            out.append(("int", i))
        elif isinstance(i, (int, _n.integer)):
            out.append(("int", int(i)))
        elif isinstance(i, float):
            raise IndexError("only integers, slices (`:`) ... are valid indices")
        else:
            if not isinstance(i, SArr):
                if getattr(i, "sym_len", None) is not None or hasattr(i, "sym_len"):
                    i = array(i, None)
                else:
                    i = NP.asarray(i) if not (isinstance(i, list) and not i) else NP.array([], dtype=int)
            if i.vd == "b":
                if isinstance(i, JArr) and all(x.op in ("true", "false") for x in map(tm._co, i.raw().flat)):
                    i = NP.array([int(q) for q in _n.nonzero([x is tm.TRUE for x in map(tm._co, i.raw().flat)])[0]],
                                 dtype=int)
                else:
                    out.append(("mask", i))
                    continue
            if i.vd not in "i":
                raise IndexError("arrays used as indices must be of integer (or boolean) type")
            if i.ndim == 0:
                out.append(("int", tm._co(i.raw()[()])))
            else:
                out.append(("arr", i))
    if used > nd:
        raise IndexError("too many indices for array: array is %d-dimensional, but %d were indexed" % (nd, used))
    return out


def slice_of(s, n):
    """(start, length, step) of a slice on a dimension n"""
    step = 1 if s.step is None else dim(s.step)
    if issym(step) or step == 0:
        raise Unsupported("symbolic slice step")

    def const_or(x):
        if x is None:
            return None
        x = dim(x)
        return x
    a, b = const_or(s.start), const_or(s.stop)
    if not issym(n) and not issym(a) and not issym(b):
        r = range(n)[slice(a, b, step)]
        return tm.const(r.start), len(r), step
    if step != 1:
        if step == -1 and a is None and b is None:
            return tm.add(tm._co(n), tm.const(-1)), n, -1
        if step > 1 and b is None and (a is None or (not issym(a) and 0 <= a < step)):
            a = a or 0
            return tm.const(a), dim(tm.idiv(tm.add(tm._co(n), tm.const(step - 1 - a)), tm.const(step))), step
        raise Unsupported("strided slice of a symbolic dimension")
    nn = tm._co(n)

    def place(x, default):
        if x is None:
            return default
        t = tm._co(x)
        if not issym(x):
            if x < 0:
                y = tm.add(nn, t)
                return y if known(tm.le(tm.const(0), y)) else symnp.smax(tm.const(0), y)
            return t if known(tm.le(t, nn)) else symnp.smin(t, nn)
        if known(tm.and_(tm.le(tm.const(0), t), tm.le(t, nn))):
            return t
        raise Unsupported("slice bound that may lie outside the dimension")
    lo, hi = place(a, tm.const(0)), place(b, nn)
    ln = tm.add(hi, tm.neg(lo))
    ln = tm._normint(ln)
    if not known(tm.le(tm.const(0), ln)):
        ln = symnp.smax(tm.const(0), ln)
    return lo, dim(ln), 1


def reader(a, bs):
    """reader of an index operand under broadcasting to bs"""
    if isinstance(a, (T, int)):
        t = tm._co(a)
        return lambda bidx: t
    sh = tuple(a.shape)
    off = len(bs) - len(sh)
    rd = a.snapshot() if isinstance(a, SArr) else jreader(a)
    return lambda bidx: rd(tuple(tm.const(0) if (not issym(d) and d == 1) else i for d, i in zip(sh, bidx[off:])))


def jreader(a):
    """element of a concrete array at a (possibly symbolic) index"""
    raw = a.raw()

    def rd(idx):
        def go(sub, rest):
            if not rest:
                return sub if not isinstance(sub, _n.ndarray) else sub[()]
            i = tm._co(rest[0])
            if i.op == "const" and 0 <= int(i.args[0]) < sub.shape[0]:
                return go(sub[int(i.args[0])], rest[1:])
            r = None
            for k in reversed(range(sub.shape[0])):
                v = go(sub[k], rest[1:])
                r = v if r is None else tm.ite(tm.eq(i, tm.const(k)), tm._co(v), tm._co(r))
            if r is None:
                raise Unsupported("element of an empty array")
            return r
        return go(raw, list(idx))
    return rd


def broadcast_shapes(shapes):
    n = max((len(s) for s in shapes), default=0)
    out = [1]*n
    for s in shapes:
        for i, d in enumerate(s, n - len(s)):
            if not issym(d) and d == 1:
                continue
            if not issym(out[i]) and out[i] == 1:
                out[i] = d
            elif not deq(out[i], d):
                if any(issym(x) and deq(x, 1) for x in (out[i], d)):
                    raise Unsupported("broadcasting an axis of symbolic length one")
                raise ValueError("operands could not be broadcast together with shapes %s" % (shapes,))
    return tuple(out)


def divide_dims(src, den):
    """src product / den product when den's factors appear among src's"""
    src = list(src)
    for d in den:
        hit = [i for i, s in enumerate(src) if (issym(s) and issym(d) and s is d) or (not issym(s) and not issym(d) and s == d)]
        if not hit:
            if not issym(d) and d == 1:
                continue
            return None
        del src[hit[0]]
    return prod_dims(src)


def reshape_map(src, dst):
    """index of dst -> index of src, both in C order"""
    def m(idx):
        idx = [tm._co(i) for i in idx]
        # strip equal leading dimensions
        s, d = list(src), list(dst)
        lead = []
        while s and d and _same(s[0], d[0]):
            lead.append(idx[len(lead)])
            s.pop(0)
            d.pop(0)
        rest = idx[len(lead):]
        tail = []
        while s and d and _same(s[-1], d[-1]):
            tail.insert(0, rest.pop())
            s.pop()
            d.pop()
        if not s and not d:
            return tuple(lead + tail)
        lin = tm.const(0)
        for i, n in zip(rest, d):
            lin = tm.add(tm.mul(lin, tm._co(n)), i)
        out = []
        for j in reversed(range(len(s))):
            if j == 0:
                out.insert(0, lin)
            else:
                n = tm._co(s[j])
                if n.op == "const" and n.args[0] == 1:
                    out.insert(0, tm.const(0))
                    continue
                q, r = split(lin, n)
                out.insert(0, r)
                lin = q
        if not s:
            return tuple(lead + tail)
        return tuple(lead + out + tail)
    return m


def split(lin, n, kn=known):
    """quotient and remainder of lin by n, simplified when lin = a*n + b with 0 <= b < n"""
    from vf.poly import poly, term_of, ATOM
    lin = tm._normint(lin)
    if lin.op == "const" and n.op == "const":
        return tm.idiv(lin, n), tm.imod(lin, n)
    p, pn = poly(lin), poly(n)
    if len(pn) == 1:
        (mn, cn), = pn.items()
        a, b = {}, {}
        for m, c in p.items():
            q = _divmono(m, mn)
            if q is not None and (c/cn).denominator == 1:
                a[q] = c/cn
            else:
                b[m] = c
        ta, tb = term_of(a, I), term_of(b, I)
        f = tm.and_(tm.le(tm.const(0), tb), tm.lt(tb, n))
        if kn(f):
            return ta, tb
    return tm.app("idiv", (lin, n), I), tm.app("imod", (lin, n), I)


def quotient(n, m):
    """n/m when it is a polynomial"""
    from vf.poly import poly, term_of
    p, pm = poly(tm._normint(tm._co(n))), poly(tm._normint(m))
    if len(pm) != 1:
        return None
    (mn, cn), = pm.items()
    a = {}
    for mo, c in p.items():
        q = _divmono(mo, mn)
        if q is None or (c/cn).denominator != 1:
            return None
        a[q] = c/cn
    return term_of(a, I)


def _split_hook(a, b):
    from vf import loader
    if b.op == "const" and b.args[0] == 1:
        return a, tm.const(0)
    for fr in reversed(loader.LOOPS):
        if a is getattr(fr, "k", None) and not tm.depends(b, a) and fr.g0 is tm.TRUE and fr.lo is tm.const(0):
            q = quotient(fr.hi, b)
            if q is not None and known(tm.lt(tm.const(0), b)):
                fr.flat = (q, b)
    return split(a, b)


tm._hooks["split"] = _split_hook


def _divmono(m, d):
    e = dict(m)
    for x, k in d:
        if e.get(x, 0) < k:
            return None
        e[x] -= k
        if not e[x]:
            del e[x]
    return tuple(sorted(e.items()))


def _same(a, b):
    if issym(a) or issym(b):
        return issym(a) and issym(b) and (a is b or tm.eq(a, b) is tm.TRUE)
    return a == b


def functional(shape, kind, base):
    """result array: concrete when every dimension is"""
    shape = tuple(dim(d) for d in shape)
    if not any(issym(d) for d in shape):
        if not shape:
            return tm._co(base(()))
        o = _n.empty(shape, dtype=object)
        for i in _n.ndindex(*shape):
            o[i] = base(tuple(tm.const(j) for j in i))
        return wrap(o, kind)
    memo = {}

    def b(idx):
        k = tuple(tm._co(i).id for i in idx)
        r = memo.get(k)
        if r is None:
            r = memo[k] = base(idx)
        return r
    return SArr.make(shape, kind, b)


def sameorder(r, *args):
    """the result of an elementwise operation follows the memory order of its operands"""
    if isinstance(r, SArr):
        r.buf.anyorder = any(isinstance(a, SArr) and a.ndim > 1 and not a.inorder() for a in args)


def functional_copy(a):
    rd = a.snapshot()
    return functional(a.shape, a.vd, rd)


def lower(x):
    """symbolic array whose dimensions are all known -> concrete array (copy)"""
    if isinstance(x, SArr) and not any(issym(d) for d in x.shape_):
        return functional(x.shape_, x.vd, x.snapshot())
    if isinstance(x, VList) and x.mode == "segs":
        return x
    if isinstance(x, (tuple,)):
        return tuple(lower(y) for y in x)
    if isinstance(x, list) and not isinstance(x, VList):
        return [lower(y) for y in x]
    if isinstance(x, VList) and x.mode == "list":
        return VList([lower(y) for y in list.__iter__(x)])
    return x


def anysym(*xs):
    for x in xs:
        if isinstance(x, SArr):
            return True
        if hasattr(x, "sym_len"):
            return True
        if isinstance(x, (list, tuple)) and anysym(*list.__iter__(x) if isinstance(x, list) else x):
            return True
    return False


def lifted(name):
    """decorator: lower the arguments; when nothing symbolic is left use NumPy's model"""
    def deco(f):
        def g(*a, **k):
            a = tuple(lower(x) for x in a)
            if not anysym(*a):
                return getattr(NP, name)(*a, **k)
            return f(*a, **k)
        return g
    return deco


def lift(x):
    """any array-like -> SArr"""
    if isinstance(x, SArr):
        return x
    if hasattr(x, "sym_len"):
        return array(x, None)
    a = NP.asarray(x)
    if isinstance(a, SArr):
        return a
    if not isinstance(a, JArr):
        raise Unsupported("array of %s" % type(x).__name__)
    return SArr(Buf(a.shape, a.vd, jreader(a.copy())))


# ------------------------------------------------------------------ ufuncs
def result_kind(name, ks):
    if name in CMP or name.startswith(("logical", "is")):
        return "b"
    if name in ("true_divide", "divide", "sqrt", "sin", "cos", "exp", "arctan2", "hypot", "float_power"):
        return promote("f", *ks)
    if name in ("bitwise_and", "bitwise_or", "invert"):
        if any(q != "b" for q in ks):
            raise Unsupported("bitwise operation on numbers")
        return "b"
    k = promote(*ks)
    if k == "b":
        raise Unsupported("boolean arithmetic on symbolic arrays")
    return k


def ufunc(name, method, inputs, out, kw):
    kw = dict(kw)
    ins = [lower(i) for i in inputs]
    if out is None and not anysym(*ins):
        return symnp._ufunc(symnp._Named(name), method, tuple(NP.asarray(i) if not isinstance(i, JArr) else i
                                                              for i in ins), None, kw)
    if method == "outer" and name == "multiply":
        return outer(*ins)
    if method != "__call__":
        raise Unsupported("ufunc.%s on symbolic arrays" % method)
    kw.pop("casting", None)
    kw.pop("dtype", None)
    if kw.pop("where", True) is not True or kw:
        raise Unsupported("ufunc keywords")
    if name == "matmul":
        return matmul(*ins)
    if name not in BIN and name not in UN:
        raise Unsupported("ufunc %s" % name)
    args = []
    for i in ins:
        if isinstance(i, SArr):
            args.append(i)
        elif hasattr(i, "sym_len"):
            args.append(array(i, None))
        else:
            args.append(NP.asarray(i))
    ks = [a.vd for a in args]
    k = result_kind(name, ks)
    shape = broadcast_shapes([tuple(a.shape) for a in args])
    f = BIN.get(name) or UN[name]
    rds = [reader(a, shape) for a in args]

    def base(idx):
        return f(*[rd(idx) for rd in rds])
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if symnp.ORDER.index(k) > symnp.ORDER.index(o.vd):
            raise TypeError("Cannot cast ufunc '%s' output from dtype(%s) to dtype(%s) with casting rule "
                            "'same_kind'" % (name, k, o.vd))
        tmp = functional(shape, k, base)
        if isinstance(o, JArr):
            o[...] = tmp
            return o
        b = ufunc_bag(args, shape, f)
        # in-place: eager store (a += b with add recognised as accumulation)
        o._store(list(o.shape_), lambda idx: idx, tmp)
        if b is not None and o.amap is None:
            o.setbag(b[0], lambda its, idx: cast(b[1](its, idx), o.vd))
        return o
    r = functional(shape, k, base)
    if isinstance(r, SArr):
        sameorder(r, *args)
        b = ufunc_bag(args, shape, f)
        if b is not None:
            r.setbag(*b)
    return r


def ufunc_bag(args, shape, f):
    """the rows of an elementwise result as a bag"""
    axes, nd = {}, len(shape)
    mbs = [a.mbag if isinstance(a, SArr) else None for a in args]
    for a, b in zip(args, mbs):
        for e, sg in (b[0] if b is not None else {}).items():
            e += nd - a.ndim
            if axes.get(e, sg) is not sg:
                return None
            axes[e] = sg
    if not axes:
        return None
    rds = []
    for a, b in zip(args, mbs):
        off = nd - a.ndim
        for e, n in enumerate(a.shape):
            if e + off in axes and (issym(n) or n != 1) and (b is None or e not in b[0]):
                return None
        if b is None:
            rds.append(lambda its, idx, r=reader(a, shape): r(idx))
        else:
            rds.append(lambda its, idx, a=a, b=b, off=off: b[1](
                {e: its[e + off] for e in b[0]},
                tuple(tm.const(0) if (not issym(n) and n == 1) else i for n, i in zip(a.shape, tuple(idx)[off:]))))
    return axes, lambda its, idx: f(*[r(its, idx) for r in rds])


# ------------------------------------------------------------------- lists
class Seg:
    """for v in [lo, hi): the alternatives (guard, items)"""
    def __init__(self, v, lo, hi, alts):
        self.v, self.lo, self.hi, self.alts = v, lo, hi, alts

    def rename(self, w):
        m = {self.v: w}
        s = self.map(lambda t: tm.subst(t, m))
        s.v = w
        return s

    def map(self, f):
        return Seg(self.v, f(self.lo), f(self.hi), [(f(g), [map_item(x, f) for x in xs]) for g, xs in self.alts])


def map_item(x, f):
    if isinstance(x, Seg):
        return x.map(f)
    if isinstance(x, T):
        return f(x)
    if isinstance(x, JArr):
        return wrap(symnp._map(lambda t: f(tm._co(t)), x.raw()), x.vd)
    if isinstance(x, SArr):
        rd = x.snapshot()
        return functional([f(d) if issym(d) else d for d in x.shape_], x.vd, lambda idx: f(rd(idx)))
    if isinstance(x, tuple):
        return tuple(map_item(y, f) for y in x)
    if isinstance(x, VList):
        if x.mode == "list":
            return VList([map_item(y, f) for y in list.__iter__(x)])
        if x.mode == "buf":
            return VList.ofarr(map_item(x.arr, f))
        return VList.ofsegs([map_item(y, f) for y in x.segs])
    if isinstance(x, (numbers.Number, str, type(None), bool, complex)):
        return x
    raise Unsupported("list item of type %s in a symbolic loop" % type(x).__name__)


def walk(segs, bs=(), g=tm.TRUE):
    """all items: (binders, guard, item)"""
    for s in segs:
        if isinstance(s, Seg):
            for ga, xs in s.alts:
                yield from walk(xs, tuple(bs) + ((s.v, s.lo, s.hi),), tm.and_(g, ga))
        else:
            yield tuple(bs), g, s


def freshen(bs, g, items):
    """rename binders to fresh variables"""
    m, out = {}, []
    for v, lo, hi in bs:
        w = tm.fresh("w", I)
        out.append((w, tm.subst(tm._co(lo), m), tm.subst(tm._co(hi), m)))
        m[v] = w
    f = lambda t: tm.subst(t, m)
    return out, f(g), [map_item(x, f) for x in items]


class VList(list):
    """Python list.  mode "list": ordinary; "buf": fixed symbolic length with
    a memory (arr); "segs": built by appends in summarised loops or filtered
    comprehensions"""
    def __init__(self, x=()):
        list.__init__(self, x)
        self.mode = "list"
        self.arr = None
        self.segs = None
        self.nolen = False
        self.serial = next(_serial)

    @staticmethod
    def ofarr(a):
        v = VList()
        v.mode, v.arr = "buf", a
        return v

    @staticmethod
    def ofsegs(s):
        v = VList()
        v.mode, v.segs = "segs", list(s)
        return v

    @staticmethod
    def var(name, n, kind="i"):
        return VList.ofarr(SArr.var(name, (n,), kind))

    # snapshots for loops
    def snap(self):
        return (self.mode, list(list.__iter__(self)), self.arr, None if self.segs is None else list(self.segs),
                self.nolen)

    def restore(self, s):
        list.clear(self)
        list.extend(self, s[1])
        self.mode, self.arr, self.segs, self.nolen = s[0], s[2], None if s[3] is None else list(s[3]), s[4]

    def havoc(self):
        """unknown contents before this iteration: only appending is possible"""
        list.clear(self)
        self.mode, self.arr, self.segs, self.nolen = "segs", None, [], True

    @property
    def sym_len(self):
        if self.mode == "list":
            raise AttributeError("sym_len")
        return self.slen()

    def slen(self):
        if self.mode == "list":
            return list.__len__(self)
        if self.nolen:
            raise Unsupported("length of a list under construction in a symbolic loop")
        if self.mode == "buf":
            return self.arr.shape_[0]
        n = tm.const(0)
        for bs, g, x in walk(self.segs):
            n = tm.add(n, count(bs, g))
        return dim(n)

    def __len__(self):
        if self.mode == "list":
            return list.__len__(self)
        n = self.slen()
        if issym(n):
            raise Unsupported("len() of a symbolic list")
        return n

    @property
    def to_vlist(self):
        return self.copy

    def copy(self):
        v = VList()
        v.restore(self.snap())
        if v.mode == "buf":
            v.arr = v.arr.copy()
        return v

    def __iter__(self):
        if self.mode == "list":
            return list.__iter__(self)
        raise Unsupported("iteration over a symbolic list outside a for loop")

    @property
    def sym_iter(self):
        if self.mode == "list":
            raise AttributeError("sym_iter")
        if self.nolen:
            raise Unsupported("iteration over a list under construction")
        if self.mode == "buf":
            return self.arr.sym_iter
        sg = self.single()
        if sg is None:
            raise Unsupported("iteration over a nested symbolic list")
        (v, lo, hi), g, x = sg
        return lambda: (lo, hi, lambda k: map_item(x, lambda t: tm.subst(t, {v: k})),
                        None if g is tm.TRUE else lambda k: tm.subst(g, {v: k}))

    def single(self):
        """((v, lo, hi), guard, item) when the list is one filtered/mapped range"""
        if self.mode != "segs" or self.nolen:
            return None
        it = list(walk(self.segs))
        if len(it) == 1 and len(it[0][0]) == 1:
            return it[0][0][0], it[0][1], it[0][2]
        return None

    @property
    def sym_enumerate(self):
        if self.mode == "list":
            raise AttributeError("sym_enumerate")
        return lambda start=0: SEnumer(self, start)

    def _need(self):
        if self.nolen:
            raise Unsupported("reading a list under construction in a symbolic loop")

    def toarr(self, dtype=None):
        """1-d (or row) array of the contents"""
        self._need()
        if self.mode == "buf":
            return self.arr if dtype is None else self.arr.astype(dtype)
        return segs_array(self.segs, dtype)

    def __getitem__(self, i):
        if self.mode == "list":
            if isinstance(i, T) and i.op != "const":
                L = list(list.__iter__(self))
                if i.sort == I and not all(isinstance(x, (int, float, T)) for x in L):
                    return tm.pick(L, i)
                return lift(NP.array(L))[i]
            if isinstance(i, T):
                i = int(i.args[0])
            if isinstance(i, slice):
                return VList(list.__getitem__(self, i))
            return list.__getitem__(self, i)
        self._need()
        if isinstance(i, slice):
            return VList.ofarr(self.toarr()[i].copy())
        if isinstance(i, (SArr, JArr, tuple, list)):
            raise TypeError("list indices must be integers or slices")
        if self.mode == "segs":
            sg = self.single()
            if sg is not None and sg[1] is tm.TRUE:
                (v, lo, hi), g, x = sg
                j = norm_ix(i, dim(tm.add(hi, tm.neg(lo))))
                return map_item(x, lambda t: tm.subst(t, {v: tm.add(lo, j)}))
        return self.toarr()[i]

    def __setitem__(self, i, v):
        if self.mode == "list":
            touch(self)
            if isinstance(i, T) and i.op != "const":
                n = list.__len__(self)
                j = norm_ix(i, n)
                for q in range(n):
                    old = list.__getitem__(self, q)
                    if tm._co(old) is None or tm._co(v) is None:
                        raise Unsupported("symbolic store of an object in a list")
                    list.__setitem__(self, q, tm.ite(tm.eq(j, tm.const(q)), tm._co(v), tm._co(old)))
                return
            if isinstance(i, T):
                i = int(i.args[0])
            list.__setitem__(self, i, v)
            return
        self._need()
        if self.mode == "segs":
            from vf import loader
            new = [fr for fr in loader.LOOPS if fr.serial > self.serial]
            if new and not any(id(self) in fr.saved for fr in new):
                # built before these loops: the same contents, kept as a memory
                old = [fr for fr in loader.LOOPS if fr.serial <= self.serial]
                cur = list(loader.LOOPS)
                loader.LOOPS[:] = old
                try:
                    a = self.toarr().copy()
                finally:
                    loader.LOOPS[:] = cur
                a.buf.serial = self.serial
                self.arr, self.mode, self.segs = a, "buf", None
            else:
                touch(self)
                self.arr, self.mode, self.segs = self.toarr().copy(), "buf", None
        if isinstance(i, slice):
            raise Unsupported("slice store into a list")
        t = tm._co(v)
        if t is None:
            raise Unsupported("object stored in a symbolic list")
        if kind_of(t) != self.arr.vd:
            k = kind_of(t)
            if symnp.ORDER.index(k) > symnp.ORDER.index(self.arr.vd):
                from vf import loader
                if loader.LOOPS:
                    raise Unsupported("list changes element type inside a loop")
                self.arr = self.arr.astype({"f": float, "i": int, "c": complex}[k])
        self.arr[i] = v

    def __delitem__(self, i):
        self._mut()
        list.__delitem__(self, i)

    def _mut(self):
        if self.mode != "list":
            raise Unsupported("list mutation")
        touch(self)

    def append(self, x):
        touch(self)
        if self.mode == "list":
            list.append(self, x)
            return
        if self.mode == "buf":
            self.segs, self.mode, self.arr = arr_segs(self.arr), "segs", None
        self.segs.append(x)

    def extend(self, xs):
        if hasattr(xs, "sym_len"):
            touch(self)
            self._tosegs()
            self.segs += segs_of(xs)
            return
        for x in list(xs):
            self.append(x)

    def _tosegs(self):
        if self.mode == "list":
            self.segs, self.mode = list(list.__iter__(self)), "segs"
            list.clear(self)
        elif self.mode == "buf":
            self.segs, self.mode, self.arr = arr_segs(self.arr), "segs", None

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def insert(self, i, x):
        self._mut()
        list.insert(self, i, x)

    def pop(self, *a):
        self._mut()
        return list.pop(self, *a)

    def remove(self, x):
        self._mut()
        if any(isinstance(y, T) for y in list.__iter__(self)):
            raise Unsupported("list.remove")
        list.remove(self, x)

    def clear(self):
        self._mut()
        list.clear(self)

    def sort(self, **k):
        self._mut()
        if any(isinstance(y, T) for y in list.__iter__(self)):
            raise Unsupported("sorting symbolic values")
        list.sort(self, **k)

    def reverse(self):
        self._mut()
        list.reverse(self)

    def index(self, x, *a):
        if self.mode != "list" or any(isinstance(y, T) for y in list.__iter__(self)) or isinstance(x, T):
            raise Unsupported("list.index")
        return list.index(self, x, *a)

    def count(self, x):
        if self.mode != "list":
            raise Unsupported("list.count")
        return list.count(self, x)

    def __add__(self, o):
        if hasattr(o, "sym_len") or self.mode != "list":
            if not isinstance(o, list):
                return NotImplemented
            v = self.copy()
            v.extend(o)
            return v
        if not isinstance(o, list):
            return NotImplemented
        return VList(list.__add__(self, o))

    def __radd__(self, o):
        return VList(o) + self if isinstance(o, list) else NotImplemented

    def __mul__(self, n):
        if isinstance(n, T):
            n = dim(n)
        if isinstance(n, (SArr, JArr)):
            return NotImplemented
        if issym(n):
            return listmul(self, n)
        if self.mode != "list":
            raise Unsupported("repetition of a symbolic list")
        return VList(list.__mul__(self, n))

    __rmul__ = __mul__

    def __contains__(self, x):
        if self.mode == "list":
            return list.__contains__(self, x)
        return bool(self.member(x))

    def member(self, x):
        self._need()
        return SSet.of(self).member(tt(x))

    def __eq__(self, o):
        if self.mode != "list" or (isinstance(o, VList) and o.mode != "list"):
            raise Unsupported("list comparison")
        return list.__eq__(self, o)

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __bool__(self):
        n = self.slen()
        return bool(tm.lt(tm.const(0), n)) if issym(n) else n > 0

    def __repr__(self):
        return "VList(%s)" % self.mode

    def __reversed__(self):
        if self.mode != "list":
            raise Unsupported("reversed")
        return list.__reversed__(self)


def listmul(x, n):
    if not isinstance(x, VList):
        x = VList(x)
    n = dim(n)
    if not issym(n):
        return x*n
    if x.mode != "list" or list.__len__(x) != 1 or tm._co(list.__getitem__(x, 0)) is None:
        if x.mode != "list" or list.__len__(x) != 1 or not known(tm.le(tm.const(0), n)):
            raise Unsupported("list repetition")
        return VList.ofsegs([Seg(tm.fresh("k", I), tm.const(0), n, [(tm.TRUE, [list.__getitem__(x, 0)])])])
    v = tm._co(list.__getitem__(x, 0))
    if not known(tm.le(tm.const(0), n)):
        n = dim(symnp.smax(tm.const(0), n))
    return VList.ofarr(SArr.make((n,), kind_of(v), lambda idx: v))


tm._hooks["listmul"] = listmul


def count(bs, g):
    t = tm.ite(g, tm.const(1), tm.const(0))
    for v, lo, hi in reversed(bs):
        t = sumsimp(v, lo, hi, t)
    return t


def sumsimp(v, lo, hi, body):
    """bounded sum, closed when the body does not depend on v"""
    body = tm._num(tm._co(body))
    lo, hi = tm._co(lo), tm._co(hi)
    if not tm.depends(body, v):
        n = tm._normint(tm.add(hi, tm.neg(lo)))
        if not known(tm.le(lo, hi)):
            n = symnp.smax(tm.const(0), n)
        return tm.mul(body, n)
    return tm.bsum(v, lo, hi, body)


def arr_segs(a):
    k = tm.fresh("q", I)
    rd = a.snapshot()
    x = functional(a.shape_[1:], a.vd, lambda idx: rd((k,) + tuple(idx)))
    return [Seg(k, tm.const(0), tm._co(a.shape_[0]), [(tm.TRUE, [x])])]


def segs_of(x):
    if isinstance(x, VList):
        x._need()
        if x.mode == "segs":
            return list(x.segs)
        if x.mode == "buf":
            return segs_of(x.arr)
        return list(list.__iter__(x))
    if isinstance(x, SArr):
        if x.bag is not None and x.bag[1] == 0:
            segs, pos, f = x.bag
            return map_segs(segs, lambda it: functional(
                x.shape_[1:], x.vd, lambda idx: f(it, (tm.const(0),) + tuple(idx))))
        if x.bag is not None and isinstance(x.bag[0], tuple) and x.bag[0][0] == "flat":
            # rows of concrete length, one after another
            _, segs, cons, f = x.bag[0]
            return bind_segs(segs, lambda it: [f(it, (tm.const(0),) + tuple(tm.const(i) for i in c))
                                               for c in itertools.product(*cons)])
        return arr_segs(x)
    if hasattr(x, "sym_iter"):
        lo, hi, elem, guard = x.sym_iter()
        k = tm.fresh("q", I)
        return [Seg(k, lo, hi, [(guard(k) if guard else tm.TRUE, [elem(k)])])]
    return list(x)


def bind_segs(segs, f):
    """each item replaced by the list f(item); binders renamed"""
    out = []
    for s in segs:
        if isinstance(s, Seg):
            w = tm.fresh("w", I)
            s = s.rename(w)
            out.append(Seg(w, s.lo, s.hi, [(g, bind_segs(xs, f)) for g, xs in s.alts]))
        else:
            out += f(s)
    return out


def product(xs):
    """itertools.product: the nested segments"""
    ss = [segs_of(x) if hasattr(x, "sym_len") else list(x) for x in xs]

    def go(n, head):
        if n == len(ss):
            return [head]
        def one(segs):
            out = []
            for s in segs:
                if isinstance(s, Seg):
                    s = s.rename(tm.fresh("w", I))
                    out.append(Seg(s.v, s.lo, s.hi, [(g, one(ys)) for g, ys in s.alts]))
                else:
                    out += go(n + 1, head + (s,))
            return out
        return one(ss[n])
    return VList.ofsegs(go(0, ()))


def map_segs(segs, f):
    return [Seg(s.v, s.lo, s.hi, [(g, map_segs(xs, f)) for g, xs in s.alts]) if isinstance(s, Seg) else f(s)
            for s in segs]


def map_segs(segs, f):
    return [Seg(s.v, s.lo, s.hi, [(g, map_segs(xs, f)) for g, xs in s.alts]) if isinstance(s, Seg) else f(s)
            for s in segs]


def prune_segs(segs, facts=()):
    """without the alternatives whose guard cannot hold"""
    out = []
    for s in segs:
        if isinstance(s, Seg):
            r = list(facts) + [tm.le(s.lo, s.v), tm.lt(s.v, s.hi)]
            alts = [(g, prune_segs(xs, r + [g])) for g, xs in s.alts if not known(tm.not_(tm.and_(*r, g)))]
            s = Seg(s.v, s.lo, s.hi, alts)
        out.append(s)
    return out


def selected(bs):
    """positions of the true conditions, as a bag"""
    segs = []
    for i, b in enumerate(bs):
        if b is tm.TRUE:
            segs.append(tm.const(i))
        elif b is not tm.FALSE:
            segs.append(Seg(tm.fresh("w", I), tm.const(0), tm.const(1), [(b, [tm.const(i)])]))
    return segs_array(segs, int)


def pieces(x):
    """the consecutive parts of a list given by several segments"""
    if isinstance(x, SArr) and x.bag is not None and x.bag[1] == 0 and x.ndim == 1:
        segs, _, f = x.bag
        segs = map_segs(segs, lambda it: f(it, (tm.const(0),)))
    elif isinstance(x, VList) and x.mode == "segs" and not x.nolen:
        segs = x.segs
    else:
        return None
    out = []
    for s in segs:
        if isinstance(s, Seg):
            v = VList.ofsegs([s])
            if v.single() is None:
                return None
            out.append(v)
        else:
            out.append(s)
    return out if len(out) != 1 or not isinstance(out[0], VList) or isinstance(x, SArr) else None


def segs_array(segs, dtype=None):
    """array of the items, in order"""
    its = list(walk(segs))
    if any(isinstance(x, (list, tuple)) or hasattr(x, "sym_iter") and not isinstance(x, SArr) for _, _, x in its):
        segs = map_segs(segs, lambda x: x if isinstance(x, (T, JArr, SArr, numbers.Number)) else lower(lift(x)))
        its = list(walk(segs))
    if not its:
        return NP.array([], dtype=dtype or float)
    def shape_of(x):
        x = x if isinstance(x, (JArr, SArr)) else NP.asarray(x) if isinstance(x, (list, tuple)) else x
        return tuple(x.shape) if isinstance(x, (JArr, SArr)) else ()
    shapes = [shape_of(x) for _, _, x in its]
    if any(s != shapes[0] for s in shapes):
        # items that never occur do not count
        segs = prune_segs(segs)
        its = list(walk(segs))
        shapes = [shape_of(x) for _, _, x in its]
    if any(s != shapes[0] for s in shapes):
        raise ValueError("setting an array element with a sequence. inhomogeneous shape")
    k = promote(*[x.vd if isinstance(x, (JArr, SArr)) else kind_of(tt(x)) for _, _, x in its])
    if dtype is not None:
        k = norm_dtype(dtype)

    def elem(x, idx):
        if isinstance(x, JArr):
            return cast(jreader(x)(idx), k)
        if isinstance(x, SArr):
            return cast(x.at(*idx), k)
        return cast(tt(x), k)
    if len(its) == 1 and len(its[0][0]) == 1:
        (v, lo, hi), g, x = its[0][0][0], its[0][1], its[0][2]
        if g is tm.TRUE:
            n = dim(tm.add(hi, tm.neg(lo)))
            if issym(n) and not known(tm.le(tm.const(0), n)):
                n = dim(symnp.smax(tm.const(0), n))
            return functional((n,) + shapes[0], k, lambda idx: tm.subst(elem(x, tuple(idx[1:])),
                                                                        {v: tm.add(lo, tm._co(idx[0]))}))
        n = count([(v, lo, hi)], g)

        def sel(p):
            w = tm.fresh("w", I)
            before = tm.bsum(w, lo, v, tm.ite(tm.subst(g, {v: w}), tm.const(1), tm.const(0)))
            return tm.last(v, lo, hi, tm.and_(g, tm.eq(before, p)))
        r = functional((dim(n),) + shapes[0], k,
                       lambda idx: tm.subst(elem(x, tuple(idx[1:])), {v: sel(tm._co(idx[0]))}))
        if isinstance(r, SArr):
            r.bag = (segs, 0, lambda it, idx: elem(it, tuple(idx[1:]) if len(idx) else ()))
        return r
    if len(segs) == 1 and isinstance(segs[0], Seg) and all(len(xs) == 1 and not isinstance(xs[0], Seg)
                                                           for _, xs in segs[0].alts):
        # one item for every index, whichever the alternative
        s = segs[0]
        if known(tm.or_(tm.not_(tm.and_(tm.le(s.lo, s.v), tm.lt(s.v, s.hi))), *[g for g, _ in s.alts])):
            n = dim(tm.add(s.hi, tm.neg(s.lo)))
            if issym(n) and not known(tm.le(tm.const(0), n)):
                n = dim(symnp.smax(tm.const(0), n))

            def one(idx):
                r = None
                for g, xs in reversed(s.alts):
                    e = elem(xs[0], tuple(idx[1:]))
                    r = e if r is None else tm.ite(g, e, r)
                return tm.subst(r, {s.v: tm.add(s.lo, tm._co(idx[0]))})
            return functional((n,) + shapes[0], k, one)
    if len(its) == 1 and its[0][1] is tm.TRUE:
        # a rectangle of indices, row by row
        bs, _, x = its[0]
        ids = {b[0].id for b in bs}
        ns = [dim(tm.add(tm._co(hi), tm.neg(tm._co(lo)))) for _, lo, hi in bs]
        if not any(tm.fv(tm._co(e)) & ids for b in bs for e in b[1:]) and all(
                known(tm.le(tm.const(0), tm._co(n))) for n in ns):
            def cell(idx):
                p, m = tm._co(idx[0]), {}
                for (v, lo, hi), n in reversed(list(zip(bs[1:], ns[1:]))):
                    m[v] = tm.add(tm._co(lo), tm.imod(p, tm._co(n)))
                    p = tm.idiv(p, tm._co(n))
                m[bs[0][0]] = tm.add(tm._co(bs[0][1]), p)
                return tm.subst(elem(x, tuple(idx[1:])), m)
            r = functional((prod_dims(ns),) + shapes[0], k, cell)
            if isinstance(r, SArr):
                r.bag = (segs, 0, lambda it, idx: elem(it, tuple(idx[1:]) if len(idx) else ()))
            return r
    # general: only as a bag
    n = tm.const(0)
    for bs, g, x in its:
        n = tm.add(n, count(bs, g))
    nm = "bag#%d" % next(_serial)
    ks = loopvars()
    r = functional((dim(n),) + shapes[0], k, lambda idx: tm.app(nm, ks + tuple(idx), SORT[k]))
    if isinstance(r, SArr):
        r.bag = (segs, 0, lambda it, idx: elem(it, tuple(idx[1:]) if len(idx) else ()))
    return r


# ------------------------------------------------------------------- ranges
class SRange:
    def __init__(self, *a):
        a = [dim(x) for x in a]
        start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
        if issym(step) or step == 0:
            raise Unsupported("symbolic step")
        self.start, self.stop, self.step = start, stop, step

    def slen(self):
        a, b = tm._co(self.start), tm._co(self.stop)
        if self.step == 1:
            n = tm._normint(tm.add(b, tm.neg(a)))
        elif self.step == -1:
            n = tm._normint(tm.add(a, tm.neg(b)))
        elif self.step > 0:
            n = tm.idiv(tm.add(tm.add(b, tm.neg(a)), tm.const(self.step - 1)), tm.const(self.step))
        else:
            n = tm.idiv(tm.add(tm.add(a, tm.neg(b)), tm.const(-self.step - 1)), tm.const(-self.step))
        return dim(n) if known(tm.le(tm.const(0), n)) else dim(symnp.smax(tm.const(0), n))

    @property
    def sym_len(self):
        return self.slen()

    def __len__(self):
        n = self.slen()
        if issym(n):
            raise Unsupported("len() of a symbolic range")
        return n

    def sym_iter(self):
        if self.step == 1:
            return tm._co(self.start), tm._co(self.stop), lambda k: k, None
        return tm.const(0), tm._co(self.slen()), lambda k: tm.add(tm._co(self.start), tm.mul(tm.const(self.step), k)), None

    def sym_enumerate(self, start=0):
        return SEnumer(self, start)

    def sym_reversed(self):
        n = self.slen()
        last = tm.add(tm._co(self.start), tm.mul(tm.const(self.step), tm.add(tm._co(n), tm.const(-1))))
        return SRange(last, tm.add(tm._co(self.start), tm.const(-self.step)), -self.step)

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise Unsupported("slice of a symbolic range")
        return tm.add(tm._co(self.start), tm.mul(tm.const(self.step), norm_ix(i, self.slen())))

    def __contains__(self, x):
        if self.step != 1:
            raise Unsupported("membership in a strided range")
        x = tt(x)
        return bool(tm.and_(tm.le(tm._co(self.start), x), tm.lt(x, tm._co(self.stop))))

    def to_vlist(self):
        return VList.ofarr(array(self, None))

    def __iter__(self):
        raise Unsupported("iteration over a symbolic range outside a for loop")


class ReadBuf(Buf):
    """a row handed out by value"""
    def write(self, e):
        raise Unsupported("write through a row of a selection")

    def setbase(self, base):
        raise Unsupported("write through a row of a selection")


def bag_iter(x):
    """the rows of a selection, by the values selected"""
    if not isinstance(x, SArr) or not x.shape_ or not issym(x.shape_[0]):
        return None
    b = x.mbag
    if b is None or list(b[0]) != [0] or len(b[0][0]) != 1 or not isinstance(b[0][0][0], Seg):
        return None
    sg = b[0][0][0]
    if len(sg.alts) != 1 or len(sg.alts[0][1]) != 1 or isinstance(sg.alts[0][1][0], Seg):
        return None
    (g, (it,)), = sg.alts
    if g is tm.TRUE:
        return None
    at, shape = b[1], x.shape_[1:]

    def elem(k):
        item = map_item(it, lambda t: tm.subst(t, {sg.v: k}))

        def base(idx):
            return at({0: item}, (tm.const(0),) + tuple(idx))
        if not shape:
            return base(())
        if any(issym(n) for n in shape):
            return SArr(ReadBuf(shape, x.vd, base))
        r = functional(shape, x.vd, base)
        symnp._n.ndarray.setflags(r, write=False)
        return r
    return tm._co(sg.lo), tm._co(sg.hi), elem, lambda k: tm.subst(g, {sg.v: k})


class SEnumer:
    def __init__(self, x, start):
        self.x, self.start = x, start

    @property
    def sym_len(self):
        return self.x.sym_len

    def sym_iter(self):
        lo, hi, elem, guard = bag_iter(self.x) or self.x.sym_iter()
        if guard is not None:
            def pos(k):
                w = tm.fresh("w", I)
                g = guard(w)
                if g is tm.TRUE:
                    return tm.add(k, tm.neg(lo))
                return tm.bsum(w, lo, k, tm.ite(g, tm.const(1), tm.const(0)))
            return lo, hi, lambda k: (tm.add(pos(k), tm._co(self.start)), elem(k)), guard
        return lo, hi, lambda k: (tm.add(tm.add(k, tm.neg(lo)), tm._co(self.start)), elem(k)), None

    def __iter__(self):
        raise Unsupported("iteration over a symbolic enumerate outside a for loop")


class SZip:
    def __init__(self, xs):
        self.xs = xs
        ns = [x.slen() if hasattr(x, "slen") else x.sym_len if hasattr(x, "sym_len") else len(x) for x in xs]
        n = ns[0]
        for m in ns[1:]:
            if not deq(n, m):
                n = dim(symnp.smin(tm._co(n), tm._co(m)))
        self.n = n

    @property
    def sym_len(self):
        return self.n

    def slen(self):
        return self.n

    def sym_iter(self):
        its = []
        for x in self.xs:
            if hasattr(x, "sym_iter"):
                its.append(x.sym_iter())
            else:
                a = x
                its.append((tm.const(0), tm._co(self.n), lambda k, a=a: a[k], None))
        if any(i[3] is not None for i in its):
            lo, hi, _, g = next(i for i in its if i[3] is not None)
            k = tm.fresh("w", I)
            if all(i[3] is not None and deqt(i[0], lo) and deqt(i[1], hi) and i[3](k) is g(k) for i in its):
                return lo, hi, lambda k: tuple(i[2](k) for i in its), g
            its = [i if i[3] is None else (tm.const(0), tm._co(self.n), (lambda k, a=x.toarr() if isinstance(
                x, VList) else lift(x): a[k]), None) for i, x in zip(its, self.xs)]
        return tm.const(0), tm._co(self.n), lambda k: tuple(e(tm.add(lo, k)) for lo, hi, e, g in its), None

    def sym_enumerate(self, start=0):
        return SEnumer(self, start)

    def __iter__(self):
        if issym(self.n):
            raise Unsupported("iteration over a symbolic zip outside a for loop")
        lo, hi, e, g = self.sym_iter()
        return iter([e(tm.const(i)) for i in range(self.n)])


def szip(xs):
    return SZip(xs)


# --------------------------------------------------------------------- sets
class SSet:
    """finite set of integers given by its membership predicate"""
    finite = None       # every element is one of these

    def __init__(self, member, lo=None, hi=None, what=""):
        self._member, self.lo, self.hi = member, lo, hi
        self.serial = next(_serial)

    def member(self, x):
        return self._member(tt(x))

    @staticmethod
    def of(x):
        if isinstance(x, SSet):
            return x
        if isinstance(x, VSet):
            return SSet.of(x.view())
        if isinstance(x, (set, frozenset)) or isinstance(x, (list, tuple)) and not isinstance(x, VList):
            ts = [tm._co(y) for y in x]
            if any(t is None or t.sort == R and t.op != "const" for t in ts):
                raise Unsupported("set of %s" % type(x).__name__)
            r = SSet(lambda v: tm.or_(*[tm.eq(t, v) for t in ts]))
            r.finite = ts
            return r
        if isinstance(x, VList) and x.mode == "buf":
            x = x.arr
        if isinstance(x, SArr) and x.bag is not None and isinstance(x.bag[0], tuple) and x.bag[0][0] == "flat":
            _, segs, cons, f = x.bag[0]

            def mem(v):
                out = []
                for bs, g, it in walk(segs):
                    bs, g, (it,) = freshen(bs, g, [it])
                    for c in itertools.product(*cons):
                        h = tm.and_(g, tm.eq(f(it, (tm.const(0),) + tuple(tm.const(i) for i in c)), v))
                        out.append(existsn(bs, h))
                return tm.or_(*out)
            return SSet(mem, *(range_of(x)))
        if isinstance(x, (VList, SArr)) or hasattr(x, "sym_iter"):
            if isinstance(x, SArr) and x.ndim != 1:
                raise TypeError("unhashable type: 'numpy.ndarray'")
            if isinstance(x, SRange) and x.step == 1:
                a, b = tm._co(x.start), tm._co(x.stop)
                return SSet(lambda v: tm.and_(tm.le(a, v), tm.lt(v, b)), a, b)
            segs = segs_of(x)

            def mem(v):
                out = []
                for bs, g, it in walk(segs):
                    if isinstance(it, (JArr, SArr, list, tuple)):
                        raise TypeError("unhashable type")
                    bs, g, (it,) = freshen(bs, g, [it])
                    s = solve(bs, g, (tm._co(it),), tm.const(0), (v,))
                    if s[0] is None:
                        continue
                    out.append(existsn(s[0], tm.and_(*s[1])))
                return tm.or_(*out)
            return SSet(mem, *(range_of(x)))
        raise Unsupported("set of %s" % type(x).__name__)

    @property
    def sym_len(self):
        return self.slen()

    def slen(self):
        if self.lo is None:
            raise Unsupported("size of a set without a known range")
        v = tm.fresh("x", I)
        n = tm.bsum(v, self.lo, self.hi, tm.ite(self.member(v), tm.const(1), tm.const(0)))
        w = tm.fresh("x", I)
        if n.op != "const":
            assume(tm.le(tm.const(0), n))
            assume(tm.eq(tm._num(tm.lt(tm.const(0), n)), tm._num(tm.exists(w, self.lo, self.hi, self.member(w)))))
        return dim(n)

    def __len__(self):
        raise Unsupported("len() of a symbolic set")

    def __contains__(self, x):
        return bool(self.member(x))

    def sym_iter(self):
        if self.lo is None:
            raise Unsupported("iteration over a set without a known range")
        # loops check that the order does not matter
        return self.lo, self.hi, lambda k: k, lambda k: self.member(k)

    def sorted(self):
        return self.enumerate_(True)

    def sym_enumerate(self, start=0):
        return SEnumer(self.enumerate_(), start)

    def enumerate_(self, srt=False):
        n = self.slen()
        v = tm.fresh("x", I)
        key = tm.lam(v, self.lo, self.hi, tm._num(self.member(v)))
        nm = "setsorted" if srt else "setenum"
        a = SArr.make((n,), "i", lambda idx: tm.app(nm, (key,) + tuple(idx), I))
        a.enum = self
        return VList.ofarr(a)

    @property
    def to_vlist(self):
        return lambda: self.enumerate_()

    def __or__(self, o):
        o = SSet.of(o)
        return SSet(lambda v: tm.or_(self.member(v), o.member(v)), *hull(self, o))

    union = __or__

    __ror__ = __or__

    def __and__(self, o):
        o = SSet.of(o)
        r = SSet(lambda v: tm.and_(self.member(v), o.member(v)), self.lo, self.hi)
        r.finite = o.finite if self.finite is None else self.finite
        return r

    __rand__ = __and__

    def isdisjoint(self, o):
        return not (self & SSet.of(o))

    def __bool__(self):
        if self.finite is not None:
            return bool(tm.or_(*[self.member(x) for x in self.finite]))
        if self.lo is None:
            raise Unsupported("emptiness of a set without a known range")
        w = tm.fresh("x", I)
        return bool(tm.exists(w, self.lo, self.hi, self.member(w)))

    intersection = __and__

    def __sub__(self, o):
        o = SSet.of(o)
        return SSet(lambda v: tm.and_(self.member(v), tm.not_(o.member(v))), self.lo, self.hi)

    difference = __sub__

    def add(self, x):
        raise Unsupported("set.add on a symbolic set")

    def update(self, *x):
        raise Unsupported("set.update on a symbolic set")

    def __iter__(self):
        raise Unsupported("iteration over a symbolic set outside a for loop")


def hull(a, b):
    if a.lo is None or b.lo is None:
        return None, None
    if a.lo is b.lo and a.hi is b.hi:
        return a.lo, a.hi
    return symnp.smin(a.lo, b.lo), symnp.smax(a.hi, b.hi)


def existsn(bs, g):
    for v, lo, hi in reversed(bs):
        g = tm.exists(v, lo, hi, g)
    return g


VRANGE = {}        # application name -> (lo, hi): range of the values of an input array


def range_of(x):
    """known range of the integer values of a sequence"""
    ts = []
    if isinstance(x, SArr) and x.bag is not None:
        if isinstance(x.bag[0], tuple):
            _, segs, cons, f = x.bag[0]
            for bs, g, it in walk(segs):
                for c in itertools.product(*cons):
                    ts.append(f(it, (tm.const(0),) + tuple(tm.const(i) for i in c)))
        else:
            segs, pos, f = x.bag
            ts = [f(it, ()) for bs, g, it in walk(segs)]
    else:
        ts = [it for bs, g, it in walk(segs_of(x))]
    out = None
    for t in ts:
        t = tm._co(t)
        if t is None or t.op != "app" or t.args[0] not in VRANGE:
            return None, None
        r = VRANGE[t.args[0]]
        if out is not None and (out[0] is not r[0] or out[1] is not r[1]):
            return None, None
        out = r
    return out if out is not None else (None, None)


class VSet:
    """set built by the code under contract: the elements in the order they were added (its list is what loops track)"""
    def __init__(self, xs=()):
        self.lst = VList(xs)

    def view(self):
        """the Python set of the elements, or the symbolic one"""
        if self.lst.mode == "list":
            xs = [symnp_const(x) for x in list.__iter__(self.lst)]
            if not any(isinstance(x, T) or isinstance(x, tuple) and any(isinstance(y, T) for y in x) for x in xs):
                return set(xs)
            return SSet.of(tuple(xs))
        self.lst._need()
        return SSet.of(self.lst)

    def add(self, x):
        hash(x)
        self.lst.append(x)

    def update(self, *xss):
        for xs in xss:
            if isinstance(xs, VSet):
                xs = xs.lst
            elif isinstance(xs, SSet):
                raise Unsupported("set.update with a symbolic set")
            self.lst.extend(xs.copy() if isinstance(xs, VList) else xs)

    def __ior__(self, o):
        self.update(o)
        return self

    def copy(self):
        v = VSet()
        v.lst = self.lst.copy()
        return v

    def _mut(self, f):
        v = self.view()
        if LOOPING() or not isinstance(v, set):
            raise Unsupported("elements taken from a symbolic set")
        r = f(v)
        self.lst = VList(v)
        return r

    def discard(self, x):
        return self._mut(lambda v: v.discard(symnp_const(x)))

    def remove(self, x):
        return self._mut(lambda v: v.remove(symnp_const(x)))

    def clear(self):
        return self._mut(lambda v: v.clear())

    def pop(self):
        return self._mut(lambda v: v.pop())

    @property
    def sym_len(self):
        return self.view().sym_len

    @property
    def slen(self):
        return self.view().slen         # a Python set has none

    @property
    def sym_enumerate(self):
        return self.view().sym_enumerate

    @property
    def to_vlist(self):
        return self.view().to_vlist     # a Python set has none

    @property
    def sym_iter(self):
        return self.view().sym_iter

    def __len__(self):
        return len(self.view())

    def __iter__(self):
        return iter(self.view())

    def __bool__(self):
        return bool(self.view())

    def __contains__(self, x):
        v = self.view()
        x = symnp_const(x)
        if isinstance(v, set) and isinstance(x, T):
            v = SSet.of(v)
        return x in v

    def _both(self, o, name):
        v = self.view()
        if isinstance(o, (VList, list, tuple)) and not isinstance(v, SSet):
            o = mkset(o) if not hasattr(o, "sym_len") else SSet.of(o)
        o = o.view() if isinstance(o, VSet) else o
        if isinstance(v, set) and isinstance(o, (set, frozenset)):
            r = getattr(v, name)(o)
            return VSet(r) if isinstance(r, (set, frozenset)) else r
        return getattr(SSet.of(v), name)(o)

    def __or__(self, o):
        return self._both(o, "union")

    def __and__(self, o):
        return self._both(o, "intersection")

    def __sub__(self, o):
        return self._both(o, "difference")

    __ror__, __rand__, union, intersection, difference = __or__, __and__, __or__, __and__, __sub__

    def isdisjoint(self, o):
        return self._both(o, "isdisjoint")

    def __eq__(self, o):
        o = o.view() if isinstance(o, VSet) else o
        v = self.view()
        if isinstance(v, set) and isinstance(o, (set, frozenset)):
            return v == o
        if isinstance(o, (SSet, set, frozenset)):
            raise Unsupported("comparison of symbolic sets")
        return False

    def issubset(self, o):
        o = o.view() if isinstance(o, VSet) else o
        v = self.view()
        if isinstance(v, set) and isinstance(o, (set, frozenset)):
            return v <= o
        if isinstance(v, set):
            v = SSet.of(v)
        if getattr(v, "finite", None) is not None:
            o = SSet.of(o)
            return bool(tm.and_(*[tm.or_(tm.not_(v.member(x)), o.member(x)) for x in v.finite]))
        raise Unsupported("comparison of symbolic sets")

    __le__ = issubset
    __hash__ = None


def mkset(xs):
    for x in xs:
        if isinstance(x, (JArr, SArr, list)):
            raise TypeError("unhashable type")
    return VSet(symnp_const(x) for x in xs)


def symnp_const(x):
    if isinstance(x, T) and x.op == "const":
        q = x.args[0]
        return int(q) if q.denominator == 1 else float(q)
    return x


# ------------------------------------------------------------- np.* functions
def array(x, dtype):
    if isinstance(x, SArr):
        r = x.copy()
        sameorder(r, x)
        return r if dtype is None else r.astype(dtype)
    if isinstance(x, VList):
        if x.mode == "buf":
            r = x.arr.copy()
            return r if dtype is None else r.astype(dtype)
        if x.mode == "segs":
            return x.toarr(dtype)
    if isinstance(x, SRange):
        n = x.slen()
        s, st = tm._co(x.start), x.step
        r = functional((n,), "i", lambda idx: tm.add(s, tm.mul(tm.const(st), tm._co(idx[0]))))
        return r if dtype is None else r.astype(dtype)
    if isinstance(x, SSet):
        raise Unsupported("array of a set")
    if isinstance(x, (list, tuple)):
        xs = [lift(y) if not (isinstance(y, (T, numbers.Number))) else y for y in x]
        if all(isinstance(y, SArr) for y in xs):
            r = stack(xs, 0)
            return r if dtype is None else r.astype(dtype)
    if hasattr(x, "sym_iter"):
        return VList.ofsegs(segs_of(x)).toarr(dtype)
    raise Unsupported("array of %s" % type(x).__name__)


def norm(a, ord=None, axis=None):
    a = lower(a)
    if isinstance(a, SArr):
        if ord not in (None, 2) or (ord == 2 and a.ndim != 1):
            raise Unsupported("norm order")
        return NP.sqrt(sum_(a*a, axis))
    return NP.linalg.norm(a, ord, axis)


def _dims(shape):
    if isinstance(shape, (list, tuple)):
        return [dim(s) for s in (shape if not isinstance(shape, list) else list.__iter__(shape))]
    return [dim(shape)]


def full(shape, v, k):
    ds = _dims(shape)
    for d in ds:
        if issym(d):
            side(tm.le(tm.const(0), d))
        elif d < 0:
            raise ValueError("negative dimensions are not allowed")
    v = tm._co(v)
    return SArr(Buf(ds, k, lambda idx: v)) if any(issym(d) for d in ds) else NP._full(ds, v, k)


def empty(shape, k):
    ds = _dims(shape)
    for d in ds:
        if issym(d):
            side(tm.le(tm.const(0), d))
    nm = "uninit#%d" % next(_serial)
    if not any(issym(d) for d in ds):
        raise Unsupported("empty")
    ks = loopvars()
    return SArr(Buf(ds, k, lambda idx: tm.app(nm, ks + tuple(idx), SORT[k])))


def atleast_2d(x):
    return x if x.ndim > 1 else x.reshape(1, x.shape_[0])


def arange(*a):
    return array(SRange(*a), None)


def linspace(a, b, num, endpoint):
    num = dim(num)
    if not issym(num):
        return NP.linspace(a, b, num, endpoint)
    a, b = tm._co(a), tm._co(b)
    d = tm.add(num, tm.const(-1)) if endpoint else num
    step = tm.div(tm.add(b, tm.neg(a)), d)
    return SArr.make((num,), "f", lambda idx: tm.add(a, tm.mul(tm._co(idx[0]), step)))


@lifted("matmul")
def matmul(a, b):
    for x in (a, b):
        if isinstance(x, (CooMat,)):
            raise Unsupported("sparse product")
    if isinstance(a, (T, numbers.Number)) or isinstance(b, (T, numbers.Number)):
        return ufunc("multiply", "__call__", (a, b), None, {})
    a, b = lift(a), lift(b)
    if a.ndim > 2 or b.ndim > 2 or not a.ndim or not b.ndim:
        raise Unsupported("stacked matmul")
    n = a.shape_[-1]
    if not deq(n, b.shape_[0]):
        raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension 0")
    ra, rb = a.snapshot(), b.snapshot()
    sh = tuple(a.shape_[:-1]) + tuple(b.shape_[1:])
    na = a.ndim - 1
    k = promote(a.vd, b.vd)

    def base(idx):
        ia, ib = tuple(idx[:na]), tuple(idx[na:])
        return total(n, lambda m: tm.mul(ra(ia + (m,)), rb((m,) + ib)))
    return functional(sh, k, base)


def total(n, f):
    if issym(n):
        v = tm.fresh("m", I)
        return sumsimp(v, tm.const(0), n, f(v))
    s = tm.const(0)
    for i in range(n):
        s = tm.add(s, f(tm.const(i)))
    return s


def outer(a, b):
    a, b = lift(a).ravel(), lift(b).ravel()
    ra, rb = a.snapshot(), b.snapshot()
    return functional((a.shape_[0], b.shape_[0]), promote(a.vd, b.vd),
                      lambda idx: tm.mul(ra((idx[0],)), rb((idx[1],))))


def _axis(a, axis, one, kind):
    """reduction of one axis (or all)"""
    if axis is None:
        def go(idx, ds):
            if not ds:
                return rd(tuple(idx))
            return one(ds[0], lambda m: go(idx + [m], ds[1:]))
        rd = a.snapshot()
        return go([], list(a.shape_))
    if isinstance(axis, T):
        axis = axis.__index__()
    if isinstance(axis, tuple):
        raise Unsupported("reduction over several axes")
    axis = int(axis) % a.ndim
    rd = a.snapshot()
    return functional(a.shape_[:axis] + a.shape_[axis + 1:], kind,
                      lambda idx: one(a.shape_[axis], lambda m: rd(tuple(idx[:axis]) + (m,) + tuple(idx[axis:]))))


def sum_(a, axis=None):
    a = lower(a)
    if not isinstance(a, SArr):
        if not hasattr(a, "sym_len"):
            return NP.sum(a, axis)
        a = array(a, None)
    if a.bag is not None and axis is None and a.ndim == 1 and not isinstance(a.bag[0], tuple):
        segs, pos, f = a.bag
        s = tm.const(0)
        for bs, g, it in walk(segs):
            s = tm.add(s, hide(bs, g, f(it, ())))
        return s
    return _axis(a, axis, lambda n, f: total(n, lambda m: tm._num(f(m))), "i" if a.vd == "b" else a.vd)


def mean(a, axis=None):
    a = lower(a)
    if not isinstance(a, SArr):
        return NP.mean(a, axis)
    n = a.size if axis is None else a.shape_[int(axis)]
    return sum_(a, axis)/tm._co(n)


def prod(a, axis=None):
    raise Unsupported("product of symbolic length")


def extreme(a, axis, which):
    a = lower(a)
    if not anysym(a):
        return getattr(NP, which)(a, axis)
    if axis is not None:
        raise Unsupported("extreme along an axis of symbolic length")
    if not isinstance(a, SArr):
        a = array(a, None)
    t = tm.app("%s#%d" % (which, next(_serial)), loopvars(), SORT[a.vd])
    n = a.size
    side(tm.lt(tm.const(0), tm._co(n)))
    return t


def quant(a, axis, which):
    a = lower(a)
    if not isinstance(a, SArr):
        if not hasattr(a, "sym_len"):
            return getattr(NP, which)(a, axis)
        if isinstance(a, VList) and a.mode == "segs":
            fs = [(existsn(bs, tm.and_(g, symnp._bo(x)))) if which == "any" else
                  tm.not_(existsn(bs, tm.and_(g, tm.not_(symnp._bo(x))))) for bs, g, x in walk(a.segs)]
            return tm.or_(*fs) if which == "any" else tm.and_(*fs)
        a = array(a, None)

    def one(n, f):
        if not issym(n):
            fs = [symnp._bo(f(tm.const(i))) for i in range(n)]
            return tm.or_(*fs) if which == "any" else tm.and_(*fs)
        v = tm.fresh("m", I)
        b = symnp._bo(f(v))
        return tm.exists(v, tm.const(0), n, b) if which == "any" else tm.forall(v, tm.const(0), n, b)
    return _axis(a, axis, one, "b")


def where1(c):
    return where_(c)


def where3(c, a, b):
    c, a, b = (lower(x) for x in (c, a, b))
    if not anysym(c, a, b):
        return NP.where(c, a, b)
    xs = [x if isinstance(x, (SArr, JArr)) else NP.asarray(x) for x in (c, a, b)]
    sh = broadcast_shapes([tuple(x.shape) for x in xs])
    rds = [reader(x, sh) for x in xs]
    r = functional(sh, promote(xs[1].vd, xs[2].vd),
                   lambda idx: tm.ite(symnp._bo(rds[0](idx)), tm._co(rds[1](idx)), tm._co(rds[2](idx))))
    sameorder(r, *xs)
    return r


@lifted("concatenate")
def joined_rows(xs, axis):
    """the rows of an array, or of a list of unknown length, one after the other"""
    a = lift(xs) if isinstance(xs, SArr) else xs.toarr()
    if not isinstance(a, (SArr, JArr)) or a.ndim < 2 or axis != 0:
        raise Unsupported("concatenation of a symbolic number of arrays")
    n = a.shape[0]
    if tm.eq(tm._co(n), tm.const(0)):
        raise ValueError("need at least one array to concatenate")
    return a.reshape((prod_dims(list(a.shape[:2])),) + tuple(a.shape[2:])).copy()


def concatenate(xs, axis=0):
    if isinstance(xs, SArr) or (isinstance(xs, VList) and xs.mode != "list"):
        return joined_rows(xs, int(axis))
    xs = [lift(x) for x in xs]
    axis = int(axis)
    nd = xs[0].ndim
    if axis < 0:
        axis += nd
    if any(x.ndim != nd for x in xs):
        raise ValueError("all the input array dimensions except for the concatenation axis must match")
    for x in xs[1:]:
        for i in range(nd):
            if i != axis and not deq(x.shape_[i], xs[0].shape_[i]):
                raise ValueError("all the input array dimensions except for the concatenation axis must match")
    k = promote(*[x.vd for x in xs])
    offs, n = [], 0
    for x in xs:
        offs.append(n)
        n = dim(tm.add(tm._co(n), tm._co(x.shape_[axis])))
    rds = [x.snapshot() for x in xs]

    def base(idx):
        i = tm._co(idx[axis])
        r = None
        for x, off, rd in reversed(list(zip(xs, offs, rds))):
            if r is not None:
                c = tm.lt(i, tm.add(tm._co(off), tm._co(x.shape_[axis])))
                if c is tm.FALSE:
                    continue
            j = tm.add(i, tm.neg(tm._co(off)))
            if i.op == "const" and not issym(off) and int(i.args[0]) < off:
                continue
            v = cast(rd(tuple(idx[:axis]) + (tm._normint(j),) + tuple(idx[axis + 1:])), k)
            r = v if r is None else tm.ite(c, v, r)
        return r
    sh = list(xs[0].shape_)
    sh[axis] = n
    return functional(sh, k, base)


def add_at(a, ix, v, sign=1):
    """np.add.at: every pair of a position and a value counts"""
    if not isinstance(a, SArr):
        if not isinstance(a, JArr):
            raise TypeError("first operand must be array")
        tmp = SArr(Buf(a.shape, a.vd, jreader(a.copy())))
        add_at(tmp, ix, v, sign)
        symnp._write_guard(a)
        a[...] = lower(functional(tmp.shape_, tmp.vd, tmp.snapshot()))
        return
    v = lower(v)
    if isinstance(v, (list, tuple)) or hasattr(v, "sym_len") and not isinstance(v, SArr):
        v = lift(v)
    r = flat_rows(ix)
    if r is not None:
        # positions from a flattened matrix: by rows of the matrix
        if not isinstance(v, (SArr, JArr)) or v.ndim == 0:
            ix = functional(r[1:3], ix.vd, r[3])
        else:
            q = flat_rows(v)
            if q is not None and samedim(dim(q[1]), dim(r[1])) and samedim(dim(q[2]), dim(r[2])):
                ix = functional(r[1:3], ix.vd, r[3])
                v = functional(q[1:3], v.vd, q[3])
    items = norm_index(ix, a.shape_)
    if sign < 0:
        v = -v
    k = v.vd if isinstance(v, (SArr, JArr)) else kind_of(tt(v))
    if symnp.ORDER.index(k) > symnp.ORDER.index(a.vd):
        raise TypeError("Cannot cast ufunc 'add' output from dtype(%s) to dtype(%s) with casting rule "
                        "'same_kind'" % (k, a.vd))
    if any(q[0] in ("arr", "mask") for q in items):
        shape, m, enum, bag = a._fancy_region(items)
        if enum is not None:
            raise Unsupported("ufunc.at through an enumeration of a set")
    else:
        shape, m = a._region(items)
        bag = None
    a._store([dim(d) for d in shape], m, v, False, None, bag, add=True)


def flat_rows(x):
    """(state, rows, columns, reader) of a flattened matrix"""
    if isinstance(x, SArr) and x.ndim == 1:
        r = getattr(x, "rows", None)
        if r is not None and r[0] is x.buf.state:
            return r
    return None


def cumsum(a, axis=None):
    a = lift(a)
    k = "i" if a.vd == "b" else a.vd
    num = tm._num
    if axis is None and a.ndim == 1 and getattr(a, "rows", None) is not None and a.rows[0] is a.buf.state:
        # of a flattened matrix: whole rows before, then the row itself
        _, n, m, rd = a.rows
        mm = tm._co(m)

        def base(idx):
            q, r = split(tm._co(idx[0]), mm)
            w, j = tm.fresh("w", I), tm.fresh("j", I)

            def row(i, hi):
                if not issym(m):
                    t = tm.const(0)
                    for e in range(m):
                        x = num(rd((i, tm.const(e))))
                        t = tm.add(t, x if hi is None else tm.ite(tm.le(tm.const(e), hi), x, tm.const(0)))
                    return t
                return sumsimp(j, tm.const(0), mm if hi is None else tm.add(hi, tm.const(1)), num(rd((i, j))))
            return tm.add(sumsimp(w, tm.const(0), q, row(w, None)), row(q, r))
        return functional(a.shape_, k, base)
    if axis is None and a.ndim != 1:
        return cumsum(a.ravel())
    axis = 0 if axis is None else int(axis) % a.ndim
    rd = a.snapshot()

    def base1(idx):
        j = tm.fresh("j", I)
        return sumsimp(j, tm.const(0), tm.add(tm._co(idx[axis]), tm.const(1)),
                       num(rd(tuple(idx[:axis]) + (j,) + tuple(idx[axis + 1:]))))
    return functional(a.shape_, k, base1)


def selfsegs(a, n):
    """the segments of a selected 1-d array with n elements"""
    b = a.mbag if isinstance(a, SArr) and a.ndim == 1 else None
    if b is None or not samedim(dim(n), a.shape_[0]):
        return None
    return b[0][0], lambda it: b[1]({0: it}, (tm.const(0),))


def pairs(a, n, outer):
    """repeat / tile of a selected array by its own length"""
    sf = selfsegs(a, n)
    if sf is None:
        return None
    segs, f = sf
    new = bind_segs(segs, lambda x: bind_segs(segs, lambda y: [f(x if outer else y)]))
    r = functional((prod_dims([a.shape_[0], dim(n)]),), a.vd,
                   lambda idx, nm="pairs#%d" % next(_serial), ks=loopvars(): tm.app(nm, ks + tuple(idx), SORT[a.vd]))
    r.bag = (new, 0, lambda it, idx: it)
    return r


def tile(a, reps):
    a = lift(a)
    if isinstance(reps, (T, int)) and a.ndim != 1:
        reps = (1,)*(a.ndim - 1) + (reps,)
    if isinstance(reps, (tuple, list)):
        reps = [dim(q) for q in list.__iter__(reps)] if isinstance(reps, list) else [dim(q) for q in reps]
        k = max(len(reps), a.ndim)
        reps = [1]*(k - len(reps)) + reps
        sh = [1]*(k - a.ndim) + list(a.shape_)
        rd, off = a.snapshot(), k - a.ndim
        return functional(tuple(prod_dims([q, d]) for q, d in zip(reps, sh)), a.vd,
                          lambda idx: rd(tuple(q if not issym(r) and r == 1 else split(tm._co(q), tm._co(d))[1]
                                               for q, r, d in zip(idx[off:], reps[off:], sh[off:]))))
    if not isinstance(reps, (T, int)) or a.ndim != 1:
        raise Unsupported("tile")
    r = pairs(a, reps, False)
    if r is not None:
        return r
    rd, n = a.snapshot(), tm._co(a.shape_[0])
    return functional((prod_dims([dim(reps), a.shape_[0]]),), a.vd,
                      lambda idx: rd((split(tm._co(idx[0]), n)[1],)))


@lifted("hstack")
def hstack(xs):
    if isinstance(xs, SArr) or (isinstance(xs, VList) and xs.mode != "list"):
        a = lift(xs) if isinstance(xs, SArr) else xs.toarr()
        if a.ndim != 2:
            raise Unsupported("hstack of a symbolic number of arrays")
        return joined_rows(a, 0)
    xs = [lift(x) for x in xs]
    return concatenate(xs, 0 if xs[0].ndim == 1 else 1)


@lifted("vstack")
def vstack(xs):
    if isinstance(xs, SArr) or (isinstance(xs, VList) and xs.mode != "list"):
        a = lift(xs) if isinstance(xs, SArr) else xs.toarr()
        if a.ndim > 2:
            return joined_rows(a, 0)
        if tm.eq(tm._co(a.shape[0]), tm.const(0)):
            raise ValueError("need at least one array to concatenate")
        return a.copy() if a.ndim == 2 else a.reshape(a.shape[0], 1)
    return concatenate([atleast_2d(lift(x)) for x in xs], 0)


@lifted("column_stack")
def column_stack(xs):
    xs = [lift(x) for x in xs]
    return concatenate([x.reshape(x.shape_[0], 1) if x.ndim == 1 else x for x in xs], 1)


@lifted("stack")
def stack(xs, axis=0):
    if (isinstance(xs, SArr) or (isinstance(xs, VList) and xs.mode != "list")) and int(axis) == 0:
        a = lift(xs) if isinstance(xs, SArr) else xs.toarr()
        if tm.eq(tm._co(a.shape[0]), tm.const(0)):
            raise ValueError("need at least one array to stack")
        return a.copy()
    xs = [lift(x) for x in xs]
    for x in xs[1:]:
        if x.ndim != xs[0].ndim or not all(deq(a, b) for a, b in zip(x.shape_, xs[0].shape_)):
            raise ValueError("all input arrays must have the same shape")
    axis = int(axis)
    nd = xs[0].ndim
    if axis < 0:
        axis += nd + 1

    def new(x):
        amap = x.amap

        def m(idx):
            idx = tuple(idx[:axis]) + tuple(idx[axis + 1:])
            return amap(idx) if amap else idx
        return SArr(x.buf, x.shape_[:axis] + (1,) + x.shape_[axis:], m)
    return concatenate([new(x) for x in xs], axis)


def meshgrid(xs, indexing):
    xs = [lift(x) for x in xs]
    if len(xs) != 2:
        raise Unsupported("meshgrid")
    a, b = xs
    ra, rb = a.snapshot(), b.snapshot()
    if indexing == "xy":
        sh = (b.shape_[0], a.shape_[0])
        return [functional(sh, a.vd, lambda idx: ra((idx[1],))), functional(sh, b.vd, lambda idx: rb((idx[0],)))]
    sh = (a.shape_[0], b.shape_[0])
    return [functional(sh, a.vd, lambda idx: ra((idx[0],))), functional(sh, b.vd, lambda idx: rb((idx[1],)))]


class MGrid:
    """np.mgrid"""
    def __getitem__(self, key):
        single = not isinstance(key, tuple)
        keys = (key,) if single else key
        ax = []
        for s in keys:
            st = s.step
            n = _cstep(st)
            if n is not None:
                ax.append(NP.linspace(s.start, s.stop, n))
            else:
                ax.append(NP.arange(0 if s.start is None else s.start, s.stop, *([st] if st is not None else [])))
        if single:
            return ax[0]
        g = NP.meshgrid(*ax, indexing="ij")
        return tuple(g)


def _cstep(st):
    """number of points of a complex step"""
    if isinstance(st, complex):
        return int(abs(st))
    if isinstance(st, T) and st.op == "app" and st.args[0] == "I*":
        from vf.poly import poly
        return dim(symnp.trunc(st.args[1])) if st.args[1].sort != I else dim(st.args[1])
    return None


def repeat(a, n, axis=None):
    a = lift(a)
    n = dim(n)
    if a.ndim != 1 and axis is None:
        return repeat(a.ravel(), n)
    if a.ndim != 1:
        if not isinstance(axis, int):
            raise Unsupported("repeat")
        axis %= a.ndim
        rd, nn = a.snapshot(), tm._co(n)
        return functional(tuple(prod_dims([d, n]) if i == axis else d for i, d in enumerate(a.shape_)), a.vd,
                          lambda idx: rd(tuple(split(tm._co(q), nn)[0] if i == axis else q for i, q in enumerate(idx))))
    r = pairs(a, n, True)
    if r is not None:
        return r
    rd = a.snapshot()
    nn = tm._co(n)
    return functional((prod_dims([a.shape_[0], n]),), a.vd, lambda idx: rd((split(tm._co(idx[0]), nn)[0],)))


def ix_(*xs):
    n = len(xs)
    out = []
    for i, x in enumerate(xs):
        x = lift(x)
        out.append(x.reshape(*[x.shape_[0] if i == j else 1 for j in range(n)]))
    return tuple(out)


def unique(a):
    a = lift(a)
    s = SSet.of(a.ravel() if a.ndim != 1 else a)
    return s.sorted().arr


def sorted_(x, key, reverse):
    if isinstance(x, VSet):
        x = x.view()
    if isinstance(x, SSet) and key is None and not reverse:
        return x.sorted()
    raise Unsupported("sorting a symbolic sequence")


# ------------------------------------------------------------------- sparse
def LOOPING():
    from vf import loader
    return bool(loader.LOOPS)


class CooMat:
    """scipy.sparse matrix as the sum of its triplets"""
    def __init__(self, trips, shape, fmt):
        self.trips, self.shape, self.fmt = trips, tuple(shape), fmt
        self.serial = next(_serial)

    def entry(self, i, j):
        s = tm.const(0)
        for bs, g, (r, c, v) in self.trips:
            bs, g, (r, c, v) = freshen(bs, g, [r, c, v])
            b2, conds, val = solve(bs, g, (tm._co(r), tm._co(c)), tt(v), (i, j))
            if b2 is None:
                continue
            s = tm.add(s, hide(b2, tm.and_(*conds), val))
        return s

    def tocsr(self, copy=False):
        return CooMat(self.trips, self.shape, "csr")

    def tocsc(self, copy=False):
        return CooMat(self.trips, self.shape, "csc")

    def tocoo(self, copy=False):
        return CooMat(self.trips, self.shape, "coo")

    def copy(self):
        return self

    def toarray(self):
        return functional(self.shape, "c" if any(kind_of(tt(v)) == "c" for _, _, (r, c, v) in self.trips) else "f",
                          lambda idx: self.entry(tm._co(idx[0]), tm._co(idx[1])))

    todense = toarray

    def sum_duplicates(self):
        pass

    def max(self, axis=None):
        if axis is not None or LOOPING():
            raise Unsupported("sparse max")
        return tm.app("spmax", [tm.const(self.serial)], R)

    def dot(self, x):
        if isinstance(x, CooMat):
            raise Unsupported("product of sparse matrices")
        x = lift(x)
        if x.ndim not in (1, 2):
            raise Unsupported("sparse product")
        if not deq(self.shape[1], x.shape_[0]):
            raise ValueError("dimension mismatch")
        rd, trips = x.snapshot(), self.trips

        def base(idx):
            s = tm.const(0)
            for bs, g, (r, c, v) in trips:
                bs, g, (r, c, v) = freshen(bs, g, [r, c, v])
                t = tm.mul(tt(v), rd((tm._co(c),) + tuple(idx[1:])))
                b2, conds, val = solve(bs, g, (tm._co(r),), t, (tm._co(idx[0]),))
                if b2 is not None:
                    s = tm.add(s, hide(b2, tm.and_(*conds), val))
            return s
        ks = [x.vd] + ["c" if any(kind_of(tt(v)) == "c" for _, _, (r, c, v) in trips) else "f"]
        return functional((self.shape[0],) + tuple(x.shape_[1:]), promote(*ks), base)

    __matmul__ = dot

    def __rmatmul__(self, x):
        return self.transpose().dot(x) if lift(x).ndim == 1 else self.transpose().dot(lift(x).T).T

    def transpose(self):
        return CooMat([(bs, g, (c, r, v)) for bs, g, (r, c, v) in self.trips], (self.shape[1], self.shape[0]),
                      {"csr": "csc", "csc": "csr"}.get(self.fmt, self.fmt))

    T = property(transpose)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("sparse matrix attribute %s" % k)


def mkcoo(arg, shape=None, dtype=None, **kw):
    if isinstance(arg, CooMat):
        return arg.tocoo()
    if not isinstance(arg, tuple) or len(arg) != 2 or not isinstance(arg[1], (tuple, list)) or shape is None:
        raise Unsupported("coo_matrix construction")
    vals, (rows, cols) = arg
    for d in shape:
        d = dim(d)
        if issym(d):
            side(tm.le(tm.const(0), d))
    segs = align([trip_segs(x) for x in (rows, cols, vals)])
    items = [list(walk(s)) for s in segs]
    if len({len(i) for i in items}) != 1:
        raise Unsupported("triplet lists of different structure")
    trips = []
    for a, b, c in zip(*items):
        m = None
        base = a
        xs = [a[2]]
        for o in (b, c):
            if len(o[0]) != len(base[0]):
                raise Unsupported("triplet lists of different structure")
            m = {}
            for (v, lo, hi), (w, l2, h2) in zip(base[0], o[0]):
                m[w] = v
                if not deqt(tm.subst(tm._co(l2), m), lo) or not deqt(tm.subst(tm._co(h2), m), hi):
                    raise Unsupported("triplet lists of different structure")
            if tm.subst(o[1], m) is not base[1]:
                raise Unsupported("triplet lists with different guards")
            xs.append(map_item(o[2], lambda t: tm.subst(t, m)))
        for x, d in zip(xs[:2], shape):
            x = tm._co(x)
            side_forall(base[0], base[1], tm.and_(tm.le(tm.const(0), x), tm.lt(x, tm._co(dim(d)))))
        if dtype is not None:
            xs[2] = cast(tt(xs[2]), norm_dtype(dtype))
        trips.append((base[0], base[1], tuple(xs)))
    return CooMat(trips, [dim(d) for d in shape], "coo")


def align(lists):
    """lists of the same length, piecewise constant ones in the structure of the others"""
    if len({len(x) for x in lists}) != 1:
        return lists
    out = [[] for _ in lists]
    for row in zip(*lists):
        row = list(row)
        if all(isinstance(s, Seg) for s in row):
            const = [len(s.alts) == 1 and s.alts[0][0] is tm.TRUE and len(s.alts[0][1]) == 1
                     and isinstance(tm._co(s.alts[0][1][0]), T) and not tm.depends(tm._co(s.alts[0][1][0]), s.v)
                     for s in row]
            model = next((s for s, c in zip(row, const) if not c), None)
            if model is not None:
                n = tm.const(0)
                for bs, g, x in walk([model]):
                    n = tm.add(n, count(bs, g))
                for k, s in enumerate(row):
                    if const[k] and deq(dim(tm.add(s.hi, tm.neg(s.lo))), dim(n)) and known(tm.le(s.lo, s.hi)):
                        row[k] = map_segs([model], lambda it, v=s.alts[0][1][0]: v)[0]
            if all(len(s.alts) == len(row[0].alts) and deqt(s.lo, row[0].lo) and deqt(s.hi, row[0].hi) for s in row):
                w = tm.fresh("w", I)
                row = [s.rename(w) for s in row]
                if all(a[0] is b[0] for s in row for a, b in zip(s.alts, row[0].alts)):
                    alts = [[] for _ in row]
                    for qs in zip(*(s.alts for s in row)):
                        for k, xs in enumerate(align([list(q[1]) for q in qs])):
                            alts[k].append((qs[0][0], xs))
                    row = [Seg(w, row[0].lo, row[0].hi, a) for a in alts]
        for k, s in enumerate(row):
            out[k].append(s)
    return out


def deqt(a, b):
    a, b = tm._co(a), tm._co(b)
    return a is b or tm.eq(a, b) is tm.TRUE


def trip_segs(x):
    """triplet component as segments of scalars"""
    if isinstance(x, VList) or isinstance(x, (SArr, SRange)):
        segs = segs_of(x)
    elif isinstance(x, JArr):
        segs = list(x)
    else:
        segs = list(x)
    out = []

    def go(xs):
        r = []
        for s in xs:
            if isinstance(s, Seg):
                r.append(Seg(s.v, s.lo, s.hi, [(g, go(ys)) for g, ys in s.alts]))
            elif isinstance(s, (JArr, SArr)):
                raise Unsupported("triplet of arrays")
            else:
                r.append(s)
        return r
    return go(segs)


class _Sp(type):
    """the sparse classes: construction, type() and isinstance"""
    def __instancecheck__(cls, x):
        return isinstance(x, CooMat) and x.fmt == cls.fmt

    def __call__(cls, arg, shape=None, **kw):
        if isinstance(arg, LilMat):
            arg = arg.a
        if not isinstance(arg, CooMat):
            if isinstance(arg, (SArr, JArr)):
                a = lift(arg)
                rd = a.snapshot()
                v, w = tm.fresh("r", I), tm.fresh("c", I)
                arg = CooMat([(((v, tm.const(0), tm._co(a.shape_[0])), (w, tm.const(0), tm._co(a.shape_[1]))), tm.TRUE,
                               (v, w, rd((v, w))))], a.shape_, "coo")
            else:
                arg = mkcoo(arg, shape, **kw)
        return CooMat(arg.trips, arg.shape, cls.fmt)


class coo(metaclass=_Sp):
    fmt = "coo"


class csr(metaclass=_Sp):
    fmt = "csr"


class csc(metaclass=_Sp):
    fmt = "csc"


def issparse(x):
    return isinstance(x, (CooMat, LilMat))


class LilMat:
    """scipy.sparse.lil_matrix, dok_matrix: a matrix whose entries are read and stored"""
    def __init__(self, arg, dtype=None, **kw):
        if isinstance(arg, LilMat):
            self.a = arg.a.copy()
        elif isinstance(arg, CooMat):
            self.a = arg.toarray()
        elif isinstance(arg, tuple) and len(arg) == 2 and not any(isinstance(x, (tuple, list, SArr, JArr)) for x in arg):
            self.a = lift(NP.zeros(arg, dtype=dtype or float))
        else:
            self.a = lift(NP.asarray(arg)).copy()
        if self.a.ndim != 2:
            raise Unsupported("lil_matrix construction")

    shape = property(lambda self: self.a.shape)

    @staticmethod
    def _ok(ix):
        if not isinstance(ix, tuple) or len(ix) != 2 or not all(
                isinstance(x, numbers.Integral) or isinstance(x, T) and x.sort == I for x in ix):
            raise Unsupported("index of a lil_matrix")
        return ix

    def __getitem__(self, ix):
        return self.a[self._ok(ix)]

    def __setitem__(self, ix, v):
        ix = self._ok(ix)
        if isinstance(v, (SArr, JArr, list, tuple)):
            raise Unsupported("array stored in a lil_matrix")
        self.a[ix] = v

    def toarray(self):
        return self.a.copy()

    def tocsr(self, copy=False):
        return csr(self.a)

    def tocsc(self, copy=False):
        return csc(self.a)

    def tocoo(self, copy=False):
        return coo(self.a)

    def copy(self):
        return LilMat(self)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("lil_matrix.%s" % k)


def ndenumerate(a):
    """positions and values, row by row"""
    p = product([SRange(n) for n in a.shape])
    rd = lift(a).snapshot()
    return VList.ofsegs(map_segs(p.segs, lambda ix: (ix, rd(tuple(tm._co(i) for i in ix)))))


def solve_stub(name, a, b):
    if symnp.SOLVE[0] is None:
        raise Unsupported("%s without a contract" % name)
    return symnp.SOLVE[0](name, a, b)


def arrays_in(*xs):
    return [x for x in xs if isinstance(x, SArr)]
