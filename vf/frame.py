"""Frame conditions (C21), generated for every call a contract makes: the
arguments hold what they held before, no module-level object, default argument
or closure is written, and the result shares no memory with them."""
import types
import numpy as _n
from vf import terms as tm
from vf.symnp import JArr


def deep(x, seen=None, out=None, funcs=True):
    """arrays (numpy-like) reachable from a value"""
    from vf import symarr
    seen = set() if seen is None else seen
    out = [] if out is None else out
    if id(x) in seen:
        return out
    seen.add(id(x))
    if isinstance(x, (JArr, symarr.SArr, _n.ndarray)):
        out.append(x)
    elif isinstance(x, symarr.VList):
        out.append(x)
    elif isinstance(x, symarr.VSet):
        out.append(x.lst)
    elif isinstance(x, dict):
        for k in dict.values(x):
            deep(k, seen, out, funcs)
    elif isinstance(x, (list, tuple, set, frozenset)):
        out.append(x) if isinstance(x, (list, set)) else None
        for k in (list.__iter__(x) if isinstance(x, list) else x):
            deep(k, seen, out, funcs)
    elif isinstance(x, types.FunctionType) and funcs:
        for k in (x.__defaults__ or ()):
            deep(k, seen, out, funcs)
        for k in (x.__kwdefaults__ or {}).values():
            deep(k, seen, out, funcs)
        for c in x.__closure__ or ():
            try:
                deep(c.cell_contents, seen, out, funcs)
            except ValueError:
                pass
        deep(x.__dict__, seen, out)
        if hasattr(x, "__wrapped__"):
            deep(x.__wrapped__, seen, out)
    return out


def root(a):
    while a.base is not None and isinstance(a.base, _n.ndarray):
        a = a.base
    return a


def store(x):
    """identity of the memory behind an array or list"""
    from vf import symarr
    if isinstance(x, symarr.SArr):
        b = x.buf
        while isinstance(b, symarr.MaybeCopy):      # may share it: taken to
            b = b.src
        return id(b)
    if isinstance(x, _n.ndarray):
        return id(root(x))
    return id(x)


def mark(x):
    """what must not change: a fingerprint of a value (deep)"""
    from vf import symarr
    seen = {}

    def go(x):
        if id(x) in seen:
            return ("again", seen[id(x)])
        if isinstance(x, (int, float, str, bool, complex, type(None), bytes)):
            return ("v", repr(x))
        if isinstance(x, tm.T):
            return ("t", x.id)
        seen[id(x)] = len(seen)
        if isinstance(x, symarr.SArr):
            b = x.buf
            return ("s", id(b), id(b.state[0]), tuple(id(e) for e in b.state[1]))
        if isinstance(x, _n.ndarray):
            if x.dtype == object:
                return ("a", x.shape, tuple(go(i) for i in _n.asarray(x).reshape(-1)))
            return ("a", x.shape, _n.asarray(x).tobytes())
        if isinstance(x, symarr.VList):
            return ("V", repr(x.snap()))
        if isinstance(x, symarr.VSet):
            return ("VS", repr(x.lst.snap()))
        if isinstance(x, dict):
            return ("d", tuple((repr(k), go(v)) for k, v in dict.items(x)))
        if isinstance(x, (list, tuple)):
            return ("l", tuple(go(v) for v in (list.__iter__(x) if isinstance(x, list) else x)))
        if isinstance(x, (set, frozenset)):
            return ("st", tuple(sorted(repr(v) for v in x)))
        if isinstance(x, types.FunctionType) and x.__globals__.get("__name__", "").startswith(("vf.", "contracts.")):
            return ("stub", id(x))      # a contract standing in for a callee
        if isinstance(x, types.FunctionType):
            cl = []
            for c in x.__closure__ or ():
                try:
                    cl.append(go(c.cell_contents))
                except ValueError:
                    cl.append("empty")
            return ("f", id(x), go(x.__defaults__), go(x.__kwdefaults__), tuple(cl), go(x.__dict__))
        return ("o", id(x))
    return go(x)


def statics(world):
    """module-level state"""
    out = {}
    for name, m in list(world.mods.items()):
        for k, v in list(vars(m).items()):
            if k.startswith("__") or isinstance(v, types.ModuleType) or "%s.%s" % (name, k) in world.stubs:
                continue
            out[(name, k)] = v
    return out


class Probe:
    """module whose functions, when a contract calls them, record frame items"""
    def __init__(self, world, mod):
        self.__dict__.update(_w=world, _m=mod)

    def __getattr__(self, k):
        f = getattr(self._m, k)
        if not isinstance(f, types.FunctionType):
            return f
        w = self._w

        def call(*a, **kw):
            return watch(w, "%s.%s" % (self._m.__name__.split(".")[-1], k), f, a, kw)
        call.__wrapped__ = f
        return call


def snapshot(x):
    from vf import symarr
    if isinstance(x, symarr.SArr):
        return (x, x.snapshot(), x.shape)
    if isinstance(x, _n.ndarray):
        return (x, _n.array(x, copy=True), x.shape)
    if isinstance(x, symarr.VList):
        return (x, repr(x.snap()), None)
    return (x, list(x) if isinstance(x, list) else set(x), None)


def watch(world, name, f, a, kw):
    if getattr(world, "watching", False):
        return f(*a, **kw)
    from vf import symarr
    world.watching = True
    given = [snapshot(x) for x in deep([list(a), kw], funcs=False)[1:]]
    before = {k: mark(v) for k, v in statics(world).items()}
    try:
        r = f(*a, **kw)
    finally:
        world.watching = False
    items = []
    for x, s, shape in given:
        if isinstance(x, symarr.SArr):
            ix = [tm.fresh("x", tm.I) for _ in shape]
            fs = [q for i, d in zip(ix, shape) for q in (tm.le(tm.const(0), i), tm.lt(i, tm._co(d)))]
            g, w = x.at(*ix), tm._co(s(tuple(ix)))
            items.append(("argument of %s" % name, True) if g is w else ("argument of %s" % name, g, w, fs))
        elif isinstance(x, _n.ndarray):
            old, new = s.reshape(-1), _n.asarray(x).reshape(-1)
            same = x.shape == shape
            for p, q in zip(old, new):
                if p is not q and not (tm._co(p) is not None and tm._co(p) is tm._co(q)) and same:
                    items.append(("argument of %s" % name, q, p))
            items.append(("shape of an argument of %s" % name, same))
        elif isinstance(x, symarr.VList):
            items.append(("list argument of %s" % name, repr(x.snap()) == s))
        else:
            items.append(("list argument of %s" % name, len(x) == len(s) and
                          (x == s if isinstance(x, set) else all(p is q for p, q in zip(x, s)))))
    after = {k: mark(v) for k, v in statics(world).items() if k in before}
    for k, v in before.items():
        if after.get(k) != v:
            items.append(("%s.%s is written by %s" % (k + (name,)), False))
    mem = set()
    for v in statics(world).values():
        mem |= {store(x) for x in deep(v) if not isinstance(x, (list, set)) or isinstance(x, symarr.VList)}
    for x in deep(r):
        if store(x) in mem:
            items.append(("result of %s shares memory with module state" % name, False))
    world.frames.append(("; ".join(sorted({name})), items))
    return r
