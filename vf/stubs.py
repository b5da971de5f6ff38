"""Models of the other libraries the code imports: trusted contracts."""
import types
from vf import terms as tm, symnp
from vf.terms import T, Unsupported, R, I, B
from vf.symnp import _Missing


class Opaque:
    """a library object whose behaviour does not reach the checked results; every
    use is recorded in .calls"""
    def __init__(self, name, log):
        self.__dict__.update(_name=name, _log=log)
    wants_orig = False

    def __getattr__(self, k):
        if k.startswith("__") and k.endswith("__") or k == "slen" or k.startswith("sym_"):
            raise AttributeError(k)
        return Opaque(self._name + "." + k, self._log)

    def __setattr__(self, k, v):
        pass

    def __call__(self, *a, **k):
        self._log.append((self._name, a, k))
        return Opaque(self._name + "()", self._log)

    def __getitem__(self, k):
        return Opaque(self._name + "[]", self._log)

    def __setitem__(self, k, v):
        pass

    def __iter__(self):
        raise Unsupported("iterating over %s" % self._name)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __bool__(self):
        return True

    def __sub__(self, o):
        return Opaque(self._name + "-", self._log)
    __add__ = __radd__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __sub__

    def __format__(self, s):
        return "<opaque>"

    def __lt__(self, o):
        raise Unsupported("comparison of %s" % self._name)
    __gt__ = __le__ = __ge__ = __lt__


class Mod(types.SimpleNamespace):
    def __init__(self, _n, **k):
        super().__init__(**k)
        self._n = _n

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return _Missing(self._n + "." + k)


class Sys:
    stdout = Opaque("sys.stdout", [])
    stderr = Opaque("sys.stderr", [])
    maxsize = 2**63 - 1

    def __getattr__(self, k):
        return _Missing("sys." + k)

    def exit(self, *a):
        raise SystemExit(*a)


def module(world, name, fromlist):
    from vf import symarr
    log = world.__dict__.setdefault("liblog", [])
    top = name.split(".")[0]
    if name == "scipy.sparse":
        sp = Mod(name, coo_matrix=symarr.coo, coo_array=symarr.coo, csr_matrix=symarr.csr,
                 csr_array=symarr.csr, csc_matrix=symarr.csc, lil_matrix=symarr.LilMat,
                 lil_array=symarr.LilMat, dok_matrix=symarr.LilMat, issparse=symarr.issparse)
        return sp if fromlist else Mod("scipy", sparse=sp)
    if name == "scipy.sparse.linalg":
        la = Mod(name, spsolve=lambda a, b, **k: symarr.solve_stub("spsolve", a, b))
        return la if fromlist else Mod("scipy", sparse=Mod("scipy.sparse", linalg=la))
    if top == "scipy":
        return Mod(name)
    if top in ("matplotlib", "mpl_toolkits"):
        return Opaque(name, log)
    if top in ("datetime", "time"):
        return Opaque(name, log)
    if top == "sys":
        return Sys()
    if top == "warnings":
        return Opaque(name, log)
    if top == "contextlib":
        import contextlib
        return contextlib
    if top in ("easygui", "meshio"):
        raise ImportError("No module named %r" % name)
    if name in ("os", "os.path"):
        import posixpath
        pure = Mod("os.path", **{k: getattr(posixpath, k) for k in (
            "join", "normpath", "basename", "dirname", "split", "splitext", "sep", "commonpath", "isabs")})
        top = Mod("os", path=pure, sep="/", linesep="\n", fspath=lambda p: p)
        return pure if name == "os.path" and fromlist else top
    raise Unsupported("import " + name)
