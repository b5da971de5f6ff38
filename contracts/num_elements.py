"""Executable contracts, element level: C01-C09."""
import itertools
import math
import numpy as np
from vf.runtime import check, close, raises, Known
from contracts import spec, gen

FUN = {"tri3": "shape_tri3", "tri6": "shape_tri6", "quad4": "shape_quad4", "quad8": "shape_quad8",
       "quad9": "shape_quad9", "tet4": "shape_tet4", "hex8": "shape_hex8"}


@check("C01")
class shape_functions:
    def gen(env, rng, i):
        name = spec.ELEMS[i % len(spec.ELEMS)]
        d = spec.DIM[name]
        u = rng.random()
        if i < 7*12:
            grid = [r for r in spec.REF[name]] + [(0,)*d, (1,)*d, (-1,)*d]
            pt = [float(x) for x in grid[(i//7) % len(grid)]]
        elif u < .5:
            pt = [float(x) for x in rng.uniform(-1.5, 1.5, size=d)]
        elif u < .6:
            pt = [float(x) for x in rng.standard_normal(d)*10**rng.uniform(-6, 4)]
        else:
            pt = [env.fl(rng) for _ in range(d)]
        if rng.random() < .3:
            pt = [int(x) if x == int(x) else x for x in pt]
        elif rng.random() < .3:
            pt = [np.float64(x) for x in pt]
        return dict(name=name, pt=pt)

    def chk(env, name, pt):
        N, dN = getattr(env.fem, FUN[name])(*pt)
        f = [float(x) for x in pt]
        eN, edN = spec.shape(name, f)
        s = max(1.0, *[abs(x) for x in f])**4
        return close(N, np.array(eN, float), 1e-11, 1e-13*s, "N of %s at %s" % (name, f)) or \
            close(dN, np.array(edN, float), 1e-11, 1e-13*s, "dN of %s at %s" % (name, f))


@check("C02", weight=1)
class simplex_and_line_rules:
    def gen(env, rng, i):
        L = [("1d", n) for n in range(2, 11)] + [("tri", n) for n in range(1, 8)] + \
            [("tet", n) for n in range(1, 11)]
        return dict(rule=L[i][0], n=L[i][1]) if i < len(L) else None

    def chk(env, rule, n):
        f = {"1d": env.gau.gauss_1d, "tri": env.gau.gauss_tri, "tet": env.gau.gauss_tet}[rule]
        for kind in (int, np.int64):
            pts, wts = f(kind(n))
            pts, wts = np.asarray(pts, float), np.asarray(wts, float)
            if rule == "1d":
                pts = pts.reshape(-1, 1) if pts.ndim == 1 else pts
                if pts.shape != (n, 1):
                    return "gauss_1d(%d): %s points" % (n, pts.shape)
                deg, dim, tol = 2*n - 1, 1, 2e-14
            else:
                deg, dim, tol = n, (2 if rule == "tri" else 3), (5e-12 if rule == "tri" else 2e-14)
            if pts.ndim != 2 or pts.shape[1] != dim or wts.shape != (pts.shape[0],):
                return "gauss_%s(%d): points %s weights %s" % (rule, n, pts.shape, wts.shape)
            if rule == "1d":
                if (np.abs(pts) > 1).any():
                    return "point outside [-1,1]"
            elif (pts < 0).any() or (pts.sum(axis=1) > 1).any():
                return "gauss_%s(%d): point outside the simplex" % (rule, n)
            for m in itertools.product(range(deg + 1), repeat=dim):
                if sum(m) > deg:
                    continue
                q = float(np.sum(wts*np.prod(pts**np.array(m), axis=1)))
                if rule == "1d":
                    e = float(spec.mono_cube(m))
                else:
                    e = float(spec.mono_simplex(m)*math.factorial(dim))
                if not abs(q - e) <= tol:
                    return "gauss_%s(%d) integrates monomial %s to %r, exact %r" % (rule, n, m, q, e)
        return None


@check("C02", weight=1)
class tensor_rule:
    def gen(env, rng, i):
        L = [(n, d) for d in (1, 2, 3, 4) for n in range(2, 11) if n**d <= 1500] + [(n, None) for n in range(2, 11)]
        return dict(n=L[i][0], d=L[i][1]) if i < len(L) else None

    def chk(env, n, d):
        x, w = env.gau.gauss_1d(n)
        x, w = np.asarray(x).ravel(), np.asarray(w).ravel()
        P, W = env.gau.gauss_nd(n) if d is None else env.gau.gauss_nd(n, ndim=d)
        d = d or 2
        P, W = np.asarray(P), np.asarray(W)
        if P.shape != (n**d, d) or W.shape != (n**d,):
            return "gauss_nd(%d,%d): %s %s" % (n, d, P.shape, W.shape)
        want = sorted((tuple(p), math.prod(q)) for p, q in
                      zip(itertools.product(x.tolist(), repeat=d), itertools.product(w.tolist(), repeat=d)))
        got = sorted((tuple(p), q) for p, q in zip(P.tolist(), W.tolist()))
        return close(np.array([list(a) + [b] for a, b in got]), np.array([list(a) + [b] for a, b in want]),
                     1e-13, 1e-14, "gauss_nd(%d,%d)" % (n, d))


@check("C02", weight=.3)
class bad_orders:
    def gen(env, rng, i):
        vals = sorted(set(range(-12, 60)) | {v for v in env.ints if abs(v) < 10**6} | {100, 1000})
        bad = {"1d": [v for v in vals if not 2 <= v <= 10], "tri": [v for v in vals if not 1 <= v <= 7],
               "tet": [v for v in vals if not 1 <= v <= 10], "nd": [v for v in vals if not 2 <= v <= 10]}
        L = [(r, v) for r in bad for v in bad[r]]
        return dict(rule=L[i][0], n=L[i][1]) if i < len(L) else None

    def chk(env, rule, n):
        r = raises(ValueError, getattr(env.gau, "gauss_" + rule), n)
        return r and "gauss_%s(%d) %s" % (rule, n, r)


@check("C03")
class jacoper:
    def gen(env, rng, i):
        d = 2 + int(rng.random() < .4)
        name = [["tri3", "tri6", "quad4", "quad8", "quad9"], ["tet4", "hex8"]][d - 2]
        name = name[rng.integers(len(name))]
        u = rng.random()
        if u < .3:
            n = int(rng.integers(d + 1, 10))
            dN = rng.standard_normal((d, n))
            c = rng.standard_normal((n, d))*10**rng.uniform(-2, 2)
        else:
            pt = rng.uniform(0, .4, size=d)
            _, dN = spec.shape(name, [float(x) for x in pt])
            dN = np.array(dN, float)
            A = rng.standard_normal((d, d))
            if rng.random() < .3:
                A = np.diag(rng.choice([-1.0, 1.0, 2.0, .5], size=d))
            c = np.array(spec.REF[name], float) @ A.T
            n = len(c)
            if rng.random() < .4:
                c = c + .1*rng.standard_normal(c.shape)
        t = rng.random()
        det = np.linalg.det(dN @ c)
        if t < .5 and det != 0:
            f = rng.choice([0.5e-8, 0.9e-8, 2e-8, 3e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2, 1.0, 0.1,
                            10.0, 100.0, 1e4, 1e-9, 1e-12])
            f *= rng.choice([1.0, 1.0, 1.0, -1.0])
            if rng.random() < .25 and env.odd_floats:
                f = env.odd_floats[rng.integers(len(env.odd_floats))]*rng.choice([1, .99, 1.01, -1])
            if f == 0:
                f = 1.0
            c = c.copy()
            if (f > 0) != (det > 0):
                c[:, 0] *= -1
            c = c*abs(f/det)**(1/d)
        elif t < .57 and det > 0:       # slender
            f = 10**rng.uniform(-7, 5, size=d)
            c = c*f*(10**rng.uniform(-7.5, 1)/abs(det*np.prod(f)))**(1/d)
        elif t < .63:
            c = c.copy()
            c[:, -1] = c[:, 0]      # collapsed
        elif t < .7:
            c = np.round(c*3).astype(int)
        elif t < .8:
            c = c + rng.uniform(-50, 50, size=d)
        elif t < .85:
            dN = np.round(dN*4).astype(int)
        return dict(dN=dN, c=c)

    def chk(env, dN, c):
        J = np.asarray(dN, float) @ np.asarray(c, float)
        det = float(np.linalg.det(J))
        noise = 1e-13*max(1.0, float(np.prod(np.sqrt((J**2).sum(axis=1)))))*(1 + np.abs(c).max()/(np.abs(J).max() + 1e-300))
        if det <= 0.99e-8 - noise:
            r = raises(ValueError, env.fem.jacoper, dN, c)
            return r and "Jacobian %r: %s" % (det, r)
        if det <= 1.01e-8 + noise:
            return None
        try:
            got, inv = env.fem.jacoper(dN, c)
        except ValueError as e:
            return "Jacobian %r refused: %s" % (det, e)
        k = np.linalg.cond(J)
        tol = 1e-11*max(1, k)*(1 + np.abs(c).max()/(np.abs(J).max() + 1e-300))
        if not abs(got - det) <= 1e-9*abs(det) + 100*noise:
            return "det = %r, expected %r" % (got, det)
        return close(inv, np.linalg.inv(J), tol, tol, "inverse Jacobian")


D2 = ["tri3", "tri6", "quad4", "quad8", "quad9"]
_F = {"tri3": "elast_tri3", "tri6": "elast_tri6", "quad4": "elast_quad4", "quad8": "elast_quad8",
      "quad9": "elast_quad9", "axi": "elast_axi_quad9", "tet4": "elast_tet4", "hex8": "elast_hex8"}


def ref_point(env, rng, name):
    d = spec.DIM[name]
    if name in ("tri3", "tri6", "tet4"):
        p = rng.dirichlet(np.ones(d + 1))[:d]
        if rng.random() < .2:
            p = np.array(spec.REF[name][rng.integers(len(spec.REF[name]))], float)
    else:
        p = rng.uniform(-1, 1, size=d)
        if rng.random() < .2:
            p = rng.choice([-1.0, 0.0, 1.0, .5], size=d)
    p = [float(x) for x in p]
    if rng.random() < .15:
        v = [f for f in env.floats if 0 <= f <= 1/d]
        if v:
            p[rng.integers(d)] = float(v[rng.integers(len(v))])
    if all(x == int(x) for x in p) and rng.random() < .5:
        p = [int(x) for x in p]
    return p


@check("C04")
class operators:
    def gen(env, rng, i):
        kind = ["2d", "axi", "3d"][i % 3]
        names = {"2d": D2, "axi": D2, "3d": ["tet4", "hex8"]}[kind]
        name = names[(i//3) % len(names)]
        c = gen.element_coords(env, rng, _F[name])
        pt = ref_point(env, rng, name)
        if kind == "axi":
            c = c.astype(float)
            m = float(np.dot(spec.shape(name, [float(x) for x in pt])[0], c[:, 0]))
            far = rng.uniform(.05, 3) if rng.random() < .65 else 10**(rng.uniform(-9, -1) if rng.random() < .7 else rng.uniform(2, 6))
            c[:, 0] += -m + np.ptp(c[:, 0])*far*(1 if rng.random() < .85 else -1)
        default = bool(name == "hex8" and rng.random() < .5)
        return dict(kind=kind, name=name, c=c, pt=pt, default=default)

    def chk(env, kind, name, c, pt, default):
        f = getattr(env.fem, FUN[name])
        fl = [float(x) for x in pt]
        cc = np.asarray(c, float)
        N, dN = spec.shape(name, fl)
        J = np.array(dN, float) @ cc
        det = np.linalg.det(J)
        if det < 1e-7:
            return None
        dx = np.linalg.solve(J, np.array(dN, float))
        if kind == "2d":
            got = env.fem.elast_diff_2d(*pt, c, f)
        elif kind == "3d":
            got = env.fem.elast_diff_3d(*pt, c) if default else env.fem.elast_diff_3d(*pt, c, f)
        else:
            x = float(np.dot(N, cc[:, 0]))
            if x < 0:
                r = raises(ValueError, env.fem.elast_diff_axi, *pt, c, f)
                return r and "radius %r: %s" % (x, r)
            got = env.fem.elast_diff_axi(*pt, c, f)
        H, B = spec.HB(kind, N, dx, cc)
        t = gen.cond_tol(cc)*max(1, np.linalg.cond(J))*1e-2
        th = 1e-13*float(np.abs(cc[:, 0]).max())/x if kind == "axi" else 0     # rounding of a small radius
        lab = "%s %s at %s: " % (kind, name, fl)
        return close(got[0], np.array(H, float), 1e-10, 1e-12, lab + "H") or \
            close(np.asarray(got[1])[:3 if kind != "3d" else 6], np.array(B, float)[:3 if kind != "3d" else 6],
                  max(1e-9, t), max(1e-10, t), lab + "B") or \
            close(got[1], np.array(B, float), max(1e-9, t, th), max(1e-10, t), lab + "B") or \
            close(got[2], det, 1e-9 + t, 0, lab + "det")


@check("C04", weight=.3)
class user_shape:
    """the operators use the interpolation function they are given"""
    def gen(env, rng, i):
        d = 2 + i % 2
        n = int(rng.integers(d + 1, 12))
        c = rng.uniform(-2, 2, size=(n, d))
        dN = rng.standard_normal((d, n))
        if np.linalg.det(dN @ c) < 0:
            dN[0] *= -1
        return dict(d=d, c=c, N=rng.standard_normal(n), dN=dN, pt=[float(x) for x in rng.uniform(-1, 1, size=d)],
                    axi=bool(rng.random() < .4))

    def chk(env, d, c, N, dN, pt, axi):
        J = dN @ c
        det = np.linalg.det(J)
        if det < 1e-3:
            return None
        seen = []

        def el(*a):
            seen.append(a)
            return N.copy(), dN.copy()
        kind = "3d" if d == 3 else "axi" if axi else "2d"
        if kind == "axi" and N @ c[:, 0] <= 1e-3:
            c = c.copy()
            return None
        g = {"3d": env.fem.elast_diff_3d, "2d": env.fem.elast_diff_2d, "axi": env.fem.elast_diff_axi}[kind]
        got = g(*pt, c, el)
        if any([float(x) for x in a] != pt for a in seen) or not seen:
            return "interpolation evaluated at %s instead of %s" % (seen, pt)
        H, B = spec.HB(kind, N, np.linalg.solve(J, dN), c)
        t = 1e-11*np.linalg.cond(J)
        return close(got[0], np.array(H, float), 1e-10, 1e-12, kind + " H") or \
            close(got[1], np.array(B, float), t, t, kind + " B") or close(got[2], det, 1e-9, 0, "det")


@check("C05")
class moduli:
    def gen(env, rng, i):
        E, nu, _ = env.mat(rng)
        if i % 7 == 6:
            E, nu = int(rng.integers(1, 10)), 0
        elif i % 11 == 3:
            E = int(rng.integers(1, 300))
        k = i % 3
        p = [E, nu]
        return dict(fn=["umat", "elast_mat_2d", "elast_mat_axi", "elast_mat"][i % 4],
                    p=p if k == 0 else tuple(p) if k == 1 else np.array(p))

    def chk(env, fn, p):
        C = getattr(env.fem, fn)(p)
        E, nu = float(p[0]), float(p[1])
        want = np.array({"umat": spec.C_plane_stress, "elast_mat": spec.C_solid}.get(fn, spec.C_four)(E, nu), float)
        return close(C, want, 1e-11, 1e-14, "%s(%r,%r)" % (fn, E, nu))


CF = list(spec.CONT)


def call_element(env, fname, c, p):
    with np.errstate(all="ignore"):
        return getattr(env.uel, fname)(c, p)


def prm(p):
    E, nu = float(p[0]), float(p[1])
    return E, nu, (float(p[2]) if len(p) > 2 else 1.0)


class element_base:
    def gen(env, rng, i):
        fname = CF[i % len(CF)]
        return dict(fname=fname, c=gen.element_coords(env, rng, fname), p=gen.params(env, rng, fname))

    @staticmethod
    def cmp(env, fname, c, p, which):
        E, nu, rho = prm(p)
        got = call_element(env, fname, c, p)[which]
        t = 2e-9 + gen.cond_tol(c)
        name = fname + (" stiffness" if which == 0 else " mass")
        if spec.CONT[fname][1] != "axi":
            want = spec.element_num(fname, c, E, nu, rho)[which]
            r = close(got, want, t, t, name)
            if r:
                return r
            return element_base.physics(fname, np.asarray(c, float), got, want, which, t)
        w1 = spec.element_num(fname, c, E, nu, rho, lambda x: x)[which]
        for f in (1.0, 2*np.pi):
            if close(got, f*w1, t, t, name) is None:
                return None
        w0 = spec.element_num(fname, c, E, nu, rho)[which]
        r = close(got, w0, t, t, name)
        if r is None:
            return Known("axi-radius", "the axisymmetric element integrates without the radius weight "
                         "(%s equals the integral over the meridian section)" % name)
        return r

    @staticmethod
    def physics(fname, c, got, want, which, t):
        """independent of the quadrature tables: rigid modes and mass"""
        n, d = c.shape
        sc = np.abs(want).max()*n*4
        if which == 0:
            modes = [np.tile(np.eye(d)[k], n) for k in range(d)]
            x = c - c.mean(axis=0)
            for a, b in itertools.combinations(range(d), 2):
                u = np.zeros((n, d))
                u[:, a], u[:, b] = -x[:, b], x[:, a]
                modes.append(u.ravel())
            for u in modes:
                if np.abs(got @ u).max() > 10*t*sc*max(1e-300, np.abs(u).max()):
                    return "%s: rigid motion produces nodal forces %g" % (fname, np.abs(got @ u).max())
        w, _ = np.linalg.eigh((got + got.T)/2)
        if w.min() < -100*t*max(np.abs(w).max(), 1e-300):
            return "%s matrix has the negative eigenvalue %g" % (fname, w.min())
        return close(got, got.T, 10*t, 10*t, fname + " symmetry")


@check("C06")
class stiffness(element_base):
    def chk(env, fname, c, p):
        return element_base.cmp(env, fname, c, p, 0)


@check("C06", weight=.4)
class degenerate:
    def gen(env, rng, i):
        fname = CF[i % len(CF)]
        c = gen.element_coords(env, rng, fname).astype(float)
        k = (i//len(CF)) % 3
        if k == 0:              # mirrored
            a = 1
            c[:, a] = -c[:, a]
        elif k == 1:            # collapsed to a line/plane
            c[:, 1] = c[:, 0]
        else:                   # two corner nodes exchanged
            if spec.NN[spec.CONT[fname][0]] == 3 or fname == "elast_tet4":
                c[[0, 1]] = c[[1, 0]]
            else:
                c[:, -1] = 0.0*c[:, -1] + c[0, -1]
        return dict(fname=fname, c=c, p=gen.params(env, rng, fname))

    def chk(env, fname, c, p):
        r = raises(ValueError, call_element, env, fname, c, p)
        return r and "%s on a degenerate element %s" % (fname, r)


@check("C07")
class mass(element_base):
    def chk(env, fname, c, p):
        return element_base.cmp(env, fname, c, p, 1)


@check("C07", weight=.4)
class total_mass:
    """mass of unit translations against the polygon area / affine volume"""
    def gen(env, rng, i):
        fname = [f for f in CF if "axi" not in f][i % 7]
        return dict(fname=fname, c=gen.element_coords(env, rng, fname, distort=0.0), p=gen.params(env, rng, fname))

    def chk(env, fname, c, p):
        M = call_element(env, fname, c, p)[1]
        name, kind, _ = spec.CONT[fname]
        d, n = spec.DIM[name], spec.NN[name]
        cc = np.asarray(c, float)
        _, dN = spec.shape(name, [0.2]*d)
        vol = np.linalg.det(np.array(dN, float) @ cc)*(
            {"tri3": .5, "tri6": .5, "tet4": 1/6}.get(name, 2**d))
        # affine image only
        for a in range(d):
            for b in range(d):
                m = M[a::d, b::d].sum()
                want = prm(p)[2]*vol if a == b else 0.0
                if abs(m - want) > 1e-8*abs(prm(p)[2]*vol)*(1 + gen.cond_tol(cc)*1e8):
                    return "%s: mass of unit translation (%d,%d) is %r, expected %r" % (fname, a, b, m, want)
        return None


def bar_coords(env, rng, i):
    u = rng.random()
    a = rng.uniform(-3, 3, size=2) if u < .6 else np.array([env.fl(rng), env.fl(rng)])
    if i % 8 < 8 and u < .35:
        ang = np.pi/4*(i % 8)
        v = np.round(np.array([np.cos(ang), np.sin(ang)]), 12)*10**rng.uniform(-2, 2)
    elif u < .5:
        v = rng.integers(-4, 5, size=2).astype(float)
        a = np.round(a)
    else:
        v = rng.standard_normal(2)*10**rng.uniform(-1.5, 1.5)
    if rng.random() < .1 and env.odd_floats:
        v = v/(np.linalg.norm(v) + 1e-30)*abs(env.odd_floats[rng.integers(len(env.odd_floats))])
    if np.linalg.norm(v) < 1e-4:
        v = np.array([1.0, 0.0])
    c = np.array([a, a + v])
    if np.linalg.norm(c[1] - c[0]) < 1e-4:
        c = np.array([[0.0, 0], [2.0, 1.0]])
    return gen.as_int(rng, c)


def pos(env, rng):
    u = rng.random()
    ok = [f for f in env.odd_floats if f > 0]
    if u < .15 and ok:
        return float(ok[rng.integers(len(ok))])
    if u < .3:
        return float(rng.integers(1, 5))
    return float(10**rng.uniform(-3, 4))


def form(rng, p):
    if rng.random() < .2 and all(x == int(x) for x in p):
        p = [int(x) for x in p]
    k = rng.random()
    return p if k < .25 else tuple(p) if k < .5 else np.array(p)


@check("C08")
class bars:
    def gen(env, rng, i):
        c = bar_coords(env, rng, i)
        if i % 3 == 0:
            k = pos(env, rng)
            if rng.random() < .3:
                k = np.array([k])
            elif k == int(k) and rng.random() < .5:
                k = int(k)
            return dict(fn="spring", c=c, p=k)
        p = [pos(env, rng), pos(env, rng)]
        if rng.random() < .6:
            p.append(pos(env, rng) if rng.random() < .9 else 0.0)
        return dict(fn="truss2D", c=c, p=form(rng, p))

    def chk(env, fn, c, p):
        K, M = getattr(env.uel, fn)(c, p)
        cc = np.asarray(c, float)
        v = cc[1] - cc[0]
        L = float(np.hypot(*v))
        if fn == "spring":
            k, Mx = float(np.ravel(p)[0]), np.zeros((4, 4))
        else:
            k = float(p[0])*float(p[1])/L
            Mx = np.array(spec.truss_M((float(p[2]) if len(p) > 2 else 1.0)*float(p[1])*L))
        return close(K, np.array(spec.bar_K(k, v[0]/L, v[1]/L)), 1e-9, 1e-11, fn + " K") or \
            close(M, Mx, 1e-10, 1e-12, fn + " M")


@check("C08")
class truss_stress:
    def gen(env, rng, i):
        ne = env.size(rng, 1, 9, 300)
        nodes, els, nmat = gen.truss_mesh(env, rng, ne=ne)
        mats = np.array([[pos(env, rng), pos(env, rng)] + ([pos(env, rng)] if i % 2 else []) for _ in range(nmat)])
        disp = rng.standard_normal((len(nodes), 2))*10**rng.uniform(-4, 1)
        if rng.random() < .3:
            disp[rng.random(disp.shape) < .5] = 0
        if rng.random() < .3:
            nodes = np.column_stack([nodes, np.zeros(len(nodes)), -np.ones(len(nodes))])
        if rng.random() < .3:
            els[:, 0] = rng.permutation(ne)
        return dict(nodes=nodes, els=els, mats=mats, disp=disp)

    def chk(env, nodes, els, mats, disp):
        s = env.pos.stress_truss(nodes, els, mats, disp)
        want, sc = [], 0
        for e in els:
            v = nodes[e[4], 1:3] - nodes[e[3], 1:3]
            L = np.hypot(*v)
            if L < 1e-9:
                return None
            want.append(mats[e[2], 0]*((disp[e[4]] - disp[e[3]]) @ v)/L**2)
            sc = max(sc, mats[e[2], 0]*np.abs(disp).max()/L)
        s = np.asarray(s)
        if s.shape != (len(els),):
            return "stress has shape %s for %d bars" % (s.shape, len(els))
        bad = np.abs(s - want) > 1e-9*np.abs(want) + 1e-11*sc
        if bad.any():
            k = int(np.argmax(bad))
            return "stress of bar %d is %r, E*elongation/L is %r" % (k, float(s[k]), float(want[k]))


@check("C09")
class beams:
    def gen(env, rng, i):
        c = bar_coords(env, rng, i)
        fn = ["beam2DU", "beam2D"][i % 2]
        base = [pos(env, rng), pos(env, rng)]
        if fn == "beam2DU":
            p = base + ([pos(env, rng), pos(env, rng)] if rng.random() < .6 else [])
        else:
            p = base + [pos(env, rng)] + ([pos(env, rng)] if rng.random() < .6 else [])
        if len(p) == 4 and rng.random() < .15:      # a massless bar
            p[2 if fn == "beam2DU" else 3] = 0.0
        return dict(fn=fn, c=c, p=form(rng, p))

    def chk(env, fn, c, p):
        K, M = getattr(env.uel, fn)(c, p)
        cc = np.asarray(c, float)
        v = cc[1] - cc[0]
        L = float(np.hypot(*v))
        q = [float(x) for x in p]
        EI = q[0]*q[1]
        if fn == "beam2DU":
            dens, area = (1.0, 1.0) if len(q) == 2 else q[2:]
            EA = 0.0
        else:
            area = q[2]
            dens = 1.0 if len(q) == 3 else q[3]
            EA = q[0]*area
        k, m = spec.beam_local(EI, EA, L, dens*area*L, fn == "beam2D")
        for nm, got, loc in (("K", K, k), ("M", M, m)):
            want = np.array(spec.beam_rotate(loc, v[0]/L, v[1]/L), float)
            got = np.asarray(got, float)
            if got.shape != (6, 6):
                return "%s %s has shape %s" % (fn, nm, got.shape)
            # scale translations and rotations to compare on an equal footing
            sc = np.array([1, 1, 1/L, 1, 1, 1/L])
            r = close(got*np.outer(sc, sc), want*np.outer(sc, sc), 1e-8, 1e-10, "%s %s (scaled)" % (fn, nm))
            if r:
                return r
        return None
