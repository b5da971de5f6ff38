"""Generators of valid inputs (preconditions made executable)."""
import numpy as np
from contracts import spec


def element_coords(env, rng, fname, distort=None):
    """node coordinates of a valid element of the given continuum function"""
    name, kind, _ = spec.CONT[fname]
    ref = np.array(spec.REF[name], dtype=float)
    d = ref.shape[1]
    u = rng.random()
    for _ in range(60):
        if u < 0.10:            # reference element, maybe integer scaled/translated
            c = ref*int(rng.integers(1, 4)) + rng.integers(0 if kind == "axi" else -3, 4, size=d)
        elif u < 0.2:           # axis-aligned
            c = ref*10**rng.uniform(-1, 1.5, size=d) + rng.uniform(-3, 3, size=d)
        else:
            A = rng.standard_normal((d, d))
            if np.linalg.det(A) < 0:
                A[0] *= -1
            c = ref @ A.T
            size = np.ptp(c, axis=0).max()
            amp = (0.0 if rng.random() < .25 else rng.uniform(0, .25) if rng.random() < .5 else
                   rng.uniform(.25, 1.6)) if distort is None else distort
            move = amp*rng.uniform(-1, 1, size=c.shape)*np.abs(np.linalg.det(A))**(1/d)*.6
            if amp > .5:        # strong distortion: one or two nodes only
                keep = rng.choice(len(c), size=len(c) - int(rng.integers(1, 3)), replace=False)
                move[keep] = 0
            c = c + move
            c = c*10**rng.uniform(-1.5, 1.5) + rng.uniform(-5, 5, size=d)*size*(rng.random() < .7)
        if u > 0.9:
            k, j = rng.integers(d), rng.integers(len(c))
            v = env.fl(rng)
            c = c.copy()
            c[:, k] += v - c[j, k]
        if kind == "axi":
            c = np.array(c, dtype=float)
            c[:, 0] += -c[:, 0].min() + np.ptp(c[:, 0])*rng.uniform(0.01, 2)
        pts, _ = spec.RULE[name]()
        dets = []
        for p in list(pts) + [tuple(map(float, r)) for r in spec.REF[name]]:
            _, dN = spec.shape(name, [float(x) for x in p])
            dets.append(np.linalg.det(np.array(dN, dtype=float) @ c))
        dets = np.array(dets)
        if dets.min() > 1e-7 and dets.min() > 0.02*dets.max():
            return as_int(rng, c)
        u = 0.5 if rng.random() < .7 else 0.05
    return ref*2.0 + 4.0


def as_int(rng, c):
    if np.all(c == np.round(c)) and rng.random() < .6:
        return np.round(c).astype(int)
    return np.ascontiguousarray(c, dtype=float)


def params(env, rng, fname):
    E, nu, rho = env.mat(rng)
    need = spec.CONT[fname][2]
    withrho = need or rng.random() < .6
    p = [E, nu] + ([rho] if withrho else [])
    if rng.random() < .15 and not (set(map(float, p)) - {round(x) for x in p}):
        p = [int(x) for x in p]
    k = rng.random()
    return p if k < .2 else tuple(p) if k < .4 else np.array(p)


def cond_tol(c):
    c = np.asarray(c, dtype=float)
    s = np.ptp(c, axis=0).min()
    return 1e-9*(1 + np.abs(c).max()/max(s, 1e-30))


# ----------------------------------------------------------------- meshes
def grid_mesh(env, rng, etype, nx=None, ny=None, distort=None, renumber=True, units=(-2, 6)):
    """nodes (n,3), elements for a continuum type 1..4; positive Jacobians"""
    if nx is None and ny is None and distort is None and rng.random() < .08:
        return fan_mesh(rng, etype, renumber, units)
    nx = nx or int(rng.integers(1, 4))
    ny = ny or int(rng.integers(1, 4))
    quad = etype in (1, 4)
    lx, ly = 10**rng.uniform(-.5, 1, size=2)
    m = 2                       # lattice with midpoints
    X, Y = np.meshgrid(np.arange(m*nx + 1), np.arange(m*ny + 1), indexing="ij")
    hx, hy = lx/nx, ly/ny
    P = np.stack([X*hx/2, Y*hy/2], axis=-1).astype(float)
    vert = (X % 2 == 0) & (Y % 2 == 0)
    amp = (rng.uniform(0, .2) if rng.random() < .7 else 0.0) if distort is None else distort
    P = P + amp*rng.uniform(-1, 1, size=P.shape)*np.array([hx, hy])*np.where(vert, 1.0, 0.0)[..., None]
    # midpoints follow the vertices
    def pv(i, j):
        return P[i, j]
    for i in range(m*nx + 1):
        for j in range(m*ny + 1):
            if i % 2 and not j % 2:
                P[i, j] = .5*(P[i-1, j] + P[i+1, j])
            elif j % 2 and not i % 2:
                P[i, j] = .5*(P[i, j-1] + P[i, j+1])
            elif i % 2 and j % 2:
                if quad:
                    P[i, j] = .25*(P[i-1, j-1] + P[i+1, j-1] + P[i-1, j+1] + P[i+1, j+1])
                else:
                    P[i, j] = .5*(P[i-1, j-1] + P[i+1, j+1])
    ang = rng.uniform(0, 2*np.pi) if rng.random() < .4 else 0.0
    Rm = np.array([[np.cos(ang), -np.sin(ang)], [np.sin(ang), np.cos(ang)]])
    P = P @ Rm.T + rng.uniform(-2, 2, size=2)*(rng.random() < .6)
    if rng.random() < .2:       # other units (jacoper refuses determinants below 1e-8)
        P = P*10**rng.uniform(*units)
    els = []
    for i in range(0, 2*nx, 2):
        for j in range(0, 2*ny, 2):
            c = [(i, j), (i+2, j), (i+2, j+2), (i, j+2)]
            mid = [(i+1, j), (i+2, j+1), (i+1, j+2), (i, j+1)]
            if etype == 1:
                k = rng.integers(4)
                els.append(c[k:] + c[:k])
            elif etype == 4:
                k = rng.integers(4)
                els.append(c[k:] + c[:k] + mid[k:] + mid[:k] + [(i+1, j+1)])
            else:
                for tri in ([c[0], c[1], c[2]], [c[0], c[2], c[3]]):
                    k = rng.integers(3)
                    t = tri[k:] + tri[:k]
                    if etype == 2:
                        t = t + [tuple((a + b)//2 for a, b in zip(t[q], t[(q + 1) % 3])) for q in range(3)]
                    els.append(t)
    used = sorted({v for e in els for v in e})
    order = rng.permutation(len(used)) if renumber and rng.random() < .7 else np.arange(len(used))
    idx = {v: int(order[q]) for q, v in enumerate(used)}
    nodes = np.zeros((len(used), 3))
    for v in used:
        nodes[idx[v]] = [idx[v], *P[v]]
    if rng.random() < .6:
        els = [els[q] for q in rng.permutation(len(els))]
    nmat = int(rng.integers(1, 4))
    E = np.zeros((len(els), 3 + len(els[0])), dtype=int)
    for q, e in enumerate(els):
        E[q] = [q, etype, rng.integers(nmat)] + [idx[v] for v in e]
    return nodes, E, nmat


def fan_mesh(rng, etype, renumber=True, units=(-2, 6), n=None):
    """5 to 16 elements around one node, now and then hundreds"""
    n = n or int(rng.integers(5, 17) if rng.random() < .97 else rng.integers(130, 300))
    th = 2*np.pi*(np.arange(n) + rng.uniform(-.15, .15, size=n))/n
    ring = np.stack([np.cos(th), np.sin(th)], axis=1)
    far = 1.3*(ring + np.roll(ring, -1, axis=0))/2
    pts, at = [], {}

    def node(p):
        k = tuple(np.round(p, 9))
        if k not in at:
            at[k] = len(pts)
            pts.append(p)
        return at[k]
    els = []
    for q in range(n):
        c = [np.zeros(2), ring[q]] + ([far[q]] if etype in (1, 4) else []) + [ring[(q + 1) % n]]
        k = rng.integers(len(c))
        c = c[k:] + c[:k]
        mid = [(c[j] + c[(j + 1) % len(c)])/2 for j in range(len(c))]
        els.append([node(p) for p in c + (mid if etype in (2, 4) else []) + ([sum(c)/4] if etype == 4 else [])])
    P = np.array(pts)*10**rng.uniform(-.5, 1)
    if rng.random() < .2:
        P = P*10**rng.uniform(*units)
    P = P + rng.uniform(-2, 2, size=2)*np.abs(P).max()*(rng.random() < .6)
    order = rng.permutation(len(pts)) if renumber and rng.random() < .7 else np.arange(len(pts))
    nodes = np.zeros((len(pts), 3))
    nodes[order, 0], nodes[order, 1:] = order, P
    nmat = int(rng.integers(1, 4))
    E = np.zeros((n, 3 + len(els[0])), dtype=int)
    for q, e in enumerate(els):
        E[q] = [q, etype, rng.integers(nmat)] + [order[v] for v in e]
    if rng.random() < .6:
        E[:, 1:] = E[rng.permutation(n), 1:]
    return nodes, E, nmat


def mats_table(env, rng, nmat, dens=None):
    dens = (rng.random() < .5) if dens is None else dens
    rows = []
    for _ in range(nmat):
        e, nu, rho = env.mat(rng)
        rows.append([e, nu] + ([rho] if dens else []))
    return np.array(rows, dtype=float)


def cons_table(rng, n, nd, p=None, free_ok=True):
    p = rng.uniform(0, 1) if p is None else p
    c = np.where(rng.random((n, nd)) < p, -1, 0)
    u = rng.random()
    return c.astype(float) if u < .4 else c


def truss_mesh(env, rng, etype=6, nn=None, ne=None, ncoord=2):
    nn = nn or int(rng.integers(2, 8))
    ne = ne or int(rng.integers(1, 10))
    P = rng.uniform(-2, 2, size=(nn, 2))
    if rng.random() < .4:
        P = rng.integers(-3, 4, size=(nn, 2)).astype(float)
        P = P + np.arange(nn)[:, None]*np.array([7.0, 0])
    nodes = np.column_stack([np.arange(nn), P])
    els = np.zeros((ne, 5), dtype=int)
    nmat = int(rng.integers(1, 4))
    for q in range(ne):
        a, b = rng.choice(nn, size=2, replace=False)
        els[q] = [q, etype, rng.integers(nmat), a, b]
    return nodes, els, nmat
