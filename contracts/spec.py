"""Mathematical specification functions shared by the symbolic verifier (where
scalars are terms) and the run-time replay (where they are floats).

Nothing here is copied from /repo: shape functions are derived from the
reference nodes and the polynomial space by solving the Vandermonde system in
exact rational arithmetic, quadrature rules from their defining equations."""
from fractions import Fraction as Q
import math
import itertools
import numpy as np

h = Q(1, 2)
REF = {
    "tri3": [(0, 0), (1, 0), (0, 1)],
    "tri6": [(0, 0), (1, 0), (0, 1), (h, 0), (h, h), (0, h)],
    "quad4": [(-1, -1), (1, -1), (1, 1), (-1, 1)],
    "quad8": [(-1, -1), (1, -1), (1, 1), (-1, 1), (0, -1), (1, 0), (0, 1), (-1, 0)],
    "quad9": [(-1, -1), (1, -1), (1, 1), (-1, 1), (0, -1), (1, 0), (0, 1), (-1, 0), (0, 0)],
    "tet4": [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)],
    "hex8": [(-1, -1, -1), (1, -1, -1), (1, 1, -1), (-1, 1, -1),
             (-1, -1, 1), (1, -1, 1), (1, 1, 1), (-1, 1, 1)],
}
SPACE = {
    "tri3": [(0, 0), (1, 0), (0, 1)],
    "tri6": [(a, b) for a in range(3) for b in range(3) if a + b <= 2],
    "quad4": [(a, b) for a in range(2) for b in range(2)],
    "quad8": [(a, b) for a in range(3) for b in range(3) if a + b <= 3 and (a, b) != (3, 0)],
    "quad9": [(a, b) for a in range(3) for b in range(3)],
    "tet4": [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)],
    "hex8": list(itertools.product(range(2), repeat=3)),
}
ELEMS = list(REF)
DIM = {k: len(REF[k][0]) for k in REF}
NN = {k: len(REF[k]) for k in REF}


def _solve(M, rhs):
    """exact Gauss-Jordan; rhs is a matrix"""
    n = len(M)
    A = [list(map(Q, M[i])) + list(map(Q, rhs[i])) for i in range(n)]
    for c in range(n):
        p = next(i for i in range(c, n) if A[i][c] != 0)
        A[c], A[p] = A[p], A[c]
        A[c] = [x / A[c][c] for x in A[c]]
        for i in range(n):
            if i != c and A[i][c] != 0:
                f = A[i][c]
                A[i] = [x - f*y for x, y in zip(A[i], A[c])]
    return [row[n:] for row in A]


_poly = {}


def shape_polys(name):
    """per node {exponents: coefficient}"""
    if name not in _poly:
        nodes, sp = REF[name], SPACE[name]
        n = len(nodes)
        assert len(sp) == n, name
        V = []
        for x in nodes:                     # V[node][mono]
            V.append([math.prod((Q(c)**e for c, e in zip(x, m)), start=Q(1)) for m in sp])
        eye = [[Q(int(i == j)) for j in range(n)] for i in range(n)]
        inv = _solve(V, eye)                # inv[mono][node]
        _poly[name] = [{sp[m]: inv[m][i] for m in range(n) if inv[m][i] != 0} for i in range(n)]
    return _poly[name]


def _diff(p, d):
    r = {}
    for m, c in p.items():
        if m[d]:
            e = list(m)
            e[d] -= 1
            r[tuple(e)] = r.get(tuple(e), 0) + c*m[d]
    return r


def _cf(c):
    """keep integers and exact binary fractions readable for floats and terms"""
    return int(c) if c.denominator == 1 else c


def _pow(x, e):
    r = 1
    for _ in range(e):
        r = r*x
    return r


def peval(p, pt):
    s = 0
    for m, c in sorted(p.items()):
        t = _cf(c)
        for x, e in zip(pt, m):
            if e:
                t = t*_pow(x, e)
        s = s + t
    return s


_fl = {}


def _shape_float(name, pt):
    t = _fl.get(name)
    if t is None:
        P, sp, d = shape_polys(name), SPACE[name], DIM[name]
        ex = sorted({m for m in sp} | {m for k in range(d) for p in P for m in _diff(p, k)})
        mk = lambda Ps: np.array([[float(p.get(m, 0)) for m in ex] for p in Ps])
        t = _fl[name] = (np.array(ex), mk(P), [mk([_diff(p, k) for p in P]) for k in range(d)])
    ex, A, D = t
    mono = np.prod(np.asarray(pt, dtype=float)**ex, axis=1)
    return list(A @ mono), [list(x @ mono) for x in D]


def shape(name, pt):
    """N (list of n), dN (dim lists of n)"""
    if all(type(x) is float for x in pt):
        return _shape_float(name, pt)
    P = shape_polys(name)
    N = [peval(p, pt) for p in P]
    dN = [[peval(_diff(p, d), pt) for p in P] for d in range(DIM[name])]
    return N, dN


# ------------------------------------------------------------ small matrices
def dt(M):
    n = len(M)
    if n == 1:
        return M[0][0]
    if n == 2:
        return M[0][0]*M[1][1] - M[0][1]*M[1][0]
    s = 0
    for j in range(n):
        minor = [[M[i][k] for k in range(n) if k != j] for i in range(1, n)]
        s = s + (-1)**j*M[0][j]*dt(minor)
    return s


def adj(M):
    n = len(M)
    if n == 1:
        return [[1]]
    return [[(-1)**(i + j)*dt([[M[a][b] for b in range(n) if b != i]
                               for a in range(n) if a != j])
             for j in range(n)] for i in range(n)]


def jac(dN, coord):
    n = len(dN[0])
    d = len(dN)
    return [[sum(dN[a][i]*coord[i][b] for i in range(n)) for b in range(len(coord[0]))]
            for a in range(d)]


def grads(name, pt, coord):
    """N, dN/dx [d][n], det J"""
    N, dN = shape(name, pt)
    J = jac(dN, coord)
    D = dt(J)
    A = adj(J)
    d = len(dN)
    dx = [[sum(A[a][b]*dN[b][i] for b in range(d))/D for i in range(len(N))] for a in range(d)]
    return N, dx, D


def HB2d(N, dx):
    n = len(N)
    H = [[0]*(2*n) for _ in range(2)]
    B = [[0]*(2*n) for _ in range(3)]
    for i in range(n):
        H[0][2*i] = H[1][2*i + 1] = N[i]
        B[0][2*i] = dx[0][i]
        B[1][2*i + 1] = dx[1][i]
        B[2][2*i] = dx[1][i]
        B[2][2*i + 1] = dx[0][i]
    return H, B


def HBaxi(N, dx, coord):
    n = len(N)
    H, B = HB2d(N, dx)
    x = sum(N[i]*coord[i][0] for i in range(n))
    B.append([0]*(2*n))
    for i in range(n):
        B[3][2*i] = N[i]/x
    return H, B


def HB3d(N, dx):
    n = len(N)
    H = [[0]*(3*n) for _ in range(3)]
    B = [[0]*(3*n) for _ in range(6)]
    for i in range(n):
        for d in range(3):
            H[d][3*i + d] = N[i]
            B[d][3*i + d] = dx[d][i]
        for row, (a, b) in zip((3, 4, 5), ((1, 2), (0, 2), (0, 1))):
            B[row][3*i + a] = dx[b][i]
            B[row][3*i + b] = dx[a][i]
    return H, B


# ---------------------------------------------------------------- materials
def C_plane_stress(E, nu):
    f = E/(1 - nu*nu)
    return [[f, nu*f, 0], [nu*f, f, 0], [0, 0, E/(2*(1 + nu))]]


def _lame(E, nu):
    return E*nu/((1 + nu)*(1 - 2*nu)), E/(2*(1 + nu))


def C_four(E, nu):
    la, mu = _lame(E, nu)
    d = la + 2*mu
    return [[d, la, 0, la], [la, d, 0, la], [0, 0, mu, 0], [la, la, 0, d]]


def C_solid(E, nu):
    la, mu = _lame(E, nu)
    C = [[0]*6 for _ in range(6)]
    for i in range(3):
        for j in range(3):
            C[i][j] = la + 2*mu if i == j else la
        C[i + 3][i + 3] = mu
    return C


# --------------------------------------------------------------- quadrature
def leg(n):
    """nodes and weights of the n-point Gauss-Legendre rule (Newton, double)"""
    x, w = np.polynomial.legendre.leggauss(n)
    return x, w


def gl_points(n, dim):
    x, w = leg(n)
    pts = [p for p in itertools.product(x, repeat=dim)]
    wts = [math.prod(p) for p in itertools.product(w, repeat=dim)]
    return pts, wts


def _radon7():
    s = math.sqrt(15)
    a, b = (6 - s)/21, (6 + s)/21
    wa, wb = (155 - s)/1200, (155 + s)/1200
    pts = [(a, a), (1 - 2*a, a), (a, 1 - 2*a), (b, 1 - 2*b), (b, b), (1 - 2*b, b), (1/3, 1/3)]
    return pts, [wa/2]*3 + [wb/2]*3 + [9/80]


RULE = {  # documented rule of each element: points, weights (with the 1/2 or 1/6)
    "tri3": lambda: ([(1/6, 1/6), (2/3, 1/6), (1/6, 2/3)], [1/6]*3),
    "tri6": _radon7,
    "quad4": lambda: gl_points(2, 2),
    "quad8": lambda: gl_points(3, 2),
    "quad9": lambda: gl_points(3, 2),
    "hex8": lambda: gl_points(2, 3),
    "tet4": lambda: (lambda a, b: ([(b, b, b), (a, b, b), (b, a, b), (b, b, a)], [1/24]*4))(
        (5 + 3*math.sqrt(5))/20, (5 - math.sqrt(5))/20),
}


def mono_simplex(m):
    """integral of the monomial over the unit simplex"""
    return Q(math.prod(math.factorial(e) for e in m), math.factorial(sum(m) + len(m)))


def mono_cube(m):
    return math.prod((Q(2, e + 1) if e % 2 == 0 else Q(0) for e in m), start=Q(1))


# ------------------------------------------------- element matrices (numeric)
CONT = {  # function: (shape, kind, density required)
    "elast_tri3": ("tri3", "2d", False), "elast_tri6": ("tri6", "2d", False),
    "elast_quad4": ("quad4", "2d", False), "elast_quad9": ("quad9", "2d", False),
    "elast_quad8": ("quad8", "2d", True), "elast_axi_quad9": ("quad9", "axi", True),
    "elast_tet4": ("tet4", "3d", True), "elast_hex8": ("hex8", "3d", True),
}


def HB(kind, N, dx, coord):
    if kind == "2d":
        return HB2d(N, dx)
    if kind == "axi":
        return HBaxi(N, dx, coord)
    return HB3d(N, dx)


def Cmat(kind, E, nu):
    return {"2d": C_plane_stress, "axi": C_four, "3d": C_solid}[kind](E, nu)


def element_num(fname, coord, E, nu, rho, radius=None):
    """K, M as float arrays; radius: None or function of x (axisymmetric weight)"""
    name, kind, _ = CONT[fname]
    pts, wts = RULE[name]()
    coord = np.asarray(coord, dtype=float)
    C = np.array(Cmat(kind, float(E), float(nu)), dtype=float)
    K = M = 0
    for p, w in zip(pts, wts):
        N, dN = shape(name, [float(c) for c in p])
        dN = np.array(dN, dtype=float)
        J = dN @ coord
        D = np.linalg.det(J)
        dx = np.linalg.solve(J, dN)
        H, B = HB(kind, N, dx, coord)
        H, B = np.array(H, dtype=float), np.array(B, dtype=float)
        f = w*D
        if radius is not None:
            f = f*radius(float(np.dot(N, coord[:, 0])))
        K = K + f*(B.T @ C @ B)
        M = M + rho*f*(H.T @ H)
    return K, M


# ----------------------------------------------------- structural elements
def bar_axis(c):
    dx, dy = c[1][0] - c[0][0], c[1][1] - c[0][1]
    return dx, dy


def bar_K(k, tx, ty):
    """k (t,-t)(t,-t)^T"""
    v = [tx, ty, -tx, -ty]
    return [[k*a*b for b in v] for a in v]


def truss_M(m):
    M = [[0]*4 for _ in range(4)]
    for a in range(2):
        for b in range(2):
            for d in range(2):
                M[2*a + d][2*b + d] = m/3 if a == b else m/6
    return M


def hermite_K(EI, L):
    f = EI/(L*L*L)
    return [[12*f, 6*L*f, -12*f, 6*L*f],
            [6*L*f, 4*L*L*f, -6*L*f, 2*L*L*f],
            [-12*f, -6*L*f, 12*f, -6*L*f],
            [6*L*f, 2*L*L*f, -6*L*f, 4*L*L*f]]


def hermite_M(m, L):
    f = m/420
    return [[156*f, 22*L*f, 54*f, -13*L*f],
            [22*L*f, 4*L*L*f, 13*L*f, -3*L*L*f],
            [54*f, 13*L*f, 156*f, -22*L*f],
            [-13*L*f, -3*L*L*f, -22*L*f, 4*L*L*f]]


def beam_local(EI, EA, L, m, axial):
    """6x6 local matrices in (axial, transverse, rotation) per node"""
    kb, mb = hermite_K(EI, L), hermite_M(m, L)
    K = [[0]*6 for _ in range(6)]
    M = [[0]*6 for _ in range(6)]
    loc = [1, 2, 4, 5]
    for a in range(4):
        for b in range(4):
            K[loc[a]][loc[b]] = kb[a][b]
            M[loc[a]][loc[b]] = mb[a][b]
    if axial:
        k = EA/L
        K[0][0] = K[3][3] = k
        K[0][3] = K[3][0] = -k
        M[0][0] = M[3][3] = m/3
        M[0][3] = M[3][0] = m/6
    return K, M


def beam_rotate(K, c, s):
    """T^T K T with local = T global, T = blockdiag([[c,s,0],[-s,c,0],[0,0,1]])"""
    T = [[0]*6 for _ in range(6)]
    for b in (0, 3):
        T[b][b], T[b][b + 1] = c, s
        T[b + 1][b], T[b + 1][b + 1] = -s, c
        T[b + 2][b + 2] = 1
    n = 6

    def mm(A, B):
        return [[sum(A[i][k]*B[k][j] for k in range(n)
                     if not (isinstance(A[i][k], int) and A[i][k] == 0)
                     and not (isinstance(B[k][j], int) and B[k][j] == 0))
                 for j in range(n)] for i in range(n)]
    Tt = [[T[j][i] for j in range(n)] for i in range(n)]
    return mm(Tt, mm(K, T))


CATALOGUE = {1: (8, 4), 2: (12, 6), 3: (6, 3), 4: (18, 9), 5: (4, 2), 6: (4, 2), 7: (6, 2), 8: (6, 2)}
FUNC = {1: "elast_quad4", 2: "elast_tri6", 3: "elast_tri3", 4: "elast_quad9",
        5: "spring", 6: "truss2D", 7: "beam2DU", 8: "beam2D"}
NGPT = {1: 4, 2: 7, 3: 3, 4: 9, 5: 3, 6: 3, 7: 3, 8: 3}
