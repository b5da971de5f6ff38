# femutil: shared strain sampler, axisymmetric operator from the plane one, matrices from a helper
# props: C01 C03 C04 C05 C06 C08 C09 C14 C15 C21 C22
### femutil
def _sample_strains(points, coord, ul, shape):
    npts = len(points)
    epsG = np.zeros((npts, 3))
    xl = np.zeros((npts, 2))
    for k, (r, s) in enumerate(points):
        H, B, _ = elast_diff_2d(r, s, coord, shape)
        epsG[k] = B.dot(ul)
        xl[k] = H[0, ::2] @ coord
    return epsG, xl

def str_el3(coord, ul):
    return _sample_strains(gau.gauss_tri(order=2)[0], coord, ul, shape_tri3)

def str_el6(coord, ul):
    return _sample_strains(gau.gauss_tri(order=3)[0], coord, ul, shape_tri6)

def str_el4(coord, ul):
    return _sample_strains(gau.gauss_nd(2)[0], coord, ul, shape_quad4)

def elast_diff_axi(r, s, coord, element):
    N, _ = element(r, s)
    radius = np.dot(N, coord[:, 0])
    if radius < 0:
        raise ValueError("Horizontal coordinates should be non-negative.")
    H, B_plane, det = elast_diff_2d(r, s, coord, element)
    hoop = np.zeros((1, B_plane.shape[1]))
    hoop[0, ::2] = N/radius
    return H, np.vstack((B_plane, hoop)), det

def elast_mat_2d(params):
    full = elast_mat(params)
    keep = [0, 1, 3, 2]
    return full[np.ix_(keep, keep)]

def elast_mat_axi(params):
    return elast_mat_2d(params)

def jacoper(dNdr, coord):
    jaco = np.matmul(dNdr, coord)
    det = np.linalg.det(jaco)
    if np.isclose(det, 0.0):
        raise ValueError("Jacobian close to zero. Check the shape of your elements!")
    elif det < 0.0:
        raise ValueError("Jacobian is negative. Check your elements orientation!")
    identity = np.eye(jaco.shape[0])
    return det, np.linalg.solve(jaco, identity)

def shape_quad4(r, s):
    N = np.empty(4)
    dNdr = np.empty((2, 4))
    for node, (a, b) in enumerate(((-1, -1), (1, -1), (1, 1), (-1, 1))):
        N[node] = 0.25*(1 + a*r)*(1 + b*s)
        dNdr[:, node] = 0.25*a*(1 + b*s), 0.25*b*(1 + a*r)
    return N, dNdr

def umat(params):
    E, nu = params
    mu = E/(2*(1 + nu))
    lam = 2*mu*nu/(1 - nu)
    C = np.full((2, 2), lam)
    C[[0, 1], [0, 1]] += 2*mu
    return np.block([[C, np.zeros((2, 1))], [np.zeros((1, 2)), np.array([[mu]])]])
