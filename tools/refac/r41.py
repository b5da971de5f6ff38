# femutil and uelutil: block matrices, kron, solve instead of inverse, adjugates, decorators, tensordot
# props: C01 C03 C04 C05 C06 C07 C08 C09 C14 C15 C21 C22
### femutil
def _blocks(N, dim):
    """interpolation matrix of dim components"""
    return np.kron(np.atleast_2d(N), np.eye(dim))

def _gradients(element, coord, *point):
    N, dNdr = element(*point)
    det, jaco_inv = jacoper(dNdr, coord)
    return N, np.dot(jaco_inv, dNdr), det

def elast_diff_2d(r, s, coord, element):
    N, dNdx, det = _gradients(element, coord, r, s)
    ndof = 2*len(N)
    B = np.zeros((3, ndof))
    for node, (dx, dy) in enumerate(dNdx.T):
        B[:, 2*node:2*node + 2] = [[dx, 0], [0, dy], [dy, dx]]
    return _blocks(N, 2), B, det

def elast_diff_axi(r, s, coord, element):
    N, _ = element(r, s)
    x = np.sum(N*coord[:, 0])
    if x < 0:
        raise ValueError("Horizontal coordinates should be non-negative.")
    H, B_plane, det = elast_diff_2d(r, s, coord, element)
    hoop = np.zeros(2*len(N))
    hoop[::2] = N/x
    return H, np.vstack((B_plane, hoop)), det

def elast_diff_3d(r, s, t, coord, interp=shape_hex8):
    N, dNdx, det = _gradients(interp, coord, r, s, t)
    nnodes = len(N)
    dx, dy, dz = dNdx
    B = np.zeros((6, nnodes, 3))
    B[0, :, 0] = B[5, :, 1] = B[4, :, 2] = dx
    B[1, :, 1] = B[5, :, 0] = B[3, :, 2] = dy
    B[2, :, 2] = B[3, :, 1] = B[4, :, 0] = dz
    return _blocks(N, 3), B.reshape(6, 3*nnodes), det

def jacoper(dNdr, coord):
    jaco = np.dot(dNdr, coord)
    if jaco.shape[0] == 2:
        (a, b), (c, d) = jaco
        det = a*d - b*c
        adj = np.array([[d, -b], [-c, a]])
    else:
        r0, r1, r2 = jaco
        adj = np.array([np.cross(r1, r2), np.cross(r2, r0), np.cross(r0, r1)]).T
        det = np.dot(r0, adj[:, 0])
    if np.isclose(abs(det), 0.0):
        raise ValueError("Jacobian close to zero. Check the shape of your elements!")
    if det < 0.0:
        raise ValueError("Jacobian is negative. Check your elements orientation!")
    return det, adj/det

def _lame(params):
    E, nu = params
    return E*nu/((1 + nu)*(1 - 2*nu)), E/(2*(1 + nu))

def umat(params):
    E, nu = params
    return E/(1 - nu**2)*np.array([[1, nu, 0], [nu, 1, 0], [0, 0, 0.5*(1 - nu)]])

def elast_mat_2d(params):
    lamda, mu = _lame(params)
    volumetric = np.array([1.0, 1.0, 0.0, 1.0])
    return lamda*np.outer(volumetric, volumetric) + mu*np.diag([2, 2, 1, 2])

def elast_mat_axi(params):
    return elast_mat_2d(params)

def elast_mat(params):
    lamda, mu = _lame(params)
    C = np.diag(np.repeat([2*mu, mu], 3))
    C[:3, :3] += lamda
    return C

def _strains(rule, coord, ul, shape):
    eps, pts = [], []
    for ri, si in rule[0]:
        _, B, _ = elast_diff_2d(ri, si, coord, shape)
        N, _ = shape(ri, si)
        eps.append(B @ ul)
        pts.append(N @ coord)
    return np.array(eps), np.array(pts)

def str_el3(coord, ul):
    return _strains(gau.gauss_tri(order=2), coord, ul, shape_tri3)

def str_el6(coord, ul):
    return _strains(gau.gauss_tri(order=3), coord, ul, shape_tri6)

def str_el4(coord, ul):
    return _strains(gau.gauss_nd(2), coord, ul, shape_quad4)
### uelutil
def _density(params, nelastic):
    return 1 if len(params) == nelastic else params[-1]

def _integrate(diff, rule, C, dens, scale=1.0):
    stiff_mat, mass_mat = 0.0, 0.0
    for point, weight in zip(*rule):
        H, B, det = diff(*point)
        factor = scale*det*weight
        stiff_mat = stiff_mat + factor*np.dot(B.T, np.dot(C, B))
        mass_mat = mass_mat + dens*factor*np.dot(H.T, H)
    return stiff_mat, mass_mat

def _plane(shape, rule, coord, params, scale=1.0):
    return _integrate(lambda r, s: fem.elast_diff_2d(r, s, coord, shape), rule,
                      fem.umat(params[:2]), _density(params, 2), scale)

def elast_tri3(coord, params):
    return _plane(fem.shape_tri3, gau.gauss_tri(order=2), coord, params, 0.5)

def elast_tri6(coord, params):
    return _plane(fem.shape_tri6, gau.gauss_tri(order=3), coord, params, 0.5)

def elast_quad4(coord, params):
    return _plane(fem.shape_quad4, gau.gauss_nd(2), coord, params)

def elast_quad9(coord, params):
    return _plane(fem.shape_quad9, gau.gauss_nd(3, ndim=2), coord, params)

def elast_quad8(coord, params):
    E, nu, rho = params
    return _integrate(lambda r, s: fem.elast_diff_2d(r, s, coord, fem.shape_quad8),
                      gau.gauss_nd(3, ndim=2), fem.umat((E, nu)), rho)

def elast_axi_quad9(coord, params):
    E, nu, rho = params
    return _integrate(lambda r, s: fem.elast_diff_axi(r, s, coord, fem.shape_quad9),
                      gau.gauss_nd(3, ndim=2), fem.elast_mat_axi((E, nu)), rho)

def elast_tet4(coord, params):
    E, nu, rho = params
    return _integrate(lambda r, s, t: fem.elast_diff_3d(r, s, t, coord, fem.shape_tet4),
                      gau.gauss_tet(3), fem.elast_mat((E, nu)), rho, 1/6)

def elast_hex8(coord, params):
    E, nu, rho = params
    return _integrate(lambda r, s, t: fem.elast_diff_3d(r, s, t, coord, fem.shape_hex8),
                      gau.gauss_nd(2, ndim=3), fem.elast_mat((E, nu)), rho)

def _axis(coord):
    dx, dy = coord[1] - coord[0]
    length = np.hypot(dx, dy)
    return dx/length, dy/length, length

def spring(coord, stiff):
    nx, ny, _ = _axis(coord)
    b = np.array([-nx, -ny, nx, ny])
    return stiff*np.outer(b, b), np.zeros((4, 4))

def truss2D(coord, params):
    nx, ny, length = _axis(coord)
    young, area = params[:2]
    stretch = np.array([[-nx, -ny, nx, ny]])
    mass = _density(params, 2)*area*length
    return area*young/length*(stretch.T @ stretch), np.kron([[2, 1], [1, 2]], np.eye(2))*mass/6

def _bending(L):
    return np.array([
        [12, 6*L, -12, 6*L],
        [6*L, 4*L**2, -6*L, 2*L**2],
        [-12, -6*L, 12, -6*L],
        [6*L, 2*L**2, -6*L, 4*L**2]])/L**3

def _inertia(L):
    return np.array([
        [156, 22*L, 54, -13*L],
        [22*L, 4*L**2, 13*L, -3*L**2],
        [54, 13*L, 156, -22*L],
        [-13*L, -3*L**2, -22*L, 4*L**2]])/420

def beam2DU(coord, params):
    nx, ny, L = _axis(coord)
    Q = np.kron(np.eye(2), [[-ny, nx, 0], [0, 0, 1]])
    young, area_moment = params[:2]
    dens, area = (1.0, 1.0) if len(params) == 2 else params[2:]
    K = young*area_moment*_bending(L)
    M = dens*area*L*_inertia(L)
    return Q.T @ K @ Q, Q.T @ M @ Q

def beam2D(coord, params):
    nx, ny, L = _axis(coord)
    R = np.array([[nx, ny, 0], [-ny, nx, 0], [0, 0, 1]])
    Q = np.zeros((6, 6))
    Q[:3, :3] = Q[3:, 3:] = R
    young, area_moment, area, *rest = params
    dens = rest[0] if rest else 1.0
    bend = np.ix_([1, 2, 4, 5], [1, 2, 4, 5])
    axial = np.ix_([0, 3], [0, 3])
    K, M = np.zeros((6, 6)), np.zeros((6, 6))
    K[bend] = young*area_moment*_bending(L)
    K[axial] = young*area/L*np.array([[1, -1], [-1, 1]])
    M[bend] = area*L*dens*_inertia(L)
    M[axial] = area*L*dens/6*np.array([[2, 1], [1, 2]])
    return Q.T @ K @ Q, Q.T @ M @ Q
