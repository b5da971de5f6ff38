# uelutil helpers
# props: C05 C06 C07 C08 C09 C21
### uelutil
def _density(params, default=1):
    if len(params) == 2:
        return default
    return params[-1]

def _integrate_2d(coord, C, dens, shape, gpts, gwts, scale=1.0):
    ndof = 2*coord.shape[0]
    stiff_mat = np.zeros((ndof, ndof))
    mass_mat = np.zeros((ndof, ndof))
    for (r, s), weight in zip(gpts, gwts):
        H, B, det = fem.elast_diff_2d(r, s, coord, shape)
        factor = scale*det*weight
        stiff_mat += factor*(B.T @ C @ B)
        mass_mat += dens*factor*(H.T @ H)
    return stiff_mat, mass_mat

def elast_tri3(coord, params):
    gpts, gwts = gau.gauss_tri(order=2)
    return _integrate_2d(coord, fem.umat(params[:2]), _density(params), fem.shape_tri3, gpts, gwts, 0.5)

def elast_tri6(coord, params):
    gpts, gwts = gau.gauss_tri(order=3)
    return _integrate_2d(coord, fem.umat(params[:2]), _density(params), fem.shape_tri6, gpts, gwts, 0.5)

def elast_quad4(coord, params):
    gpts, gwts = gau.gauss_nd(2)
    return _integrate_2d(coord, fem.umat(params[:2]), _density(params), fem.shape_quad4, gpts, gwts)

def elast_quad9(coord, params):
    gpts, gwts = gau.gauss_nd(3, ndim=2)
    return _integrate_2d(coord, fem.umat(params[:2]), _density(params), fem.shape_quad9, gpts, gwts)

def elast_quad8(coord, params):
    E, nu, rho = params
    gpts, gwts = gau.gauss_nd(3, ndim=2)
    return _integrate_2d(coord, fem.umat((E, nu)), rho, fem.shape_quad8, gpts, gwts)

def elast_axi_quad9(coord, params):
    E, nu, rho = params
    C = fem.elast_mat_axi((E, nu))
    stiff_mat = np.zeros((18, 18))
    mass_mat = np.zeros((18, 18))
    gpts, gwts = gau.gauss_nd(3, ndim=2)
    for pt, weight in zip(gpts, gwts):
        H, B, det = fem.elast_diff_axi(pt[0], pt[1], coord, fem.shape_quad9)
        factor = det * weight
        stiff_mat = stiff_mat + factor * B.T.dot(C).dot(B)
        mass_mat = mass_mat + rho * factor * H.T.dot(H)
    return stiff_mat, mass_mat

def elast_tet4(coord, params):
    young, poisson, dens = params
    C = fem.elast_mat((young, poisson))
    stiff_mat = np.zeros((12, 12))
    mass_mat = np.zeros((12, 12))
    for (r, s, t), wt in zip(*gau.gauss_tet(3)):
        H, B, det = fem.elast_diff_3d(r, s, t, coord, fem.shape_tet4)
        stiff_mat += (det * wt / 6) * (B.T @ C @ B)
        mass_mat += (det * wt / 6) * dens * (H.T @ H)
    return stiff_mat, mass_mat

def elast_hex8(coord, params):
    E, nu, rho = params
    C = fem.elast_mat((E, nu))
    gpts, gwts = gau.gauss_nd(2, ndim=3)
    stiff_mat = np.zeros((24, 24))
    mass_mat = np.zeros((24, 24))
    for cont, wt in enumerate(gwts):
        r, s, t = gpts[cont]
        H, B, det = fem.elast_diff_3d(r, s, t, coord)
        mass_mat += rho * det * wt * (H.T @ H)
        stiff_mat += det * wt * (B.T @ (C @ B))
    return stiff_mat, mass_mat

def _direction(coord):
    vec = coord[1, :] - coord[0, :]
    length = np.sqrt(vec[0]**2 + vec[1]**2)
    nx, ny = vec/length
    return nx, ny, length

def spring(coord, stiff):
    nx, ny, _ = _direction(coord)
    n = np.array([-nx, -ny, nx, ny])
    return stiff*np.outer(n, n), np.zeros((4, 4))

def truss2D(coord, params):
    nx, ny, length = _direction(coord)
    Q = np.array([[nx, ny, 0, 0], [0, 0, nx, ny]])
    young, area = params[0], params[1]
    stiff = area*young/length
    stiff_mat = Q.T.dot(stiff*np.array([[1, -1], [-1, 1]])).dot(Q)
    dens = 1.0 if len(params) == 2 else params[-1]
    mass = area*length*dens
    mass_mat = mass/6*np.kron(np.array([[2, 1], [1, 2]]), np.eye(2))
    return stiff_mat, mass_mat
