# uelutil: one integration routine with a table of elements, einsum, kron for the rotations
# props: C06 C07 C08 C09 C11 C13 C14 C21 C22
### uelutil
def _integrate(coord, C, dens, shape, rule, weight, diff):
    pts, wts = rule
    dim = np.shape(coord)[1]
    size = dim*len(coord)
    stiff_mat, mass_mat = np.zeros((size, size)), np.zeros((size, size))
    for pt, wt in zip(pts, wts):
        H, B, det = diff(*pt, coord, shape)
        factor = weight*det*wt
        stiff_mat += factor*np.einsum("ki,kl,lj->ij", B, C, B)
        mass_mat += factor*dens*np.einsum("ki,kj->ij", H, H)
    return stiff_mat, mass_mat

def _density(params):
    return params[-1] if len(params) > 2 else 1

def elast_tri3(coord, params):
    return _integrate(coord, fem.umat(params[:2]), _density(params), fem.shape_tri3, gau.gauss_tri(order=2), 0.5,
                      fem.elast_diff_2d)

def elast_tri6(coord, params):
    return _integrate(coord, fem.umat(params[:2]), _density(params), fem.shape_tri6, gau.gauss_tri(order=3), 0.5,
                      fem.elast_diff_2d)

def elast_quad4(coord, params):
    return _integrate(coord, fem.umat(params[:2]), _density(params), fem.shape_quad4, gau.gauss_nd(2), 1,
                      fem.elast_diff_2d)

def elast_quad9(coord, params):
    return _integrate(coord, fem.umat(params[:2]), _density(params), fem.shape_quad9, gau.gauss_nd(3), 1,
                      fem.elast_diff_2d)

def elast_quad8(coord, params):
    young, poisson, dens = params
    return _integrate(coord, fem.umat((young, poisson)), dens, fem.shape_quad8, gau.gauss_nd(3), 1, fem.elast_diff_2d)

def elast_axi_quad9(coord, params):
    young, poisson, dens = params
    return _integrate(coord, fem.elast_mat_axi((young, poisson)), dens, fem.shape_quad9, gau.gauss_nd(3), 1,
                      fem.elast_diff_axi)

def elast_tet4(coord, params):
    young, poisson, dens = params
    return _integrate(coord, fem.elast_mat((young, poisson)), dens, fem.shape_tet4, gau.gauss_tet(3), 1/6,
                      fem.elast_diff_3d)

def elast_hex8(coord, params):
    young, poisson, dens = params
    return _integrate(coord, fem.elast_mat((young, poisson)), dens, fem.shape_hex8, gau.gauss_nd(2, ndim=3), 1,
                      fem.elast_diff_3d)

def _axis(coord):
    vec = coord[1] - coord[0]
    length = np.hypot(*vec)
    return vec/length, length

def spring(coord, stiff):
    axis, _ = _axis(coord)
    elong = np.concatenate((axis, -axis))
    return stiff*np.outer(elong, elong), np.zeros((4, 4))

def truss2D(coord, params):
    axis, length = _axis(coord)
    young, area = params[:2]
    block = np.outer(axis, axis)
    stiff_mat = young*area/length*np.kron(np.array([[1, -1], [-1, 1]]), block)
    mass = _density(params)*area*length
    mass_mat = mass/6*np.kron([[2, 1], [1, 2]], np.eye(2))
    return stiff_mat, mass_mat

def beam2D(coord, params):
    (nx, ny), L = _axis(coord)
    rot = np.array([[nx, ny, 0], [-ny, nx, 0], [0, 0, 1]])
    Q = np.kron(np.eye(2), rot)
    young, area_moment, area = params[:3]
    dens = params[3] if len(params) > 3 else 1.0
    axial = young*area/L
    bend = young*area_moment/L**3
    K = np.zeros((6, 6))
    M = np.zeros((6, 6))
    ends, flex = [0, 3], [1, 2, 4, 5]
    K[np.ix_(ends, ends)] = axial*np.array([[1, -1], [-1, 1]])
    K[np.ix_(flex, flex)] = bend*np.array([
        [12, 6*L, -12, 6*L], [6*L, 4*L**2, -6*L, 2*L**2],
        [-12, -6*L, 12, -6*L], [6*L, 2*L**2, -6*L, 4*L**2]])
    mass = dens*area*L/420
    M[np.ix_(ends, ends)] = mass*np.array([[140, 70], [70, 140]])
    M[np.ix_(flex, flex)] = mass*np.array([
        [156, 22*L, 54, -13*L], [22*L, 4*L**2, 13*L, -3*L**2],
        [54, 13*L, 156, -22*L], [-13*L, -3*L**2, -22*L, 4*L**2]])
    return Q.T @ K @ Q, Q.T @ M @ Q
