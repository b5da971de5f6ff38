# uelutil: one integrator, generator of sampling points, star arguments
# props: C05 C06 C07 C08 C09 C21 C22
### uelutil
def _samples(rule, diff, coord, shape):
    for point, weight in zip(*rule):
        H, B, det = diff(*point, coord, shape)
        yield H, B, det*weight

def _unpack(params):
    if len(params) > 2:
        return params[:2], params[-1]
    return params[:2], 1

def _element(coord, C, dens, rule, shape, diff=None, fraction=1):
    diff = diff or fem.elast_diff_2d
    ndof = coord.shape[0]*coord.shape[1]
    stiff_mat = np.zeros((ndof, ndof))
    mass_mat = np.zeros((ndof, ndof))
    for H, B, factor in _samples(rule, diff, coord, shape):
        factor = fraction*factor
        stiff_mat += factor*(B.T @ C @ B)
        mass_mat += dens*factor*(H.T @ H)
    return stiff_mat, mass_mat

def elast_tri3(coord, params):
    elastic, dens = _unpack(params)
    return _element(coord, fem.umat(elastic), dens, gau.gauss_tri(order=2), fem.shape_tri3, fraction=0.5)

def elast_tri6(coord, params):
    elastic, dens = _unpack(params)
    return _element(coord, fem.umat(elastic), dens, gau.gauss_tri(order=3), fem.shape_tri6, fraction=0.5)

def elast_quad4(coord, params):
    elastic, dens = _unpack(params)
    return _element(coord, fem.umat(elastic), dens, gau.gauss_nd(2), fem.shape_quad4)

def elast_quad9(coord, params):
    elastic, dens = _unpack(params)
    return _element(coord, fem.umat(elastic), dens, gau.gauss_nd(3, ndim=2), fem.shape_quad9)

def elast_quad8(coord, params):
    E, nu, rho = params
    return _element(coord, fem.umat((E, nu)), rho, gau.gauss_nd(3, ndim=2), fem.shape_quad8)

def elast_axi_quad9(coord, params):
    E, nu, rho = params
    return _element(coord, fem.elast_mat_axi((E, nu)), rho, gau.gauss_nd(3, ndim=2), fem.shape_quad9,
                    diff=fem.elast_diff_axi)

def elast_tet4(coord, params):
    E, nu, rho = params
    return _element(coord, fem.elast_mat((E, nu)), rho, gau.gauss_tet(3), fem.shape_tet4,
                    diff=fem.elast_diff_3d, fraction=1/6)

def elast_hex8(coord, params):
    E, nu, rho = params
    return _element(coord, fem.elast_mat((E, nu)), rho, gau.gauss_nd(2, ndim=3), fem.shape_hex8,
                    diff=fem.elast_diff_3d)

def _axis(coord):
    vec = coord[1] - coord[0]
    length = np.hypot(*vec)
    return length, vec/length

def spring(coord, stiff):
    _, axis = _axis(coord)
    block = np.outer(axis, axis)
    stiff_mat = stiff*np.block([[block, -block], [-block, block]])
    return stiff_mat, np.zeros((4, 4))

def truss2D(coord, params):
    length, (nx, ny) = _axis(coord)
    young, area, *rest = params
    dens = rest[-1] if rest else 1.0
    lin = np.array([[-nx, -ny, nx, ny]])
    stiff_mat = area*young/length*(lin.T @ lin)
    mass_mat = area*length*dens/6*np.kron([[2, 1], [1, 2]], np.eye(2))
    return stiff_mat, mass_mat
