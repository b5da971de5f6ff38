# uelutil: shared integrators, einsum, outer products
# props: C06 C07 C08 C09 C21 C22
### uelutil
def _integrate(coord, stiff_mat, dens, diff, pts, wts, ndof):
    stiff = np.zeros((ndof, ndof))
    mass = np.zeros((ndof, ndof))
    for point, weight in zip(pts, wts):
        H, B, det = diff(*point, coord)
        factor = det*weight
        stiff += factor*np.einsum('ki,kl,lj->ij', B, stiff_mat, B)
        mass += dens*factor*np.einsum('ki,kj->ij', H, H)
    return stiff, mass

def _density(params):
    return params[2] if len(params) > 2 else 1

def elast_tri6(coord, params):
    diff = lambda r, s, xy: fem.elast_diff_2d(r, s, xy, fem.shape_tri6)
    pts, wts = gau.gauss_tri(order=3)
    return _integrate(coord, fem.umat(params[:2]), _density(params), diff, pts, 0.5*wts, 12)

def elast_quad4(coord, params):
    diff = lambda r, s, xy: fem.elast_diff_2d(r, s, xy, fem.shape_quad4)
    pts, wts = gau.gauss_nd(2)
    return _integrate(coord, fem.umat(params[:2]), _density(params), diff, pts, wts, 8)

def elast_quad9(coord, params):
    diff = lambda r, s, xy: fem.elast_diff_2d(r, s, xy, fem.shape_quad9)
    pts, wts = gau.gauss_nd(3, ndim=2)
    return _integrate(coord, fem.umat(params[:2]), _density(params), diff, pts, wts, 18)

def truss2D(coord, params):
    delta = np.array(coord[1], dtype=float) - np.array(coord[0], dtype=float)
    length = np.sqrt(np.dot(delta, delta))
    direction = delta/length
    young, area = params[0], params[1]
    dens = 1.0 if len(params) == 2 else params[2]
    row = np.concatenate((-direction, direction))
    stiff = young*area/length*np.outer(row, row)
    eye = np.eye(2)
    mass = dens*area*length/6*np.block([[2*eye, eye], [eye, 2*eye]])
    return stiff, mass
