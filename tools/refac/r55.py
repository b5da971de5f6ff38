# elements: one quadrature driver with zip and accumulators from the first term, Jacobian by cross terms, B by stacking
# props: C01 C03 C04 C05 C06 C07 C09 C15 C21 C22
### femutil
_SIZES = [(8, 4, 4), (12, 6, 7), (6, 3, 3), (18, 9, 9), (4, 2, 3), (4, 2, 3), (6, 2, 3), (6, 2, 3)]

def eletype(eletype):
    for number, size in enumerate(_SIZES, 1):
        if number == eletype:
            return size
    raise ValueError("You entered an invalid type of element.")

def shape_quad4(r, s):
    lr, ls = (1 - r, 1 + r), (1 - s, 1 + s)
    order = [(0, 0), (1, 0), (1, 1), (0, 1)]
    sign = (-1, 1)
    N = 0.25*np.array([lr[i]*ls[j] for i, j in order])
    dNdr = 0.25*np.array([[sign[i]*ls[j] for i, j in order],
                          [lr[i]*sign[j] for i, j in order]])
    return N, dNdr

def shape_tri6(r, s):
    t = 1 - r - s
    corner = [t, r, s]
    grad = np.array([[-1, 1, 0], [-1, 0, 1]])
    pairs = [(0, 1), (1, 2), (2, 0)]
    N = np.append([c*(2*c - 1) for c in corner], [4*corner[a]*corner[b] for a, b in pairs])
    dNdr = np.zeros((2, 6))
    for k, c in enumerate(corner):
        dNdr[:, k] = (4*c - 1)*grad[:, k]
    for k, (a, b) in enumerate(pairs, start=3):
        dNdr[:, k] = 4*(grad[:, a]*corner[b] + corner[a]*grad[:, b])
    return N, dNdr

def elast_diff_2d(r, s, coord, element):
    N, dNdr = element(r, s)
    det, jaco_inv = jacoper(dNdr, coord)
    dx, dy = np.dot(jaco_inv, dNdr)
    zero = np.zeros_like(dx)
    nil = np.zeros(len(N))
    H = np.array([np.ravel([N, nil], order="F"), np.ravel([nil, N], order="F")])
    B = np.vstack([np.stack([dx, zero], axis=1).ravel(),
                   np.stack([zero, dy], axis=1).ravel(),
                   np.stack([dy, dx], axis=1).ravel()])
    return H, B, det

def jacoper(dNdr, coord):
    jaco = np.matmul(dNdr, coord)
    det = np.linalg.det(jaco)
    if np.isclose(abs(det), 0.0):
        raise ValueError("Jacobian close to zero. Check the shape of your elements!")
    elif not det >= 0.0:
        raise ValueError("Jacobian is negative. Check your elements orientation!")
    return det, np.linalg.inv(jaco)

def umat(params):
    E, nu = params
    C = np.diag([1.0, 1.0, (1 - nu)/2])
    C[[0, 1], [1, 0]] = nu
    return C*(E/(1 - nu**2))

def str_el4(coord, ul):
    points = gau.gauss_nd(2)[0]
    strains, places = [], []
    for ri, si in points:
        H, B, _ = elast_diff_2d(ri, si, coord, shape_quad4)
        strains.append(B.dot(ul))
        places.append(H[0, ::2].dot(coord[:, :2]))
    return np.array(strains), np.array(places)
### uelutil
def _density(params):
    return 1 if len(params) == 2 else params[-1]

def _integrate(coord, params, shape, rule, weight):
    C = fem.umat(params[:2])
    dens = _density(params)
    stiff_mat = mass_mat = 0
    for (r, s), wt in zip(*rule):
        H, B, det = fem.elast_diff_2d(r, s, coord, shape)
        factor = weight*wt*det
        stiff_mat = stiff_mat + factor*np.linalg.multi_dot([B.T, C, B])
        mass_mat = mass_mat + dens*factor*np.dot(H.T, H)
    return stiff_mat, mass_mat

def elast_tri3(coord, params):
    return _integrate(coord, params, fem.shape_tri3, gau.gauss_tri(order=2), 0.5)

def elast_tri6(coord, params):
    return _integrate(coord, params, fem.shape_tri6, gau.gauss_tri(order=3), 0.5)

def elast_quad4(coord, params):
    return _integrate(coord, params, fem.shape_quad4, gau.gauss_nd(2), 1.0)

def elast_quad9(coord, params):
    return _integrate(coord, params, fem.shape_quad9, gau.gauss_nd(3, ndim=2), 1.0)
