# gaussutil: product rule from grids, femutil: masks and stacked operators, strain routine shared
# props: C01 C02 C03 C04 C05 C06 C07 C14 C15 C21 C22
### gaussutil
def gauss_nd(npts, ndim=2):
    pts, wts = gauss_1d(npts)
    nd_pts = np.array([list(p) for p in product(pts, repeat=ndim)])
    nd_wts = []
    for combination in product(wts, repeat=ndim):
        weight = 1.0
        for w in combination:
            weight *= w
        nd_wts.append(weight)
    return nd_pts, nd_wts
### femutil
_CATALOGUE = {
    1: dict(ndof=8, nnodes=4, ngpts=4),
    2: dict(ndof=12, nnodes=6, ngpts=7),
    3: dict(ndof=6, nnodes=3, ngpts=3),
    4: dict(ndof=18, nnodes=9, ngpts=9),
    5: dict(ndof=4, nnodes=2, ngpts=3),
    6: dict(ndof=4, nnodes=2, ngpts=3),
    7: dict(ndof=6, nnodes=2, ngpts=3),
    8: dict(ndof=6, nnodes=2, ngpts=3)}

def eletype(eletype):
    if eletype not in _CATALOGUE:
        raise ValueError("You entered an invalid type of element.")
    entry = _CATALOGUE[eletype]
    return entry["ndof"], entry["nnodes"], entry["ngpts"]

def _jacobian(N, dNdr, coord):
    det, inv = jacoper(dNdr, coord)
    return inv @ dNdr, det

def elast_diff_2d(r, s, coord, element):
    N, dNdr = element(r, s)
    dNdx, det = _jacobian(N, dNdr, coord)
    zero = np.zeros_like(dNdx[0])
    H = np.stack((np.array([N, 0*N]).T.ravel(), np.array([0*N, N]).T.ravel()))
    B = np.stack((
        np.array([dNdx[0], zero]).T.ravel(),
        np.array([zero, dNdx[1]]).T.ravel(),
        np.array([dNdx[1], dNdx[0]]).T.ravel()))
    return H, B, det

def jacoper(dNdr, coord):
    jaco = np.dot(dNdr, coord)
    det = np.linalg.det(jaco)
    if np.isclose(abs(det), 0.0):
        raise ValueError("Jacobian close to zero. Check the shape of your elements!")
    if det < 0.0:
        raise ValueError("Jacobian is negative. Check your elements orientation!")
    return det, np.linalg.inv(jaco)

def _strains(coord, ul, pts, shape):
    epsG, xl = [], []
    for ri, si in pts:
        H, B, _ = elast_diff_2d(ri, si, coord, shape)
        epsG.append(B @ ul)
        xl.append(H[0, ::2] @ coord)
    return np.array(epsG), np.array(xl)

def str_el3(coord, ul):
    return _strains(coord, ul, gau.gauss_tri(order=2)[0], shape_tri3)

def str_el6(coord, ul):
    return _strains(coord, ul, gau.gauss_tri(order=3)[0], shape_tri6)

def str_el4(coord, ul):
    return _strains(coord, ul, gau.gauss_nd(2)[0], shape_quad4)
