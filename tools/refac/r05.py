# femutil helpers
# props: C01 C03 C04 C05 C06 C08 C09 C15
### femutil
def _interp_matrix(N, ndim):
    H = np.zeros((ndim, ndim*N.shape[0]))
    for cont in range(ndim):
        H[cont, cont::ndim] = N
    return H

def elast_diff_2d(r, s, coord, element):
    N, dNdr = element(r, s)
    det, jaco_inv = jacoper(dNdr, coord)
    dNdx, dNdy = jaco_inv @ dNdr
    H = _interp_matrix(N, 2)
    B = np.zeros((3, 2*N.shape[0]))
    B[0, 0::2] = dNdx
    B[1, 1::2] = dNdy
    B[2, 0::2] = dNdy
    B[2, 1::2] = dNdx
    return H, B, det

def elast_diff_axi(r, s, coord, element):
    N, dNdr = element(r, s)
    radius = N.dot(coord[:, 0])
    if radius < 0:
        raise ValueError("Horizontal coordinates should be non-negative.")
    det, jaco_inv = jacoper(dNdr, coord)
    dNdx = jaco_inv.dot(dNdr)
    nnodes = N.shape[0]
    B = np.zeros((4, 2*nnodes))
    for node in range(nnodes):
        B[0, 2*node] = dNdx[0, node]
        B[1, 2*node + 1] = dNdx[1, node]
        B[2, 2*node] = dNdx[1, node]
        B[2, 2*node + 1] = dNdx[0, node]
        B[3, 2*node] = N[node]/radius
    return _interp_matrix(N, 2), B, det

def elast_diff_3d(r, s, t, coord, interp=shape_hex8):
    N, dNdr = interp(r, s, t)
    det, jaco_inv = jacoper(dNdr, coord)
    dNdx = np.matmul(jaco_inv, dNdr)
    B = np.zeros((6, 3*N.shape[0]))
    for cont in range(3):
        B[cont, cont::3] = dNdx[cont]
    for cont, (i, j) in enumerate([(1, 2), (0, 2), (0, 1)]):
        B[3 + cont, i::3] = dNdx[j]
        B[3 + cont, j::3] = dNdx[i]
    return _interp_matrix(N, 3), B, det

def jacoper(dNdr, coord):
    jaco = np.dot(dNdr, coord)
    det = np.linalg.det(jaco)
    if np.isclose(abs(det), 0.0):
        raise ValueError("Jacobian close to zero. Check the shape of your elements!")
    if det < 0.0:
        raise ValueError("Jacobian is negative. Check your elements orientation!")
    return det, np.linalg.inv(jaco)

def _lame(params):
    E, nu = params
    lamda = E*nu/((1 + nu)*(1 - 2*nu))
    mu = E/(2*(1 + nu))
    return lamda, mu

def umat(params):
    E, nu = params
    factor = E/(1 - nu**2)
    return factor*np.array([[1, nu, 0],
                            [nu, 1, 0],
                            [0, 0, (1 - nu)/2]])

def elast_mat(params):
    lamda, mu = _lame(params)
    C = np.zeros((6, 6))
    C[:3, :3] = lamda
    C[range(3), range(3)] += 2*mu
    C[range(3, 6), range(3, 6)] = mu
    return C

def elast_mat_axi(params):
    return elast_mat_2d(params)

def str_el3(coord, ul):
    return _strain_points(coord, ul, gau.gauss_tri(order=2)[0], shape_tri3)

def str_el6(coord, ul):
    return _strain_points(coord, ul, gau.gauss_tri(order=3)[0], shape_tri6)

def str_el4(coord, ul):
    return _strain_points(coord, ul, gau.gauss_nd(2)[0], shape_quad4)

def _strain_points(coord, ul, gpts, shape):
    npts = gpts.shape[0]
    epsG = np.zeros([npts, 3])
    xl = np.zeros([npts, 2])
    for i, (ri, si) in enumerate(gpts):
        H, B, _ = elast_diff_2d(ri, si, coord, shape)
        epsG[i] = B @ ul
        xl[i, :] = H[0, ::2] @ coord
    return epsG, xl
