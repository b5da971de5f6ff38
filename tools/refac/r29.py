# femutil: tables, products of 1-D functions, slices
# props: C01 C02 C03 C04 C05 C06 C08 C14 C15 C19 C21 C22
### femutil
_ELETYPES = {1: (8, 4, 4), 2: (12, 6, 7), 3: (6, 3, 3), 4: (18, 9, 9), 5: (4, 2, 3), 6: (4, 2, 3), 7: (6, 2, 3), 8: (6, 2, 3)}

def elast_diff_2d(r, s, coord, element=None):
    element = shape_quad4 if element is None else element
    N, dNdr = element(r, s)
    det, jaco_inv = jacoper(dNdr, coord)
    dhdx, dhdy = jaco_inv @ dNdr
    H = np.kron(N.flatten(), np.eye(2))
    B = np.zeros((3, 2*N.size))
    B[0, ::2] = dhdx
    B[1, 1::2] = dhdy
    B[2, ::2], B[2, 1::2] = dhdy, dhdx
    return H, B, det

def elast_diff_3d(r, s, t, coord, interp=None):
    if interp is None:
        interp = shape_hex8
    N, dNdr = interp(r, s, t)
    det, jaco_inv = jacoper(dNdr, coord)
    dhdx, dhdy, dhdz = np.dot(jaco_inv, dNdr)
    H = np.zeros((3, 3*N.size))
    B = np.zeros((6, 3*N.size))
    for axis in range(3):
        H[axis, axis::3] = N
    for row, (grad, axis) in enumerate([(dhdx, 0), (dhdy, 1), (dhdz, 2), (dhdz, 1), (dhdy, 2), (dhdz, 0),
                                        (dhdx, 2), (dhdy, 0), (dhdx, 1)]):
        B[row if row < 3 else 3 + (row - 3)//2, axis::3] = grad
    return H, B, det

def umat(params):
    E, nu = params
    fact = E/((1 - nu)*(1 + nu))
    return np.array([[fact, fact*nu, 0], [fact*nu, fact, 0], [0, 0, E/(2 + 2*nu)]])

def elast_mat(params):
    E, nu = params
    lamda = E*nu/((1 + nu)*(1 - 2*nu))
    mu = E/(2*(1 + nu))
    C = np.zeros((6, 6))
    C[:3, :3] = lamda
    C += np.diag([2*mu, 2*mu, 2*mu, mu, mu, mu])
    return C

def shape_quad9(r, s):
    def lagrange(x):
        return np.array([0.5*x*(x - 1), 0.5*x*(x + 1), 1 - x**2]), np.array([x - 0.5, x + 0.5, -2*x])
    fr, dfr = lagrange(r)
    fs, dfs = lagrange(s)
    i = [0, 1, 1, 0, 2, 1, 2, 0, 2]
    j = [0, 0, 1, 1, 0, 2, 1, 2, 2]
    N = fr[i]*fs[j]
    dNdr = np.array([dfr[i]*fs[j], fr[i]*dfs[j]])
    return N, dNdr

def shape_tri6(r, s):
    t = 1 - r - s
    N = np.array([t*(2*t - 1), r*(2*r - 1), s*(2*s - 1), 4*r*t, 4*r*s, 4*s*t])
    dNdr = np.array([[1 - 4*t, 4*r - 1, 0, 4*(t - r), 4*s, -4*s],
                     [1 - 4*t, 0, 4*s - 1, -4*r, 4*r, 4*(t - s)]])
    return N, dNdr
