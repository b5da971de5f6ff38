# femutil: other forms of the shape functions and operators
# props: C01 C02 C03 C04 C06 C14 C15 C19 C22 C21
### femutil
def _lame(params):
    young, poisson = params
    shear = young/(2*(1 + poisson))
    return poisson*young/((1 + poisson)*(1 - 2*poisson)), shear

def _plane(params):
    lamda, mu = _lame(params)
    C = lamda*np.ones((4, 4))
    C[2, :] = C[:, 2] = 0
    C += np.diag([2*mu, 2*mu, mu, 2*mu])
    return C

def elast_mat_2d(params):
    return _plane(params)

def elast_mat_axi(params):
    return _plane(params)

def elast_mat(params):
    lamda, mu = _lame(params)
    C = np.diag([2*mu, 2*mu, 2*mu, mu, mu, mu])
    C[:3, :3] += lamda
    return C

def shape_tri3(r, s):
    N = np.array([1 - r - s, r, s])
    dNdr = np.vstack(([-1, 1, 0], [-1, 0, 1]))
    return N, dNdr

def shape_tet4(r, s, t):
    first = 1 - (r + s + t)
    N = np.array([first, r, s, t])
    dNdr = np.zeros((3, 4), dtype=int)
    dNdr[:, 0] = -1
    for axis in range(3):
        dNdr[axis, axis + 1] = 1
    return N, dNdr

def shape_hex8(r, s, t):
    corners = np.array([[-1, -1, -1], [1, -1, -1], [1, 1, -1], [-1, 1, -1],
                        [-1, -1, 1], [1, -1, 1], [1, 1, 1], [-1, 1, 1]])
    fr = 1 + corners[:, 0]*r
    fs = 1 + corners[:, 1]*s
    ft = 1 + corners[:, 2]*t
    N = fr*fs*ft/8
    dNdr = np.array([corners[:, 0]*fs*ft, fr*corners[:, 1]*ft, fr*fs*corners[:, 2]])/8
    return N, dNdr

def shape_quad8(r, s):
    corners = [(-1, -1), (1, -1), (1, 1), (-1, 1)]
    N, dr, ds = [], [], []
    for a, b in corners:
        N.append(0.25*(1 + a*r)*(1 + b*s)*(a*r + b*s - 1))
        dr.append(0.25*a*(1 + b*s)*(2*a*r + b*s))
        ds.append(0.25*b*(1 + a*r)*(a*r + 2*b*s))
    for a, b in [(0, -1), (1, 0), (0, 1), (-1, 0)]:
        if a == 0:
            N.append(0.5*(1 - r**2)*(1 + b*s))
            dr.append(-r*(1 + b*s))
            ds.append(0.5*b*(1 - r**2))
        else:
            N.append(0.5*(1 + a*r)*(1 - s**2))
            dr.append(0.5*a*(1 - s**2))
            ds.append(-s*(1 + a*r))
    return np.array(N), np.array([dr, ds])

def elast_diff_3d(r, s, t, coord, interp=shape_hex8):
    N, dNdr = interp(r, s, t)
    det, jaco_inv = jacoper(dNdr, coord)
    dNdx, dNdy, dNdz = jaco_inv @ dNdr
    H = np.kron(N, np.eye(3))
    B = np.zeros((6, 3*len(N)))
    B[0, 0::3] = B[5, 1::3] = B[4, 2::3] = dNdx
    B[1, 1::3] = B[5, 0::3] = B[3, 2::3] = dNdy
    B[2, 2::3] = B[3, 1::3] = B[4, 0::3] = dNdz
    return H, B, det

def jacoper(dNdr, coord):
    jaco = np.dot(dNdr, coord)
    det = np.linalg.det(jaco)
    if np.isclose(abs(det), 0.0):
        raise ValueError("Jacobian close to zero. Check the shape of your elements!")
    if det < 0:
        raise ValueError("Jacobian is negative. Check your elements orientation!")
    return det, np.linalg.inv(jaco)

def eletype(eletype):
    elem_id = {
        1: (8, 4, 4), 2: (12, 6, 7), 3: (6, 3, 3), 4: (18, 9, 9), 5: (4, 2, 3),
        6: (4, 2, 3), 7: (6, 2, 3), 8: (6, 2, 3),
        }
    if eletype not in elem_id:
        raise ValueError("You entered an invalid type of element.")
    return elem_id[eletype]
