# beams, shapes, gauss
# props: C01 C02 C05 C06 C08 C09 C22
### uelutil
def _frame(coord):
    dx, dy = coord[1, :] - coord[0, :]
    L = np.hypot(dx, dy)
    return dx/L, dy/L, L

def beam2DU(coord, params):
    nx, ny, L = _frame(coord)
    Q = np.zeros((4, 6))
    Q[0, :2] = -ny, nx
    Q[1, 2] = 1
    Q[2, 3:5] = -ny, nx
    Q[3, 5] = 1
    young, area_moment = params[:2]
    bending_stiff = area_moment*young/L**3
    stiff_mat = bending_stiff*np.array([
        [12, 6*L, -12, 6*L],
        [6*L, 4*L**2, -6*L, 2*L**2],
        [-12, -6*L, 12, -6*L],
        [6*L, 2*L**2, -6*L, 4*L**2]])
    if len(params) == 2:
        dens = 1.0
        area = 1.0
    else:
        dens, area = params[2:]
    mass = area*L*dens
    mass_mat = mass/420*np.array([
        [156, 22*L, 54, -13*L],
        [22*L, 4*L**2, 13*L, -3*L**2],
        [54, 13*L, 156, -22*L],
        [-13*L, -3*L**2, -22*L, 4*L**2]])
    return Q.T @ stiff_mat @ Q, Q.T @ mass_mat @ Q

def beam2D(coord, params):
    nx, ny, L = _frame(coord)
    rot = np.array([[nx, ny, 0], [-ny, nx, 0], [0, 0, 1]])
    Q = np.zeros((6, 6))
    Q[:3, :3] = rot
    Q[3:, 3:] = rot
    young, area_moment, area = params[:3]
    EI = area_moment*young
    ratio = area/area_moment
    stiff_mat = EI/L**3*np.array([
        [ratio*L**2, 0, 0, -ratio*L**2, 0, 0],
        [0, 12, 6*L, 0, -12, 6*L],
        [0, 6*L, 4*L**2, 0, -6*L, 2*L**2],
        [-ratio*L**2, 0, 0, ratio*L**2, 0, 0],
        [0, -12, -6*L, 0, 12, -6*L],
        [0, 6*L, 2*L**2, 0, -6*L, 4*L**2]])
    dens = params[3] if len(params) != 3 else 1.0
    mass = area*L*dens
    mass_mat = mass/420*np.array([
        [140, 0, 0, 70, 0, 0],
        [0, 156, 22*L, 0, 54, -13*L],
        [0, 22*L, 4*L**2, 0, 13*L, -3*L**2],
        [70, 0, 0, 140, 0, 0],
        [0, 54, 13*L, 0, 156, -22*L],
        [0, -13*L, -3*L**2, 0, -22*L, 4*L**2]])
    stiff_mat = np.linalg.multi_dot([Q.T, stiff_mat, Q])
    mass_mat = np.linalg.multi_dot([Q.T, mass_mat, Q])
    return stiff_mat, mass_mat
### femutil
def eletype(eletype):
    elem_id = {
        1: (8, 4, 4), 2: (12, 6, 7), 3: (6, 3, 3), 4: (18, 9, 9),
        5: (4, 2, 3), 6: (4, 2, 3), 7: (6, 2, 3), 8: (6, 2, 3)}
    if eletype not in elem_id:
        raise ValueError("You entered an invalid type of element.")
    return elem_id[eletype]

def shape_quad4(r, s):
    signs_r = np.array([-1, 1, 1, -1])
    signs_s = np.array([-1, -1, 1, 1])
    N = 0.25*(1 + signs_r*r)*(1 + signs_s*s)
    dNdr = 0.25*np.array([signs_r*(1 + signs_s*s), signs_s*(1 + signs_r*r)])
    return N, dNdr

def shape_tri6(r, s):
    t = 1 - r - s
    N = np.array([t*(2*t - 1), r*(2*r - 1), s*(2*s - 1), 4*r*t, 4*r*s, 4*s*t])
    dNdr = np.array([
        [1 - 4*t, 4*r - 1, 0, 4*(t - r), 4*s, -4*s],
        [1 - 4*t, 0, 4*s - 1, -4*r, 4*r, 4*(t - s)]])
    return N, dNdr

def shape_quad9(r, s):
    lr = np.array([0.5*r*(r - 1), 1 - r**2, 0.5*r*(r + 1)])
    ls = np.array([0.5*s*(s - 1), 1 - s**2, 0.5*s*(s + 1)])
    dr = np.array([r - 0.5, -2*r, r + 0.5])
    ds = np.array([s - 0.5, -2*s, s + 0.5])
    ir = [0, 2, 2, 0, 1, 2, 1, 0, 1]
    js = [0, 0, 2, 2, 0, 1, 2, 1, 1]
    N = lr[ir]*ls[js]
    return N, np.array([dr[ir]*ls[js], lr[ir]*ds[js]])
