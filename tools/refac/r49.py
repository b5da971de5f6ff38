# bars by outer products, stresses from elongations, tensors by half difference, readers in loops, solver by table
# props: C08 C09 C13 C14 C15 C19 C21 C22
### uelutil
def _unit(coord):
    """length and unit vector of a bar"""
    start, end = coord
    axis = end - start
    length = np.sqrt(axis @ axis)
    return length, axis/length

def spring(coord, stiff):
    _, axis = _unit(coord)
    direction = np.concatenate((-axis, axis))
    return stiff*np.outer(direction, direction), np.zeros((4, 4))

def truss2D(coord, params):
    length, axis = _unit(coord)
    direction = np.concatenate((-axis, axis))
    young, area = params[0], params[1]
    dens = params[-1] if len(params) != 2 else 1.0
    stiff_mat = young*area/length*np.outer(direction, direction)
    mass_mat = dens*area*length/6*np.kron(np.array([[2, 1], [1, 2]]), np.eye(2))
    return stiff_mat, mass_mat

def beam2DU(coord, params):
    L, (nx, ny) = _unit(coord)
    young, area_moment = params[:2]
    dens, area = (1.0, 1.0) if len(params) == 2 else params[2:]
    Q = np.zeros((4, 6))
    Q[0, :2] = Q[2, 3:5] = -ny, nx
    Q[1, 2] = Q[3, 5] = 1
    scale = np.diag([1, L, 1, L])
    stiff_ref = np.array([
        [12, 6, -12, 6],
        [6, 4, -6, 2],
        [-12, -6, 12, -6],
        [6, 2, -6, 4]])
    mass_ref = np.array([
        [156, 22, 54, -13],
        [22, 4, 13, -3],
        [54, 13, 156, -22],
        [-13, -3, -22, 4]])
    T = scale @ Q
    stiff_mat = young*area_moment/L**3 * (T.T @ stiff_ref @ T)
    mass_mat = dens*area*L/420 * (T.T @ mass_ref @ T)
    return stiff_mat, mass_mat
### postprocesor
def stress_truss(nodes, elements, mats, disp):
    stress = np.empty(len(elements))
    for cont, element in enumerate(elements):
        mat_id, ini, end = element[2:5]
        tan_vec = nodes[end, 1:3] - nodes[ini, 1:3]
        elongation = (disp[end] - disp[ini]) @ tan_vec
        stress[cont] = mats[mat_id, 0]*elongation/(tan_vec @ tan_vec)
    return stress

def eigvals(mat, tol=1e-6):
    scale = np.abs(mat).max()
    sxx, sxy, syy = mat[0, 0], mat[0, 1], mat[1, 1]
    if scale < tol:
        nan = np.full(2, np.nan)
        return 0.0, 0.0, nan, nan.copy()
    if abs(sxy) < tol*scale:
        pairs = (sxx, np.array([1, 0])), (syy, np.array([0, 1]))
    else:
        mean, radius = (sxx + syy)/2, np.hypot((sxx - syy)/2, sxy)
        direction = np.array([sxx - mean - radius, sxy])
        direction = direction/np.linalg.norm(direction)
        pairs = (mean - radius, direction), (mean + radius, np.array([-direction[1], direction[0]]))
    (eig1, vec1), (eig2, vec2) = pairs
    if abs(eig2) > abs(eig1):
        return eig2, eig1, vec2, vec1
    return eig1, eig2, vec1, vec2

def principal_dirs(field):
    num = len(field)
    values = np.empty((num, 2))
    vectors = np.empty((num, 2, 2))
    for k, (sxx, syy, sxy) in enumerate(field[:, :3]):
        values[k, 0], values[k, 1], vectors[k, 0], vectors[k, 1] = eigvals(
            np.array([[sxx, sxy], [0, syy]]), tol=1e-6)
    return values[:, 0], values[:, 1], vectors[:, 0], vectors[:, 1]

def energy(disp, stiff):
    return -(disp @ stiff.dot(disp))/2

def plot_truss(nodes, elements, mats, stresses=None, max_val=4,
               min_val=0.5, savefigs=False, title=None, figtitle=None,
               filename=None):
    areas = mats[:, 1]
    spread = areas.max() - areas.min()
    if spread > 1e-6:
        widths = min_val + (max_val - min_val)*(areas - areas.min())/spread
    else:
        widths = np.full(len(areas), 3.0)
    if stresses is None:
        shade = np.ones_like(elements[:, 0])
    else:
        top = max(-stresses.min(), stresses.max())
        shade = 0.5*(stresses + top)/top
    plt.figure(figtitle)
    for number, _, mat, ini, end in elements:
        plt.plot(nodes[[ini, end], 1], nodes[[ini, end], 2],
                 color=plt.cm.seismic(shade[number]), lw=widths[mat])
    plt.title('' if title is None else title)
    plt.axis("image")
    if savefigs:
        plt.savefig("output.pdf" if filename is None else filename)
### preprocesor
def readin(folder=""):
    tables = []
    for name, kind in (('nodes', float), ('mater', float), ('eles', int), ('loads', float)):
        tables.append(np.loadtxt(folder + name + '.txt', ndmin=2, dtype=kind))
    nodes, mats, elements, loads = tables
    return nodes, mats, elements, loads

def echomod(nodes, mats, elements, loads, folder=""):
    for name, table, fmt in (("KNODES", nodes, '%5.2f'), ("KMATES", mats, '%5.2f'),
                             ("KELEMS", elements, '%d'), ("KLOADS", loads, '%5.2f')):
        np.savetxt(folder + name + ".txt", table, fmt=fmt, delimiter=' ')
### solutil
def static_sol(mat, rhs):
    kind = type(mat)
    if kind is ndarray:
        return solve(mat, rhs)
    if kind is csr_matrix:
        return spsolve(mat, rhs)
    raise TypeError("Matrix should be numpy array or csr_matrix.")
