# bars and beams by signs and index maps; loads gathered by a dictionary; boundary nodes through sorted(set)
# props: C08 C09 C12 C13 C17 C21 C22
### uelutil
def _axis(coord):
    dx, dy = coord[1, :] - coord[0, :]
    length = (dx**2 + dy**2)**0.5
    return length, dx/length, dy/length

def spring(coord, stiff):
    _, nx, ny = _axis(coord)
    block = np.array([[nx*nx, nx*ny], [ny*nx, ny*ny]])
    stiff_mat = np.zeros((4, 4))
    for i in range(2):
        for j in range(2):
            sign = 1 if i == j else -1
            stiff_mat[2*i:2*i + 2, 2*j:2*j + 2] = sign*stiff*block
    return stiff_mat, np.zeros((4, 4))

def truss2D(coord, params):
    length, nx, ny = _axis(coord)
    young, area, *rest = params
    dens = rest[-1] if rest else 1.0
    row = np.array([-nx, -ny, nx, ny])
    stiff_mat = (area*young/length)*row[:, None]*row[None, :]
    mass_mat = np.zeros((4, 4))
    mass = area*length*dens
    for k in range(4):
        mass_mat[k, k] = mass/3
        mass_mat[k, (k + 2) % 4] = mass/6
    return stiff_mat, mass_mat

def beam2DU(coord, params):
    L, nx, ny = _axis(coord)
    young, area_moment = params[0], params[1]
    if len(params) == 2:
        dens = area = 1.0
    else:
        dens, area = params[2:]
    Q = np.zeros((4, 6))
    Q[0, 0], Q[0, 1], Q[1, 2] = -ny, nx, 1
    Q[2:, 3:] = Q[:2, :3]
    k0, k1, k2 = 12, 6*L, L*L
    local = young*area_moment/L**3*np.array([
        [k0, k1, -k0, k1],
        [k1, 4*k2, -k1, 2*k2],
        [-k0, -k1, k0, -k1],
        [k1, 2*k2, -k1, 4*k2]])
    inertia = area*L*dens/420*np.array([
        [156, 22*L, 54, -13*L],
        [22*L, 4*k2, 13*L, -3*k2],
        [54, 13*L, 156, -22*L],
        [-13*L, -3*k2, -22*L, 4*k2]])
    return np.einsum("ai,ab,bj->ij", Q, local, Q), np.einsum("ai,ab,bj->ij", Q, inertia, Q)
### assemutil
def loadasem(loads, bc_array, neq, ndof_node=2):
    rhs_vec = np.zeros([neq])
    nodes = loads[:, 0].astype(int)
    for dof in range(ndof_node):
        dof_ids = bc_array[nodes, dof]
        active = dof_ids != -1
        np.add.at(rhs_vec, dof_ids[active], loads[active, dof + 1])
    return rhs_vec
### preprocesor
def boundary_conditions(cells, cell_data, phy_lin, nodes_array, bc_x, bc_y):
    phy_line = cell_data["line"]["gmsh:physical"]
    group = [line for line, tag in zip(cells["line"], phy_line) if tag == phy_lin]
    touched = sorted({node for line in group for node in line})
    for node in touched:
        nodes_array[node, 3:5] = bc_x, bc_y
    return nodes_array

def loading(cells, cell_data, phy_lin, P_x, P_y):
    phy_line = cell_data["line"]["gmsh:physical"]
    is_loaded = np.array(phy_line) == phy_lin
    nodes_carga = list(set(cells["line"][is_loaded].ravel()))
    ncargas = len(nodes_carga)
    cargas = np.zeros((ncargas, 3))
    cargas[:, 0] = nodes_carga
    cargas[:, 1:] = P_x/ncargas, P_y/ncargas
    return cargas
### postprocesor
def energy(disp, stiff):
    return -0.5*np.dot(stiff.dot(disp), disp)
