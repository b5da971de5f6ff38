# preprocesor and blochutil: concatenate, slices assigned from tuples, sorted sets, nested comprehension, counters
# props: C14 C16 C17 C18 C20 C21
### preprocesor
_FILES = {"nodes": "nodes.txt", "mats": "mater.txt", "elements": "eles.txt", "loads": "loads.txt"}

def readin(folder=""):
    tables = []
    for name in ("nodes", "mats", "elements", "loads"):
        dtype = int if name == "elements" else float
        tables.append(np.loadtxt(folder + _FILES[name], ndmin=2, dtype=dtype))
    nodes, mats, elements, loads = tables
    return nodes, mats, elements, loads

def _select(groups, number):
    selected = []
    for position, group in enumerate(groups):
        if group == number:
            selected.append(position)
    return selected

def ele_writer(cells, cell_data, ele_tag, phy_sur,  ele_type, mat_tag, nini):
    chosen = _select(cell_data[ele_tag]['gmsh:physical'], phy_sur)
    conn = cells[ele_tag][chosen]
    nnode = 3 if ele_tag == 'triangle' else 6 if ele_tag == 'triangle6' else 4
    els_array = np.zeros((len(chosen), 3 + nnode), dtype=int)
    for row, nodes in enumerate(conn):
        els_array[row, :3] = nini + row, ele_type, mat_tag
        els_array[row, 3:] = nodes
    return nini + len(chosen), els_array

def node_writer(points , point_data):
    nodes_array = np.zeros((len(points), 5))
    for number, point in enumerate(points):
        nodes_array[number, 0] = number
        nodes_array[number, 1:3] = point[:2]
    return nodes_array

def _boundary_nodes(cells, cell_data, phy_lin):
    lines = cells["line"][_select(cell_data["line"]["gmsh:physical"], phy_lin)]
    return sorted(set(lines.ravel().tolist()))

def boundary_conditions(cells, cell_data, phy_lin, nodes_array, bc_x, bc_y):
    nodes_array[_boundary_nodes(cells, cell_data, phy_lin), 3:] = [bc_x, bc_y]
    return nodes_array

def loading(cells, cell_data, phy_lin, P_x, P_y):
    nodes_carga = _boundary_nodes(cells, cell_data, phy_lin)
    ncargas = len(nodes_carga)
    return np.array([[node, P_x/ncargas, P_y/ncargas] for node in nodes_carga]).reshape(ncargas, 3)

def rect_grid(length, height, nx, ny, eletype=None):
    x = np.tile(np.linspace(-length/2, length/2, nx + 1), ny + 1)
    y = np.repeat(np.linspace(-height/2, height/2, ny + 1), nx + 1)
    row, col = np.divmod(np.arange(nx*ny), nx)
    first = row*(nx + 1) + col
    els = np.zeros((nx*ny, 7), dtype=int)
    els[:, 0] = np.arange(nx*ny)
    els[:, 1] = 1
    els[:, 3] = first
    els[:, 4] = first + 1
    els[:, 5] = first + nx + 2
    els[:, 6] = first + nx + 1
    return x, y, els
### blochutil
def reassign_dof_bloch(ndofs, dofs_ima, dofs_ref):
    new_num = list(range(ndofs))
    removed = 0
    for cont_dof in range(ndofs):
        if cont_dof in dofs_ima:
            removed += 1
        else:
            new_num[cont_dof] = cont_dof - removed
    for dof_ima, dof_ref in zip(dofs_ima, dofs_ref):
        new_num[dof_ima] = new_num[dof_ref]
    return new_num

def bloch_transform_mat(wavevector, coords, ndofs, nodes_ref, nodes_ima,
                        dofs_ref, dofs_ima, nodes_ref_dof, nodes_ima_dof,
                        new_num):
    inner = [dof for dof in range(ndofs) if dof not in dofs_ima]
    rows = list(inner)
    cols = [new_num[dof] for dof in inner]
    vals = [1.0 + 0.0j]*len(inner)
    for node_ima, node_ref in zip(nodes_ima, nodes_ref):
        angle = np.dot(wavevector, coords[node_ima] - coords[node_ref])
        phase = np.cos(angle) + 1j*np.sin(angle)
        images, references = nodes_ima_dof[node_ima], nodes_ref_dof[node_ref]
        for cont_ima, cont_ref in zip(images, references):
            rows += [cont_ima]
            cols += [new_num[cont_ref]]
            vals += [phase]
    return coo_matrix((vals, (rows, cols)), shape=(ndofs, ndofs - len(dofs_ref))).tocsr()
