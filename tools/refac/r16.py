# preprocesor: numpy style
# props: C16 C17 C14 C21
### preprocesor
def _group_nodes(cells, cell_data, phy_lin):
    in_group = np.asarray(cell_data['line']['gmsh:physical']) == phy_lin
    return np.unique(cells['line'][in_group])

def boundary_conditions(cells, cell_data, phy_lin, nodes_array, bc_x, bc_y):
    nodes_frontera = _group_nodes(cells, cell_data, phy_lin)
    nodes_array[nodes_frontera, 3:5] = [bc_x, bc_y]
    return nodes_array

def loading(cells, cell_data, phy_lin, P_x, P_y):
    nodes_carga = _group_nodes(cells, cell_data, phy_lin)
    ncargas = nodes_carga.size
    cargas = np.empty((ncargas, 3))
    cargas[:, 0] = nodes_carga
    cargas[:, 1:] = np.array([P_x, P_y])/ncargas
    return cargas

def ele_writer(cells, cell_data, ele_tag, phy_sur, ele_type, mat_tag, nini):
    nnode = {'triangle': 3, 'triangle6': 6, 'quad': 4}[ele_tag]
    ele_id = np.flatnonzero(cell_data[ele_tag]['gmsh:physical'] == phy_sur)
    nf = nini + ele_id.size
    els_array = np.zeros([ele_id.size, 3 + nnode], dtype=int)
    els_array[:, 0] = np.arange(nini, nf)
    els_array[:, 1:3] = ele_type, mat_tag
    els_array[:, 3:] = cells[ele_tag][ele_id]
    return nf, els_array

def node_writer(points, point_data):
    npts = len(points)
    return np.column_stack((np.arange(npts), points[:, 0], points[:, 1], np.zeros(npts), np.zeros(npts)))

def rect_grid(length, height, nx, ny, eletype=None):
    x, y = np.meshgrid(np.linspace(-length/2, length/2, nx + 1), np.linspace(-height/2, height/2, ny + 1))
    row, col = np.divmod(np.arange(nx*ny), nx)
    first = row*(nx + 1) + col
    els = np.zeros((nx*ny, 7), dtype=int)
    els[:, 0] = np.arange(nx*ny)
    els[:, 1] = 1
    els[:, 3] = first
    els[:, 4] = first + 1
    els[:, 5] = first + nx + 2
    els[:, 6] = first + nx + 1
    return x.flatten(), y.flatten(), els
