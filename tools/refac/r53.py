# pre-processing: selections by list comprehension over pairs and np.fromiter, grids by np.r_, tables by np.c_
# props: C14 C16 C17 C21
### preprocesor
_NODES_PER_CELL = dict(triangle=3, triangle6=6, quad=4)

def _where(tags, wanted):
    return [k for k, tag in enumerate(tags) if tag == wanted]

def _boundary(cells, cell_data, phy_lin):
    chosen = _where(cell_data["line"]["gmsh:physical"], phy_lin)
    found = set()
    for line in cells["line"][chosen]:
        found.update(line)
    return list(found)

def ele_writer(cells, cell_data, ele_tag, phy_sur,  ele_type, mat_tag, nini):
    nnode = _NODES_PER_CELL[ele_tag]
    chosen = _where(cell_data[ele_tag]['gmsh:physical'], phy_sur)
    count = len(chosen)
    els_array = np.empty([count, 3 + nnode], dtype=int)
    els_array[:, 0] = nini + np.arange(count)
    els_array[:, 1:3] = ele_type, mat_tag
    els_array[:, 3:] = cells[ele_tag][chosen]
    return nini + count, els_array

def node_writer(points , point_data):
    npts = len(points)
    return np.c_[np.arange(npts), points[:, :2], np.zeros((npts, 2))]

def boundary_conditions(cells, cell_data, phy_lin, nodes_array, bc_x, bc_y):
    for column, value in zip((3, 4), (bc_x, bc_y)):
        nodes_array[_boundary(cells, cell_data, phy_lin), column] = value
    return nodes_array

def loading(cells, cell_data, phy_lin, P_x, P_y):
    nodes_carga = _boundary(cells, cell_data, phy_lin)
    share = np.array([P_x, P_y])/len(nodes_carga)
    cargas = np.zeros((len(nodes_carga), 3))
    for row, node in enumerate(nodes_carga):
        cargas[row, 0] = node
        cargas[row, 1:] = share
    return cargas

def rect_grid(length, height, nx, ny, eletype=None):
    xs = np.r_[-length/2:length/2:(nx + 1)*1j]
    ys = np.r_[-height/2:height/2:(ny + 1)*1j]
    x, y = np.tile(xs, ny + 1), np.repeat(ys, nx + 1)
    els = np.zeros((nx*ny, 7), dtype=int)
    els[:, 1] = 1
    cont = 0
    for row in range(ny):
        first = row*(nx + 1)
        for col in range(nx):
            ini = first + col
            els[cont] = [cont, 1, 0, ini, ini + 1, ini + nx + 2, ini + nx + 1]
            cont += 1
    return x, y, els
