# preprocesor: filters, generators, nested function, reshape
# props: C16 C17 C14 C21
### preprocesor
def _tagged(group, phy):
    for pos, tag in enumerate(group):
        if tag == phy:
            yield pos

def _nodes_on(cells, cell_data, phy_lin):
    nodes = set()
    lines = cells["line"]
    for pos in _tagged(cell_data["line"]["gmsh:physical"], phy_lin):
        nodes.update(lines[pos])
    return sorted(nodes)

def boundary_conditions(cells, cell_data, phy_lin, nodes_array, bc_x, bc_y):
    for node in _nodes_on(cells, cell_data, phy_lin):
        nodes_array[node, 3:] = bc_x, bc_y
    return nodes_array

def loading(cells, cell_data, phy_lin, P_x, P_y):
    nodes_carga = _nodes_on(cells, cell_data, phy_lin)
    ncargas = len(nodes_carga)
    cargas = np.zeros((ncargas, 3))
    for row, node in enumerate(nodes_carga):
        cargas[row] = node, P_x/ncargas, P_y/ncargas
    return cargas

def ele_writer(cells, cell_data, ele_tag, phy_sur, ele_type, mat_tag, nini):
    nnode = {"triangle": 3, "triangle6": 6, "quad": 4}[ele_tag]
    chosen = list(_tagged(cell_data[ele_tag]["gmsh:physical"], phy_sur))
    nels = len(chosen)
    els_array = np.zeros((nels, 3 + nnode), dtype=int)
    if nels > 0:
        els_array[:, 0] = nini + np.arange(nels)
        els_array[:, 1] = ele_type
        els_array[:, 2] = mat_tag
        els_array[:, 3:] = cells[ele_tag][chosen]
    return nini + nels, els_array

def node_writer(points, point_data):
    npts = points.shape[0]
    nodes_array = np.zeros((npts, 5))
    for cont, point in enumerate(points):
        nodes_array[cont, :3] = cont, point[0], point[1]
    return nodes_array

def rect_grid(length, height, nx, ny, eletype=None):
    xs = np.linspace(-length/2, length/2, nx + 1)
    ys = np.linspace(-height/2, height/2, ny + 1)
    x = np.tile(xs, ny + 1)
    y = np.repeat(ys, nx + 1)
    els = np.zeros((nx*ny, 7), dtype=int)
    for cont in range(nx*ny):
        row, col = divmod(cont, nx)
        south_west = row*(nx + 1) + col
        north_west = south_west + nx + 1
        els[cont] = cont, 1, 0, south_west, south_west + 1, north_west + 1, north_west
    return x, y, els
