# preprocesor
# props: C16 C17 C21
### preprocesor
def _group_ids(tags, tag):
    return [cont for cont, value in enumerate(tags) if value == tag]

def _group_nodes(cells, cell_data, phy_lin):
    lines = cells["line"]
    ids = _group_ids(cell_data["line"]["gmsh:physical"], phy_lin)
    return list(set(lines[ids].flatten()))

def ele_writer(cells, cell_data, ele_tag, phy_sur, ele_type, mat_tag, nini):
    eles = cells[ele_tag]
    nnode = {"triangle": 3, "triangle6": 6, "quad": 4}[ele_tag]
    ele_id = _group_ids(cell_data[ele_tag]["gmsh:physical"], phy_sur)
    nels = len(ele_id)
    nf = nini + nels
    els_array = np.zeros([nels, 3 + nnode], dtype=int)
    els_array[:, 0] = np.arange(nini, nf)
    els_array[:, 1] = ele_type
    els_array[:, 2] = mat_tag
    els_array[:, 3:] = eles[ele_id, :]
    return nf, els_array

def node_writer(points, point_data):
    npts = points.shape[0]
    nodes_array = np.zeros([npts, 5])
    nodes_array[:, 0] = np.arange(npts)
    nodes_array[:, 1] = points[:, 0]
    nodes_array[:, 2] = points[:, 1]
    return nodes_array

def boundary_conditions(cells, cell_data, phy_lin, nodes_array, bc_x, bc_y):
    nodes_frontera = _group_nodes(cells, cell_data, phy_lin)
    nodes_array[nodes_frontera, 3] = bc_x
    nodes_array[nodes_frontera, 4] = bc_y
    return nodes_array

def loading(cells, cell_data, phy_lin, P_x, P_y):
    nodes_carga = _group_nodes(cells, cell_data, phy_lin)
    ncargas = len(nodes_carga)
    cargas = np.zeros((ncargas, 3))
    cargas[:, 0] = nodes_carga
    cargas[:, 1:] = [P_x/ncargas, P_y/ncargas]
    return cargas

def rect_grid(length, height, nx, ny, eletype=None):
    y, x = np.mgrid[-height/2:height/2:(ny + 1)*1j,
                    -length/2:length/2:(nx + 1)*1j]
    els = np.zeros((nx*ny, 7), dtype=int)
    els[:, 0] = np.arange(nx*ny)
    els[:, 1] = 1
    for row in range(ny):
        for col in range(nx):
            cont = row*nx + col
            first = cont + row
            els[cont, 3] = first
            els[cont, 4] = first + 1
            els[cont, 5] = first + nx + 2
            els[cont, 6] = first + nx + 1
    return x.flatten(), y.flatten(), els
