# preprocesor, other style
# props: C16 C17 C21
### preprocesor
def boundary_conditions(cells, cell_data, phy_lin, nodes_array, bc_x, bc_y):
    lines = cells["line"]
    phy_line = cell_data["line"]["gmsh:physical"]
    for cont in range(len(phy_line)):
        if phy_line[cont] == phy_lin:
            for node in lines[cont]:
                nodes_array[node, 3] = bc_x
                nodes_array[node, 4] = bc_y
    return nodes_array

def loading(cells, cell_data, phy_lin, P_x, P_y):
    lines = cells["line"]
    phy_line = cell_data["line"]["gmsh:physical"]
    id_carga = np.where(np.array(phy_line) == phy_lin)[0]
    nodes_carga = np.unique(lines[id_carga].flatten())
    ncargas = len(nodes_carga)
    cargas = np.zeros((ncargas, 3))
    cargas[:, 0] = nodes_carga
    cargas[:, 1] = P_x/ncargas
    cargas[:, 2] = P_y/ncargas
    return cargas

def ele_writer(cells, cell_data, ele_tag, phy_sur, ele_type, mat_tag, nini):
    eles = cells[ele_tag]
    dict_nnode = {"triangle": 3, "triangle6": 6, "quad": 4}
    nnode = dict_nnode[ele_tag]
    phy_surface = cell_data[ele_tag]["gmsh:physical"]
    ele_id = []
    for cont in range(len(phy_surface)):
        if phy_surface[cont] == phy_sur:
            ele_id.append(cont)
    els_array = np.zeros([len(ele_id), 3 + nnode], dtype=int)
    for row, cont in enumerate(ele_id):
        els_array[row, 0] = nini + row
        els_array[row, 1] = ele_type
        els_array[row, 2] = mat_tag
        els_array[row, 3:] = eles[cont]
    nf = nini + len(ele_id)
    return nf, els_array

def rect_grid(length, height, nx, ny, eletype=None):
    y, x = np.mgrid[-height/2:height/2:(ny + 1)*1j,
                    -length/2:length/2:(nx + 1)*1j]
    els = np.zeros((nx*ny, 7), dtype=int)
    els[:, 1] = 1
    cont = 0
    for row in range(ny):
        for col in range(nx):
            els[cont, 0] = cont
            els[cont, 3:7] = [cont + row, cont + row + 1, cont + row + nx + 2, cont + row + nx + 1]
            cont += 1
    return x.flatten(), y.flatten(), els
