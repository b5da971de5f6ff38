# preprocesor and blochutil: flatnonzero, unique, linspace and meshgrid, column_stack, dictionaries of images
# props: C14 C16 C17 C18 C20 C21
### preprocesor
def readin(folder=""):
    def table(name, **options):
        return np.loadtxt(folder + name + '.txt', ndmin=2, **options)
    return table('nodes'), table('mater'), table('eles', dtype=int), table('loads')

def _in_group(phy, tag):
    return np.flatnonzero(np.asarray(phy) == tag)

def ele_writer(cells, cell_data, ele_tag, phy_sur,  ele_type, mat_tag, nini):
    ids = _in_group(cell_data[ele_tag]['gmsh:physical'], phy_sur)
    nnode = {'triangle': 3, 'triangle6': 6, 'quad': 4}[ele_tag]
    nels = len(ids)
    nf = nini + nels
    els_array = np.empty([nels, 3 + nnode], dtype=int)
    els_array[:, 0] = np.arange(nini, nf)
    els_array[:, 1] = ele_type
    els_array[:, 2] = mat_tag
    els_array[:, 3:] = cells[ele_tag][ids]
    return nf, els_array

def node_writer(points , point_data):
    npts = len(points)
    return np.column_stack((np.arange(npts, dtype=float), points[:, 0], points[:, 1], np.zeros((npts, 2))))

def _line_nodes(cells, cell_data, phy_lin):
    ids = _in_group(cell_data["line"]["gmsh:physical"], phy_lin)
    return np.unique(cells["line"][ids])

def boundary_conditions(cells, cell_data, phy_lin, nodes_array, bc_x, bc_y):
    for node in _line_nodes(cells, cell_data, phy_lin):
        nodes_array[node, 3:5] = bc_x, bc_y
    return nodes_array

def loading(cells, cell_data, phy_lin, P_x, P_y):
    ids = _line_nodes(cells, cell_data, phy_lin)
    cargas = np.zeros((len(ids), 3))
    cargas[:, 0] = ids
    cargas[:, 1:] = np.array([P_x, P_y])/len(ids)
    return cargas

def rect_grid(length, height, nx, ny, eletype=None):
    xs = np.linspace(-length/2, length/2, nx + 1)
    ys = np.linspace(-height/2, height/2, ny + 1)
    x, y = np.meshgrid(xs, ys)
    els = np.zeros((nx*ny, 7), dtype=int)
    for cont in range(nx*ny):
        row, col = divmod(cont, nx)
        corner = row*(nx + 1) + col
        els[cont] = [cont, 1, 0, corner, corner + 1, corner + nx + 2, corner + nx + 1]
    return x.flatten(), y.flatten(), els
### blochutil
def reassign_dof_bloch(ndofs, dofs_ima, dofs_ref):
    partner = dict(zip(dofs_ima, dofs_ref))
    new_num = [0]*ndofs
    counter = 0
    for dof in range(ndofs):
        if dof in partner:
            continue
        new_num[dof] = counter
        counter += 1
    for ima, ref in partner.items():
        new_num[ima] = new_num[ref]
    return new_num

def bloch_transform_mat(wavevector, coords, ndofs, nodes_ref, nodes_ima,
                        dofs_ref, dofs_ima, nodes_ref_dof, nodes_ima_dof,
                        new_num):
    images = set(dofs_ima)
    entries = [(dof, new_num[dof], 1) for dof in range(ndofs) if dof not in images]
    for node_ima, node_ref in zip(nodes_ima, nodes_ref):
        phase = np.exp(1j*(wavevector @ (coords[node_ima] - coords[node_ref])))
        entries += [(ima, new_num[ref], phase)
                    for ref, ima in zip(nodes_ref_dof[node_ref], nodes_ima_dof[node_ima])]
    rows, cols, vals = zip(*entries)
    return coo_matrix((vals, (rows, cols)), shape=(ndofs, ndofs - len(dofs_ref))).tocsr()
