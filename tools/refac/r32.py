# small edits everywhere: renamed variables, reordered statements, early exits, temporaries
# props: C05 C06 C07 C08 C10 C11 C12 C13 C15 C16 C17 C18 C19 C20 C21 C22
### assemutil
def eqcounter(cons, ndof_node=2):
    bc_array = np.array(cons, dtype=int)
    counter = 0
    for row in bc_array:
        for dof in range(ndof_node):
            if not row[dof]:
                row[dof] = counter
                counter = counter + 1
    return counter, bc_array

def retriever(elements, mats, nodes, ele, uel=None):
    row = elements[ele]
    _, elem_type, mat_id = row[:3]
    func = uel if uel is not None else ele_fun(elem_type)
    kloc, mloc = func(nodes[row[3:], 1:], mats[mat_id])
    return kloc, mloc

def assembler(elements, mats, nodes, neq, assem_op, sparse=True, uel=None):
    assemble = sparse_assem if sparse else dense_assem
    return assemble(elements, mats, nodes, neq, assem_op, uel=uel)

def dense_assem(elements, mats, nodes, neq, assem_op, uel=None):
    shape = (neq, neq)
    kglob, mglob = np.zeros(shape), np.zeros(shape)
    ele = 0
    while ele < elements.shape[0]:
        kloc, mloc = retriever(elements, mats, nodes, ele, uel=uel)
        dme = assem_op[ele]
        for row in range(kloc.shape[0]):
            if dme[row] == -1:
                continue
            for col in range(kloc.shape[1]):
                if dme[col] == -1:
                    continue
                kglob[dme[row], dme[col]] = kglob[dme[row], dme[col]] + kloc[row, col]
                mglob[dme[row], dme[col]] = mglob[dme[row], dme[col]] + mloc[row, col]
        ele += 1
    return kglob, mglob

def loadasem(loads, bc_array, neq, ndof_node=2):
    rhs_vec = np.zeros(neq)
    for dof in range(ndof_node):
        for load in loads:
            eq = bc_array[int(load[0]), dof]
            if eq >= 0:
                rhs_vec[eq] = rhs_vec[eq] + load[dof + 1]
    return rhs_vec
### postprocesor
def complete_disp(bc_array, nodes, sol, ndof_node=2):
    sol_complete = np.zeros((len(nodes), ndof_node))
    for node, row in enumerate(bc_array[:len(nodes)]):
        for dof in range(ndof_node):
            if row[dof] >= 0:
                sol_complete[node, dof] = sol[row[dof]]
    return sol_complete

def stress_truss(nodes, elements, mats, disp):
    stress = []
    for elem in elements:
        ini, end = elem[3:5]
        vec = nodes[end, 1:3] - nodes[ini, 1:3]
        length = np.sqrt(np.sum(vec**2))
        unit = vec/length
        strain = unit @ (disp[end] - disp[ini])/length
        stress.append(mats[elem[2], 0]*strain)
    return np.array(stress)

def plot_node_field(field, nodes, elements, plt_type="contourf", levels=12, savefigs=False, title=None,
                    figtitle=None, filename=None):
    tri = mesh2tri(nodes, elements)
    columns = [field] if field.ndim == 1 else [field[:, k] for k in range(field.shape[1])]
    nfields = len(columns)
    if title is None:
        title = [""]*nfields
    if figtitle is None:
        nfigs = len(plt.get_fignums())
        figtitle = list(range(nfigs + 1, nfigs + nfields + 1))
    if filename is None:
        filename = ["output{}.pdf".format(k) for k in range(nfields)]
    for values, name, fig, path in zip(columns, title, figtitle, filename):
        plt.figure(fig)
        tri_plot(tri, values, title=name, levels=levels, plt_type=plt_type, savefigs=savefigs, filename=path)
        if savefigs:
            plt.savefig(path)
### preprocesor
def node_writer(points, point_data):
    nodes_array = np.zeros([len(points), 5])
    nodes_array[:, 0] = np.arange(len(points))
    nodes_array[:, 1:3] = points[:, [0, 1]]
    return nodes_array

def loading(cells, cell_data, phy_lin, P_x, P_y):
    lines = cells["line"]
    phy_line = cell_data["line"]["gmsh:physical"]
    id_carga = [cont for cont, tag in enumerate(phy_line) if tag == phy_lin]
    nodes_carga = sorted(set(lines[id_carga].ravel()))
    share = np.array([P_x, P_y], dtype=float)/len(nodes_carga)
    return np.array([[node, share[0], share[1]] for node in nodes_carga])
### uelutil
def spring(coord, stiff):
    vec = coord[1, :] - coord[0, :]
    unit = vec/np.sqrt(vec.dot(vec))
    row = np.concatenate((unit, -unit))
    return stiff*np.outer(row, row), np.zeros((4, 4))
### blochutil
def reassign_dof_bloch(ndofs, dofs_ima, dofs_ref):
    new_num = []
    cont = 0
    for dof in range(ndofs):
        if dof in dofs_ima:
            new_num.append(0)
        else:
            new_num.append(cont)
            cont += 1
    for k, ima_dof in enumerate(dofs_ima):
        new_num[ima_dof] = new_num[dofs_ref[k]]
    return new_num
