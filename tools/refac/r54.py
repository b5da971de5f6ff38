# Bloch: membership table, phases by a helper, triplets joined; solver by isinstance chain; one driver for both entries
# props: C13 C14 C18 C21
### blochutil
def _phase(wavevector, shift):
    return np.exp(1j*np.inner(wavevector, shift))

def reassign_dof_bloch(ndofs, dofs_ima, dofs_ref):
    new_num = []
    cont = 0
    for dof in range(ndofs):
        inner = dof not in dofs_ima
        new_num.append(cont if inner else 0)
        cont += 1 if inner else 0
    for pos in range(len(dofs_ima)):
        new_num[dofs_ima[pos]] = new_num[dofs_ref[pos]]
    return new_num

def bloch_transform_mat(wavevector, coords, ndofs, nodes_ref, nodes_ima,
                        dofs_ref, dofs_ima, nodes_ref_dof, nodes_ima_dof,
                        new_num):
    inner = [dof for dof in range(ndofs) if dof not in dofs_ima]
    entries = [(dof, new_num[dof], 1) for dof in inner]
    for node_ima, node_ref in zip(nodes_ima, nodes_ref):
        phase = _phase(wavevector, coords[node_ima] - coords[node_ref])
        for ref, ima in zip(nodes_ref_dof[node_ref], nodes_ima_dof[node_ima]):
            entries.append((ima, new_num[ref], phase))
    rows = [entry[0] for entry in entries]
    cols = [entry[1] for entry in entries]
    vals = [entry[2] for entry in entries]
    shape = (ndofs, ndofs - len(dofs_ref))
    return coo_matrix((vals, (rows, cols)), shape=shape).tocsr()
### solutil
_SOLVERS = {csr_matrix: spsolve, ndarray: solve}

def static_sol(mat, rhs):
    if type(mat) not in _SOLVERS:
        raise TypeError("Matrix should be numpy array or csr_matrix.")
    return _SOLVERS[type(mat)](mat, rhs)
### solids_GUI
def _report(nodes, elements, neq):
    for what, number in (("nodes", nodes.shape[0]), ("elements", elements.shape[0]), ("equations", neq)):
        print("Number of {}: {}".format(what, number))

def _solve(nodes, cons, elements, mats, loads):
    assem_op, bc_array, neq = ass.DME(cons, elements)
    _report(nodes, elements, neq)
    stiff_mat, _ = ass.assembler(elements, mats, nodes, neq, assem_op)
    rhs_vec = ass.loadasem(loads, bc_array, neq)
    disp = sol.static_sol(stiff_mat, rhs_vec)
    scale = stiff_mat.max()
    if not np.allclose(stiff_mat.dot(disp)/scale, rhs_vec/scale):
        print("The system is not in equilibrium!")
    return bc_array, disp

def _finish(nodes, elements, mats, bc_array, disp, plot_contours, compute_strains):
    disp_complete = pos.complete_disp(bc_array, nodes, disp)
    fields = [None, None]
    if compute_strains:
        fields = pos.strain_nodes(nodes, elements, mats, disp_complete)
    if plot_contours:
        pos.fields_plot(elements, nodes, disp_complete, E_nodes=fields[0], S_nodes=fields[1])
    print('Analysis terminated successfully!')
    return (disp_complete, *fields) if compute_strains else disp_complete

def solids_GUI(plot_contours=True, compute_strains=False, folder=None):
    folder = pre.initial_params() if folder is None else folder
    nodes, mats, elements, loads = pre.readin(folder=folder)
    bc_array, disp = _solve(nodes[:, :3], nodes[:, -2:], elements, mats, loads)
    return _finish(nodes, elements, mats, bc_array, disp, plot_contours, compute_strains)

def solids_auto(data, plot_contours=True, compute_strains=False):
    nodes, cons, elements, mats, loads = (data[key] for key in ("nodes", "cons", "elements", "mats", "loads"))
    bc_array, disp = _solve(nodes, cons, elements, mats, loads)
    return _finish(nodes, elements, mats, bc_array, disp, plot_contours, compute_strains)
