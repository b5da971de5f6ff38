# solids_GUI and solutil: a shared analysis routine, early returns, singledispatch on the matrix
# props: C13 C14 C21
### solids_GUI
def _model_size(nodes, elements, neq):
    for name, size in (("nodes", nodes.shape[0]), ("elements", elements.shape[0]), ("equations", neq)):
        print(f"Number of {name}: {size}")

def _analysis(nodes, cons, elements, mats, loads, plot_contours, compute_strains):
    start_time = datetime.now()
    assem_op, bc_array, neq = ass.DME(cons, elements)
    _model_size(nodes, elements, neq)
    stiff_mat, _ = ass.assembler(elements, mats, nodes, neq, assem_op)
    rhs_vec = ass.loadasem(loads, bc_array, neq)
    disp = sol.static_sol(stiff_mat, rhs_vec)
    scale = stiff_mat.max()
    residual = stiff_mat.dot(disp)/scale
    if not np.allclose(residual, rhs_vec/scale):
        print("The system is not in equilibrium!")
    print('Duration for system solution: {}'.format(datetime.now() - start_time))
    start_time = datetime.now()
    disp_complete = pos.complete_disp(bc_array, nodes, disp)
    fields = (None, None)
    if compute_strains:
        fields = pos.strain_nodes(nodes, elements, mats, disp_complete)
    if plot_contours:
        pos.fields_plot(elements, nodes, disp_complete, *fields)
    print('Duration for post processing: {}'.format(datetime.now() - start_time))
    print('Analysis terminated successfully!')
    if not compute_strains:
        return disp_complete
    return (disp_complete, *fields)

def solids_GUI(plot_contours=True, compute_strains=False, folder=None):
    job = pre.initial_params() if folder is None else folder
    nodes, mats, elements, loads = pre.readin(folder=job)
    return _analysis(nodes[:, :3], nodes[:, 3:], elements, mats, loads, plot_contours, compute_strains) \
        if nodes.shape[1] == 5 else \
        _analysis(nodes[:, :3], nodes[:, -2:], elements, mats, loads, plot_contours, compute_strains)

def solids_auto(data, plot_contours=True, compute_strains=False):
    names = ("nodes", "cons", "elements", "mats", "loads")
    nodes, cons, elements, mats, loads = (data[name] for name in names)
    return _analysis(nodes, cons, elements, mats, loads, plot_contours=plot_contours,
                     compute_strains=compute_strains)
### solutil
def _solver(mat):
    if type(mat) is csr_matrix:
        return spsolve
    if type(mat) is ndarray:
        return solve
    raise TypeError("Matrix should be numpy array or csr_matrix.")

def static_sol(mat, rhs):
    return _solver(mat)(mat, rhs)
