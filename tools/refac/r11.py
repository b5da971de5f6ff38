# GUI, solutil
# props: C13 C14 C21 C22
### solutil
def static_sol(mat, rhs):
    if isinstance(mat, csr_matrix):
        return spsolve(mat, rhs)
    if isinstance(mat, ndarray):
        return solve(mat, rhs)
    raise TypeError("Matrix should be numpy array or csr_matrix.")
### solids_GUI
def _check_equilibrium(stiff_mat, disp, rhs_vec):
    scale = stiff_mat.max()
    if not np.allclose(stiff_mat.dot(disp)/scale, rhs_vec/scale):
        print("The system is not in equilibrium!")

def _report(nodes, elements, neq):
    print("Number of nodes: {}".format(nodes.shape[0]))
    print("Number of elements: {}".format(elements.shape[0]))
    print("Number of equations: {}".format(neq))

def solids_auto(data, plot_contours=True, compute_strains=False):
    nodes, cons = data["nodes"], data["cons"]
    elements, mats, loads = data["elements"], data["mats"], data["loads"]
    assem_op, bc_array, neq = ass.DME(cons, elements)
    _report(nodes, elements, neq)
    rhs_vec = ass.loadasem(loads, bc_array, neq)
    stiff_mat, _ = ass.assembler(elements, mats, nodes, neq, assem_op)
    start_time = datetime.now()
    disp = sol.static_sol(stiff_mat, rhs_vec)
    _check_equilibrium(stiff_mat, disp, rhs_vec)
    print("Duration for system solution: {}".format(datetime.now() - start_time))
    start_time = datetime.now()
    disp_complete = pos.complete_disp(bc_array, nodes, disp)
    strain_nodes = stress_nodes = None
    if compute_strains:
        strain_nodes, stress_nodes = pos.strain_nodes(nodes, elements, mats, disp_complete)
    if plot_contours:
        pos.fields_plot(elements, nodes, disp_complete, E_nodes=strain_nodes, S_nodes=stress_nodes)
    print("Duration for post processing: {}".format(datetime.now() - start_time))
    print("Analysis terminated successfully!")
    return (disp_complete, strain_nodes, stress_nodes) if compute_strains else disp_complete
