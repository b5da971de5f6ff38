# solids_GUI and solutil: shared steps, context manager for the clock, dictionary of results, isinstance dispatch
# props: C13 C14 C15 C21
### solids_GUI
from contextlib import contextmanager

@contextmanager
def _timed(what):
    start = datetime.now()
    yield
    print('Duration for {}: {}'.format(what, datetime.now() - start))

def _report(nodes, elements, neq):
    for name, number in (("nodes", nodes.shape[0]), ("elements", elements.shape[0]), ("equations", neq)):
        print("Number of %s: %s" % (name, number))

def _is_balanced(stiff_mat, disp, rhs_vec):
    scale = stiff_mat.max()
    return np.allclose(stiff_mat.dot(disp)/scale, rhs_vec/scale)

def _postprocess(nodes, mats, elements, disp_complete, plot_contours, compute_strains):
    fields = (None, None)
    if compute_strains:
        fields = pos.strain_nodes(nodes, elements, mats, disp_complete)
    if plot_contours:
        pos.fields_plot(elements, nodes, disp_complete, *[], E_nodes=fields[0], S_nodes=fields[1])
    return (disp_complete, *fields) if compute_strains else disp_complete

def _run(nodes, cons, mats, elements, loads, coords, plot_contours, compute_strains):
    assem_op, bc_array, neq = ass.DME(cons, elements)
    _report(nodes, elements, neq)
    with _timed("system solution"):
        stiff_mat, _ = ass.assembler(elements, mats, coords, neq, assem_op)
        rhs_vec = ass.loadasem(loads, bc_array, neq)
        disp = sol.static_sol(stiff_mat, rhs_vec)
        if not _is_balanced(stiff_mat, disp, rhs_vec):
            print("The system is not in equilibrium!")
    with _timed("post processing"):
        result = _postprocess(nodes, mats, elements, pos.complete_disp(bc_array, nodes, disp),
                              plot_contours, compute_strains)
    print('Analysis terminated successfully!')
    return result

def solids_GUI(plot_contours=True, compute_strains=False, folder=None):
    folder = pre.initial_params() if folder is None else folder
    nodes, mats, elements, loads = pre.readin(folder=folder)
    return _run(nodes, nodes[:, -2:], mats, elements, loads, nodes[:, :3], plot_contours, compute_strains)

def solids_auto(data, plot_contours=True, compute_strains=False):
    nodes, cons, elements, mats, loads = (data[key] for key in ("nodes", "cons", "elements", "mats", "loads"))
    return _run(nodes, cons, mats, elements, loads, nodes, plot_contours, compute_strains)
### solutil
def static_sol(mat, rhs):
    solvers = {csr_matrix: spsolve, ndarray: solve}
    try:
        solver = solvers[type(mat)]
    except KeyError:
        raise TypeError("Matrix should be numpy array or csr_matrix.") from None
    return solver(mat, rhs)
