# solids_GUI / postprocesor: driver and plotting helpers extracted
# props: C13 C15 C20 C21 C22 C12
### solids_GUI
def _report(nodes, elements, neq):
    print("Number of nodes: %d" % nodes.shape[0])
    print("Number of elements: %d" % len(elements))
    print("Number of equations: %d" % neq)

def _solve(nodes, cons, elements, mats, loads):
    assem_op, bc_array, neq = ass.DME(cons, elements)
    _report(nodes, elements, neq)
    stiff_mat, _ = ass.assembler(elements, mats, nodes, neq, assem_op)
    rhs_vec = ass.loadasem(loads, bc_array, neq)
    disp = sol.static_sol(stiff_mat, rhs_vec)
    scale = stiff_mat.max()
    if not np.allclose(stiff_mat.dot(disp)/scale, rhs_vec/scale):
        print("The system is not in equilibrium!")
    return bc_array, disp

def _post(bc_array, nodes, elements, mats, disp, plot_contours, compute_strains):
    disp_complete = pos.complete_disp(bc_array, nodes, disp)
    strains = stresses = None
    if compute_strains:
        strains, stresses = pos.strain_nodes(nodes, elements, mats, disp_complete)
    if plot_contours:
        pos.fields_plot(elements, nodes, disp_complete, E_nodes=strains, S_nodes=stresses)
    if not compute_strains:
        return disp_complete
    return disp_complete, strains, stresses

def solids_GUI(plot_contours=True, compute_strains=False, folder=None):
    if folder is None:
        folder = pre.initial_params()
    start_time = datetime.now()
    nodes, mats, elements, loads = pre.readin(folder=folder)
    bc_array, disp = _solve(nodes[:, :3], nodes[:, -2:], elements, mats, loads)
    print("Duration for system solution: {}".format(datetime.now() - start_time))
    result = _post(bc_array, nodes, elements, mats, disp, plot_contours, compute_strains)
    print("Analysis terminated successfully!")
    return result

def solids_auto(data, plot_contours=True, compute_strains=False):
    nodes, cons, elements, mats, loads = (data[key] for key in ("nodes", "cons", "elements", "mats", "loads"))
    bc_array, disp = _solve(nodes, cons, elements, mats, loads)
    result = _post(bc_array, nodes, elements, mats, disp, plot_contours, compute_strains)
    print("Analysis terminated successfully!")
    return result

### postprocesor
def fields_plot(elements, nodes, disp, E_nodes=None, S_nodes=None):
    types = set(elements[:, 1])
    if types & {5, 6, 7}:
        print(disp)
        return
    groups = [(disp, ["$u_x$", "$u_y$"], ["Horizontal displacement", "Vertical displacement"])]
    if E_nodes is not None:
        groups.append((E_nodes, [r"$\epsilon_{xx}$", r"$\epsilon_{yy}$", r"$\gamma_{xy}$"],
                       ["Strain epsilon-xx", "Strain epsilon-yy", "Strain gamma-xy"]))
    if S_nodes is not None:
        groups.append((S_nodes, [r"$\sigma_{xx}$", r"$\sigma_{yy}$", r"$\tau_{xy}$"],
                       ["Stress sigma-xx", "Stress sigma-yy", "Stress tau-xy"]))
    for field, title, figtitle in groups:
        plot_node_field(field, nodes, elements, title=title, figtitle=figtitle)

def tri_plot(tri, field, title="", levels=12, savefigs=False, plt_type="contourf", filename="solution_plot.pdf"):
    draw = {"pcolor": lambda: plt.tripcolor(tri, field, shading="gouraud"),
            "contourf": lambda: plt.tricontourf(tri, field, levels)}
    if plt_type in draw:
        draw[plt_type]()
    plt.title(title)
    plt.colorbar(orientation="vertical")
    plt.axis("image")
    if savefigs:
        plt.savefig(filename)

def plot_node_field(field, nodes, elements, plt_type="contourf", levels=12, savefigs=False, title=None,
                    figtitle=None, filename=None):
    tri = mesh2tri(nodes, elements)
    nfields = 1 if field.ndim == 1 else field.shape[1]
    columns = [field] if nfields == 1 else [field[:, k] for k in range(nfields)]
    if title is None:
        title = [""]*nfields
    if figtitle is None:
        nfigs = len(plt.get_fignums())
        figtitle = list(range(nfigs + 1, nfigs + nfields + 1))
    if filename is None:
        filename = ["output%d.pdf" % k for k in range(nfields)]
    for name, column, text, output in zip(figtitle, columns, title, filename):
        plt.figure(name)
        tri_plot(tri, column, title=text, levels=levels, plt_type=plt_type, savefigs=savefigs, filename=output)
        if savefigs:
            plt.savefig(output)
