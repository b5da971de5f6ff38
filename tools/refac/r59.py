# triangle rules from their orbits, shape functions from tables of signs, plotting through small helpers
# props: C01 C02 C06 C07 C14 C15 C20 C21
### gaussutil
def gauss_tri(order=2):
    rules = {
        1: [(None, None, 1.0)],
        2: [(0.1666666666667, None, 0.333333333333)],
        5: [(0.1012865073235, None, 0.1259391805448),
            (0.4701420641051, None, 0.1323941527885),
            (None, None, 0.225)],
        7: [(0.0651301029022, None, 0.0533472356088),
            (0.3128654960049, 0.0486903154253, 0.0771137608903),
            (0.2603459660790, None, 0.1756152574332),
            (None, None, -0.1495700444677)]}
    name = {1: 1, 2: 2, 3: 5, 4: 5, 5: 5, 6: 7, 7: 7}
    if order not in name:
        raise ValueError("The order should be in [1, 7]")
    pts, wts = [], []
    for a, b, w in rules[name[order]]:
        if a is None:
            orbit = [(1/3, 1/3)]
        elif b is None:
            c = 1 - 2*a
            orbit = [(a, a), (c, a), (a, c)] if order not in (3, 4, 5) or a < c else [(a, c), (a, a), (c, a)]
        else:
            c = 1 - a - b
            orbit = [(a, b), (c, a), (b, c), (c, b), (a, c), (b, a)]
        pts.extend(orbit)
        wts.extend([w]*len(orbit))
    return np.array(pts), np.array(wts)

### femutil
def shape_tri3(r, s):
    dNdr = np.column_stack((-np.ones(2), np.eye(2)))
    N = np.array([1, 0, 0]) + np.array([r, s]) @ dNdr
    return N, dNdr


def shape_quad8(r, s):
    N = np.zeros(8)
    dNdr = np.zeros((2, 8))
    corners = [(-1, -1), (1, -1), (1, 1), (-1, 1)]
    for i, (a, b) in enumerate(corners):
        N[i] = (1 + a*r)*(1 + b*s)*(a*r + b*s - 1)/4
        dNdr[0, i] = a*(1 + b*s)*(2*a*r + b*s)/4
        dNdr[1, i] = b*(1 + a*r)*(a*r + 2*b*s)/4
    for i, b in ((4, -1), (6, 1)):
        N[i] = (1 - r**2)*(1 + b*s)/2
        dNdr[:, i] = -r*(1 + b*s), b*(1 - r**2)/2
    for i, a in ((5, 1), (7, -1)):
        N[i] = (1 + a*r)*(1 - s**2)/2
        dNdr[:, i] = a*(1 - s**2)/2, -s*(1 + a*r)
    return N, dNdr


def shape_tet4(r, s, t):
    x = np.array([r, s, t])
    N = np.concatenate(([1 - x.sum()], x))
    dNdr = np.hstack((np.full((3, 1), -1), np.eye(3)))
    return N, dNdr


def shape_hex8(r, s, t):
    sg = np.array([[-1, 1, 1, -1, -1, 1, 1, -1],
                   [-1, -1, 1, 1, -1, -1, 1, 1],
                   [-1, -1, -1, -1, 1, 1, 1, 1]])
    f = 1 + sg*np.array([[r], [s], [t]])
    N = np.prod(f, axis=0)/8
    dNdr = np.array([sg[0]*f[1]*f[2], sg[1]*f[0]*f[2], sg[2]*f[0]*f[1]])/8
    return N, dNdr

### preprocesor
def echomod(nodes, mats, elements, loads, folder=""):
    for name, table, fmt in (("KNODES", nodes, '%5.2f'), ("KMATES", mats, '%5.2f'),
                             ("KELEMS", elements, '%d'), ("KLOADS", loads, '%5.2f')):
        np.savetxt("{}{}.txt".format(folder, name), table, fmt=fmt, delimiter=' ')

### postprocesor
def tri_plot(tri, field, title="", levels=12, savefigs=False,
             plt_type="contourf", filename="solution_plot.pdf"):
    draw = {"pcolor": lambda: plt.tripcolor(tri, field, shading="gouraud"),
            "contourf": lambda: plt.tricontourf(tri, field, levels)}
    if plt_type in draw:
        draw[plt_type]()
    plt.title(title)
    plt.colorbar(orientation='vertical')
    plt.axis("image")
    if savefigs:
        plt.savefig(filename)


def plot_node_field(field, nodes, elements, plt_type="contourf", levels=12,
                    savefigs=False, title=None, figtitle=None,
                    filename=None):
    tri = mesh2tri(nodes, elements)
    nfields = field.shape[1] if field.ndim == 2 else 1
    if title is None:
        title = [""]*nfields
    if figtitle is None:
        first = len(plt.get_fignums()) + 1
        figtitle = list(range(first, first + nfields))
    if filename is None:
        filename = ["output%d.pdf" % k for k in range(nfields)]
    columns = [field] if nfields == 1 else [field[:, k] for k in range(nfields)]
    for column, head, window, out in zip(columns, title, figtitle, filename):
        plt.figure(window)
        tri_plot(tri, column, title=head, levels=levels,
                 plt_type=plt_type, savefigs=savefigs, filename=out)
        if savefigs:
            plt.savefig(out)


def fields_plot(elements, nodes, disp, E_nodes=None, S_nodes=None):
    if np.isin(elements[:, 1], [5, 6, 7]).any():
        print(disp)
        return
    parts = [(disp, [r"$u_x$", r"$u_y$"], ["Horizontal displacement", "Vertical displacement"])]
    if E_nodes is not None:
        parts.append((E_nodes, [r"$\epsilon_{xx}$", r"$\epsilon_{yy}$", r"$\gamma_{xy}$"],
                      ["Strain epsilon-xx", "Strain epsilon-yy", "Strain gamma-xy"]))
    if S_nodes is not None:
        parts.append((S_nodes, [r"$\sigma_{xx}$", r"$\sigma_{yy}$", r"$\tau_{xy}$"],
                      ["Stress sigma-xx", "Stress sigma-yy", "Stress tau-xy"]))
    for field, title, figtitle in parts:
        plot_node_field(field, nodes, elements, title=title, figtitle=figtitle)
