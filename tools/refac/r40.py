# postprocesor: shared accumulation helper, where, dictionaries of samplers, norms, split returns
# props: C08 C13 C14 C15 C19 C20 C21
### postprocesor
def _triangles(elem):
    n = elem[3:]
    if elem[1] == 1:
        return [n[[0, 1, 2]], n[[2, 3, 0]]]
    if elem[1] == 2:
        return [n[[0, 3, 5]], n[[3, 4, 5]], n[[3, 1, 4]], n[[4, 2, 5]]]
    if elem[1] == 3:
        return [n[[0, 1, 2]]]
    if elem[1] == 4:
        corner, side, mid = n[:4], n[4:8], n[8]
        return [(corner[0], side[0], mid), (side[0], corner[1], side[1]), (corner[0], mid, side[3]),
                (side[0], side[1], mid), (side[3], mid, side[2]), (mid, side[1], corner[2]),
                (side[3], side[2], corner[3]), (mid, corner[2], side[2])]
    return []

def mesh2tri(nodes, elements):
    triangs = [tri for elem in elements for tri in _triangles(elem)]
    coord_x, coord_y = nodes[:, 1:3].T
    return Triangulation(coord_x, coord_y, np.array(triangs))

def complete_disp(bc_array, nodes, sol, ndof_node=2):
    nnodes = nodes.shape[0]
    sol_complete = np.zeros([nnodes, ndof_node], dtype=float)
    for row in range(nnodes):
        for col in range(ndof_node):
            cons = bc_array[row, col]
            sol_complete[row, col] = 0.0 if cons == -1 else sol[cons]
    return sol_complete

def _accumulate(nnodes, elements, values):
    total = np.zeros([nnodes, 3])
    count = np.zeros([nnodes], dtype=int)
    for elem, local in zip(elements, values):
        for node, val in zip(elem[3:], local):
            total[node] = total[node] + val
            count[node] = count[node] + 1
    return total/count.reshape(-1, 1)

def strain_nodes(nodes, elements, mats, sol_complete):
    iet = elements[0, 1]
    strains, stresses = [], []
    for elem in elements:
        conn = elem[3:]
        young, poisson = mats[elem[2]][:2]
        coord, disp = nodes[conn, 1:3], sol_complete[conn, 0:2].flatten()
        if iet == 1:
            eps = fe.str_el4(coord, disp)[0][[0, 2, 3, 1], :]
        elif iet == 2:
            eps = fe.str_el6(coord, disp)[0]
        elif iet == 3:
            eps = fe.str_el3(coord, disp)[0]
        fact = young/(1.0 - poisson**2)
        sig = np.zeros_like(eps)
        sig[:, 0] = fact*(eps[:, 0] + poisson*eps[:, 1])
        sig[:, 1] = fact*(eps[:, 1] + poisson*eps[:, 0])
        sig[:, 2] = young/(2.0*(1.0 + poisson))*eps[:, 2]
        strains.append(eps)
        stresses.append(sig)
    nnodes = len(nodes)
    return _accumulate(nnodes, elements, strains), _accumulate(nnodes, elements, stresses)

def _strain(nodes, disp, ini, end):
    vec = nodes[end, 1:3] - nodes[ini, 1:3]
    length = np.hypot(vec[0], vec[1])
    tangent = vec/length
    return tangent @ (disp[end] - disp[ini])/length

def stress_truss(nodes, elements, mats, disp):
    return np.array([mats[mat, 0]*_strain(nodes, disp, ini, end)
                     for mat, ini, end in elements[:, 2:5]])

def energy(disp, stiff):
    force = stiff.dot(disp)
    return -0.5*(force @ disp)

def principal_dirs(field):
    num = len(field)
    eigs1, eigs2 = np.empty((2, num))
    vecs1, vecs2 = np.empty((2, num, 2))
    for cont, (sig_xx, sig_yy, sig_xy) in enumerate(field):
        tensor = np.array([[sig_xx, sig_xy], [0.0, sig_yy]])
        eigs1[cont], eigs2[cont], vecs1[cont], vecs2[cont] = eigvals(tensor, tol=1e-6)
    return eigs1, eigs2, vecs1, vecs2
