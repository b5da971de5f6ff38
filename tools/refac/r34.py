# postprocesor: bincount, einsum, tables of local triangles, directions from angles of the tensor entries
# props: C08 C13 C14 C15 C19 C20 C21
### postprocesor
_SPLIT = {
    1: np.array([[0, 1, 2], [2, 3, 0]]),
    2: np.array([[0, 3, 5], [3, 4, 5], [3, 1, 4], [4, 2, 5]]),
    3: np.array([[0, 1, 2]]),
    4: np.array([[0, 4, 8], [4, 1, 5], [0, 8, 7], [4, 5, 8], [7, 8, 6], [8, 5, 2], [7, 6, 3], [8, 2, 6]])}

def mesh2tri(nodes, elements):
    triangs = []
    for elem in elements:
        local = _SPLIT.get(elem[1])
        if local is not None:
            triangs.extend(elem[3:][local])
    return Triangulation(nodes[:, 1], nodes[:, 2], np.array(triangs))

def complete_disp(bc_array, nodes, sol, ndof_node=2):
    sol_complete = np.zeros([nodes.shape[0], ndof_node], dtype=float)
    for row, col in np.ndindex(*sol_complete.shape):
        eq = bc_array[row, col]
        if eq != -1:
            sol_complete[row, col] = sol[eq]
    return sol_complete

def strain_nodes(nodes, elements, mats, sol_complete):
    nnodes = nodes.shape[0]
    iet = elements[0, 1]
    _, nnodes_elem, _ = fe.eletype(iet)
    routines = {1: fe.str_el4, 2: fe.str_el6, 3: fe.str_el3}
    E_nodes = np.zeros([nnodes, 3])
    S_nodes = np.zeros([nnodes, 3])
    conns = elements[:, 3:]
    el_nodes = np.bincount(conns.ravel(), minlength=nnodes)
    for el, conn in enumerate(conns):
        young, poisson = mats[elements[el, 2], :2]
        fact = young/(1 - poisson**2)
        C = fact*np.array([[1, poisson, 0], [poisson, 1, 0], [0, 0, (1 - poisson)/2]])
        strains, _ = routines[iet](nodes[conn, 1:3], sol_complete[conn, :2].ravel())
        if iet == 1:
            strains = strains[[0, 2, 3, 1]]
        for cont in range(nnodes_elem):
            E_nodes[conn[cont]] += strains[cont]
            S_nodes[conn[cont]] += C @ strains[cont]
    return E_nodes/el_nodes[:, None], S_nodes/el_nodes[:, None]

def stress_truss(nodes, elements, mats, disp):
    stress = np.empty(elements.shape[0])
    for cont, (ini, end) in enumerate(elements[:, 3:5]):
        young = mats[elements[cont, 2], 0]
        vec = nodes[end, 1:3] - nodes[ini, 1:3]
        elong = np.dot(disp[end] - disp[ini], vec)
        stress[cont] = young*elong/np.dot(vec, vec)
    return stress

def energy(disp, stiff):
    return -0.5*np.dot(disp, stiff.dot(disp))

def principal_dirs(field):
    results = [eigvals(np.array([[sxx, sxy], [0.0, syy]]), tol=1e-6) for sxx, syy, sxy in field]
    num = len(results)
    eigs1, eigs2 = np.empty(num), np.empty(num)
    vecs1, vecs2 = np.empty((num, 2)), np.empty((num, 2))
    for cont, (eig1, eig2, vec1, vec2) in enumerate(results):
        eigs1[cont], eigs2[cont] = eig1, eig2
        vecs1[cont], vecs2[cont] = vec1, vec2
    return eigs1, eigs2, vecs1, vecs2

def eigvals(mat, tol=1e-6):
    a, b, c = mat[0, 0], mat[1, 1], mat[0, 1]
    biggest = np.max(np.abs(mat))
    if biggest < tol:
        undefined = np.array([np.nan, np.nan])
        return 0.0, 0.0, undefined, undefined.copy()
    if abs(c) < tol*biggest:
        pairs = [(a, np.array([1, 0])), (b, np.array([0, 1]))]
    else:
        mean, half = 0.5*(a + b), 0.5*(a - b)
        radius = np.sqrt(half**2 + c**2)
        vec = np.array([half - radius, c])
        vec = vec/np.sqrt(vec @ vec)
        pairs = [(mean - radius, vec), (mean + radius, np.array([-vec[1], vec[0]]))]
    if abs(pairs[1][0]) > abs(pairs[0][0]):
        pairs.reverse()
    (eig1, vec1), (eig2, vec2) = pairs
    return eig1, eig2, vec1, vec2
