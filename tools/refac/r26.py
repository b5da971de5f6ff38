# postprocesor: accumulation with add.at, comprehension, helper for averages
# props: C08 C13 C14 C15 C19 C20 C21
### postprocesor
_QUAD_ORDER = [0, 2, 3, 1]

def _element_strains(iet, elcoor, ul):
    if iet == 1:
        strains, _ = fe.str_el4(elcoor, ul)
        return strains[_QUAD_ORDER, :]
    if iet == 2:
        return fe.str_el6(elcoor, ul)[0]
    return fe.str_el3(elcoor, ul)[0]

def _plane_stress(params, strains):
    young, poisson = params[:2]
    fact = young/(1 - poisson**2)
    sxx = fact*(strains[:, 0] + poisson*strains[:, 1])
    syy = fact*(poisson*strains[:, 0] + strains[:, 1])
    sxy = young/(2*(1 + poisson))*strains[:, 2]
    return np.column_stack((sxx, syy, sxy))

def strain_nodes(nodes, elements, mats, sol_complete):
    nnodes = len(nodes)
    iet = elements[0, 1]
    ndof = fe.eletype(iet)[0]
    E_nodes = np.zeros((nnodes, 3))
    S_nodes = np.zeros((nnodes, 3))
    counts = np.zeros(nnodes, dtype=int)
    for elem in elements:
        conn = elem[3:]
        ul = np.empty(ndof)
        ul[::2], ul[1::2] = sol_complete[conn, 0], sol_complete[conn, 1]
        strains = _element_strains(iet, nodes[conn, 1:3], ul)
        stresses = _plane_stress(mats[elem[2]], strains)
        nconn = len(conn)
        np.add.at(E_nodes, conn, strains[:nconn])
        np.add.at(S_nodes, conn, stresses[:nconn])
        np.add.at(counts, conn, 1)
    return E_nodes/counts[:, np.newaxis], S_nodes/counts[:, np.newaxis]

def complete_disp(bc_array, nodes, sol, ndof_node=2):
    def value(eq):
        return 0.0 if eq == -1 else sol[eq]
    return np.array([[value(bc_array[row, col]) for col in range(ndof_node)]
                     for row in range(nodes.shape[0])])

def stress_truss(nodes, elements, mats, disp):
    def bar_stress(elem):
        ends = elem[3:5]
        coords = nodes[ends, 1:3]
        axis = coords[1] - coords[0]
        length = np.linalg.norm(axis)
        params = mats[elem[2]]
        stiff, _ = uel.truss2D(coords, params)
        forces = stiff @ disp[ends].flatten()
        return np.dot(forces[2:], axis)/(length*params[1])
    return np.array([bar_stress(elem) for elem in elements])

def mesh2tri(nodes, elements):
    _, coord_x, coord_y = nodes[:, 0], nodes[:, 1], nodes[:, 2]
    triangs = []
    for elem in elements:
        kind, conn = elem[1], elem[3:]
        if kind == 1:
            local = ((0, 1, 2), (2, 3, 0))
        elif kind == 2:
            local = ((0, 3, 5), (3, 4, 5), (3, 1, 4), (4, 2, 5))
        elif kind == 3:
            local = ((0, 1, 2),)
        elif kind == 4:
            local = ((0, 4, 8), (4, 1, 5), (0, 8, 7), (4, 5, 8), (7, 8, 6), (8, 5, 2), (7, 6, 3), (8, 2, 6))
        else:
            continue
        triangs.extend(conn[list(corners)] for corners in local)
    return Triangulation(coord_x, coord_y, np.array(triangs))

def eigvals(mat, tol=1e-6):
    sxx, syy, sxy = mat[0, 0], mat[1, 1], mat[0, 1]
    biggest = np.abs(mat).max()
    if biggest < tol:
        return 0.0, 0.0, np.array([np.nan, np.nan]), np.array([np.nan, np.nan])
    if abs(sxy)/biggest < tol:
        pairs = [(sxx, np.array([1, 0])), (syy, np.array([0, 1]))]
    else:
        mean, radius = 0.5*(sxx + syy), 0.5*np.sqrt((sxx - syy)**2 + 4*sxy**2)
        low, high = mean - radius, mean + radius
        vec = np.array([sxx - high, sxy])
        vec = vec/np.linalg.norm(vec)
        pairs = [(low, vec), (high, np.array([-vec[1], vec[0]]))]
    if abs(pairs[1][0]) > abs(pairs[0][0]):
        pairs.reverse()
    (eig1, vec1), (eig2, vec2) = pairs
    return eig1, eig2, vec1, vec2

def principal_dirs(field):
    num = field.shape[0]
    eigs = np.empty((num, 2))
    vecs = np.empty((num, 2, 2))
    for cont in range(num):
        mat = np.diag(field[cont, :2])
        mat[0, 1] = field[cont, 2]
        eigs[cont, 0], eigs[cont, 1], vecs[cont, 0], vecs[cont, 1] = eigvals(mat)
    return eigs[:, 0], eigs[:, 1], vecs[:, 0], vecs[:, 1]

def energy(disp, stiff):
    force = stiff.dot(disp)
    return -0.5*np.sum(force*disp)
