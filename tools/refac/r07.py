# postprocesor
# props: C08 C15 C19 C20 C13 C14
### postprocesor
_TRIANGLES = {1: [[3, 4, 5], [5, 6, 3]],
              2: [[3, 6, 8], [6, 7, 8], [6, 4, 7], [7, 5, 8]],
              3: [[3, 4, 5]],
              4: [[3, 7, 11], [7, 4, 8], [3, 11, 10], [7, 8, 11], [10, 11, 9], [11, 8, 5], [10, 9, 6], [11, 5, 9]]}

def mesh2tri(nodes, elements):
    triangs = []
    for elem in elements:
        for local in _TRIANGLES.get(elem[1], []):
            triangs.append(elem[local])
    return Triangulation(nodes[:, 1], nodes[:, 2], np.array(triangs))

def complete_disp(bc_array, nodes, sol, ndof_node=2):
    nnodes = nodes.shape[0]
    sol_complete = np.zeros([nnodes, ndof_node], dtype=float)
    for row in range(nnodes):
        for col in range(ndof_node):
            cons = bc_array[row, col]
            if cons != -1:
                sol_complete[row, col] = sol[cons]
    return sol_complete

def strain_nodes(nodes, elements, mats, sol_complete):
    nnodes = nodes.shape[0]
    iet = elements[0, 1]
    ndof, nnodes_elem, _ = fe.eletype(iet)
    E_nodes = np.zeros([nnodes, 3])
    S_nodes = np.zeros([nnodes, 3])
    el_nodes = np.zeros([nnodes], dtype=int)
    for elem in elements:
        young, poisson = mats[int(elem[2]), :2]
        conn = elem[3:]
        C = fe.umat((young, poisson))
        elcoor = nodes[conn, 1:3]
        ul = np.zeros(ndof)
        ul[0::2] = sol_complete[conn, 0]
        ul[1::2] = sol_complete[conn, 1]
        if iet == 1:
            epsG = fe.str_el4(elcoor, ul)[0][[0, 2, 3, 1], :]
        elif iet == 2:
            epsG = fe.str_el6(elcoor, ul)[0]
        elif iet == 3:
            epsG = fe.str_el3(elcoor, ul)[0]
        for cont, node in enumerate(conn):
            E_nodes[node, :] += epsG[cont, :]
            S_nodes[node, :] += C @ epsG[cont, :]
            el_nodes[node] += 1
    E_nodes /= el_nodes[:, None]
    S_nodes /= el_nodes[:, None]
    return E_nodes, S_nodes

def stress_truss(nodes, elements, mats, disp):
    neles = elements.shape[0]
    stress = np.zeros(neles)
    for cont, elem in enumerate(elements):
        ini, end = elem[3], elem[4]
        tan_vec = nodes[end, 1:3] - nodes[ini, 1:3]
        length = np.linalg.norm(tan_vec)
        params = mats[elem[2], :]
        local_stiff, _ = uel.truss2D(nodes[[ini, end], 1:3], params)
        local_disp = np.concatenate((disp[ini, :], disp[end, :]))
        axial = local_stiff.dot(local_disp)[2:].dot(tan_vec)/length
        stress[cont] = axial/params[1]
    return stress

def eigvals(mat, tol=1e-6):
    scale = np.abs(mat).max()
    if scale < tol:
        eig1, eig2 = 0.0, 0.0
        vec1 = np.array([np.nan, np.nan])
        vec2 = np.array([np.nan, np.nan])
    elif abs(mat[0, 1])/scale < tol:
        eig1, eig2 = mat[0, 0], mat[1, 1]
        vec1, vec2 = np.array([1, 0]), np.array([0, 1])
    else:
        trace = mat[0, 0] + mat[1, 1]
        det = mat[0, 0]*mat[1, 1] - mat[0, 1]**2
        disc = np.sqrt(trace**2 - 4*det)
        eig1 = 0.5*(trace - disc)
        eig2 = 0.5*(trace + disc)
        vec1 = np.array([mat[0, 0] - eig2, mat[0, 1]])
        vec1 = vec1/np.linalg.norm(vec1)
        vec2 = np.array([-vec1[1], vec1[0]])
    if abs(eig2) > abs(eig1):
        return eig2, eig1, vec2, vec1
    return eig1, eig2, vec1, vec2

def principal_dirs(field):
    num = field.shape[0]
    eigs1 = np.zeros(num)
    eigs2 = np.zeros(num)
    vecs1 = np.zeros((num, 2))
    vecs2 = np.zeros((num, 2))
    for cont in range(num):
        sxx, syy, sxy = field[cont, :3]
        mat = np.array([[sxx, sxy], [0, syy]])
        eigs1[cont], eigs2[cont], vecs1[cont], vecs2[cont] = eigvals(mat, tol=1e-6)
    return eigs1, eigs2, vecs1, vecs2

def energy(disp, stiff):
    return -0.5*stiff.dot(disp).dot(disp)
