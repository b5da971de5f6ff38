# postprocesor: numpy style
# props: C08 C13 C14 C15 C19 C20 C21
### postprocesor
def complete_disp(bc_array, nodes, sol, ndof_node=2):
    sol_complete = np.zeros([nodes.shape[0], ndof_node], dtype=float)
    eqs = bc_array[:, :ndof_node]
    free = eqs != -1
    sol_complete[free] = sol[eqs[free]]
    return sol_complete

def strain_nodes(nodes, elements, mats, sol_complete):
    nnodes = nodes.shape[0]
    iet = elements[0, 1]
    ndof, nnodes_elem, _ = fe.eletype(iet)
    E_nodes = np.zeros([nnodes, 3])
    S_nodes = np.zeros([nnodes, 3])
    el_nodes = np.zeros([nnodes], dtype=int)
    for element in elements:
        young, poisson = mats[element[2], 0], mats[element[2], 1]
        hooke = young/(1 - poisson**2)*np.array([[1, poisson, 0], [poisson, 1, 0], [0, 0, (1 - poisson)/2]])
        conn = element[3:]
        elcoor = nodes[conn, 1:3]
        ul = sol_complete[conn, :2].flatten()
        if iet == 1:
            strain = fe.str_el4(elcoor, ul)[0][[0, 2, 3, 1]]
        elif iet == 2:
            strain = fe.str_el6(elcoor, ul)[0]
        else:
            strain = fe.str_el3(elcoor, ul)[0]
        for cont, node in enumerate(conn):
            E_nodes[node, :] += strain[cont]
            S_nodes[node, :] += hooke @ strain[cont]
            el_nodes[node] += 1
    E_nodes /= el_nodes[:, None]
    S_nodes /= el_nodes[:, None]
    return E_nodes, S_nodes

def stress_truss(nodes, elements, mats, disp):
    stress = np.zeros(elements.shape[0])
    for cont, element in enumerate(elements):
        ini, end = element[3], element[4]
        tan_vec = nodes[end, 1:3] - nodes[ini, 1:3]
        length = np.linalg.norm(tan_vec)
        elongation = np.dot(disp[end] - disp[ini], tan_vec)/length
        stress[cont] = mats[element[2], 0]*elongation/length
    return stress

def principal_dirs(field):
    eigs1, eigs2, vecs1, vecs2 = [], [], [], []
    for sxx, syy, sxy in field[:, :3]:
        eig1, eig2, vec1, vec2 = eigvals(np.array([[sxx, sxy], [0.0, syy]]), tol=1e-6)
        eigs1.append(eig1)
        eigs2.append(eig2)
        vecs1.append(vec1)
        vecs2.append(vec2)
    return np.array(eigs1), np.array(eigs2), np.array(vecs1), np.array(vecs2)

def mesh2tri(nodes, elements):
    splits = {1: [[3, 4, 5], [5, 6, 3]],
              2: [[3, 6, 8], [6, 7, 8], [6, 4, 7], [7, 5, 8]],
              3: [[3, 4, 5]],
              4: [[3, 7, 11], [7, 4, 8], [3, 11, 10], [7, 8, 11],
                  [10, 11, 9], [11, 8, 5], [10, 9, 6], [11, 5, 9]]}
    triangs = []
    for elem in elements:
        for corners in splits.get(elem[1], []):
            triangs.append(elem[corners])
    return Triangulation(nodes[:, 1], nodes[:, 2], np.array(triangs))

def energy(disp, stiff):
    return -0.5*np.dot(stiff @ disp, disp)
