# post-processing: nodal averages with a helper and np.divide, triangles by setdefault, drawing through a table
# props: C08 C13 C15 C19 C20 C21
### postprocesor
def _stress(strain, young, poisson):
    """plane stress law"""
    fact1 = young/(1 - poisson**2)
    fact2 = poisson*fact1
    shear = young/(2*(1 + poisson))
    return np.array([fact1*strain[0] + fact2*strain[1],
                     fact2*strain[0] + fact1*strain[1],
                     shear*strain[2]])

def strain_nodes(nodes, elements, mats, sol_complete):
    iet = elements[0, 1]
    fe.eletype(iet)
    nnodes = nodes.shape[0]
    E_nodes = np.zeros([nnodes, 3])
    S_nodes = np.zeros([nnodes, 3])
    el_nodes = np.zeros(nnodes, dtype=int)
    recover = {1: fe.str_el4, 2: fe.str_el6, 3: fe.str_el3}[iet]
    for elem in elements:
        young, poisson, *_ = mats[elem[2]]
        ielcon = elem[3:]
        elcoor = nodes[ielcon, 1:3]
        ul = np.ravel(sol_complete[ielcon, :2])
        strains = recover(elcoor, ul)[0]
        if iet == 1:
            strains = np.take(strains, [0, 2, 3, 1], axis=0)
        for node, strain in zip(ielcon, strains):
            E_nodes[node] += strain
            S_nodes[node] += _stress(strain, young, poisson)
            el_nodes[node] += 1
    times = el_nodes[:, np.newaxis]
    return np.divide(E_nodes, times), np.true_divide(S_nodes, times)

def mesh2tri(nodes, elements):
    split = dict()
    split.setdefault(1, [[3, 4, 5], [5, 6, 3]])
    split.setdefault(2, [[3, 6, 8], [6, 7, 8], [6, 4, 7], [7, 5, 8]])
    split.setdefault(3, [slice(3, None)])
    split.setdefault(4, [[3, 7, 11], [7, 4, 8], [3, 11, 10], [7, 8, 11],
                         [10, 11, 9], [11, 8, 5], [10, 9, 6], [11, 5, 9]])
    triangs = []
    for elem in elements:
        kind = int(elem[1])
        if kind in split:
            triangs += [elem[part] for part in split[kind]]
    return Triangulation(nodes[:, 1], nodes[:, 2], np.array(triangs))

def complete_disp(bc_array, nodes, sol, ndof_node=2):
    sol_complete = np.zeros([nodes.shape[0], ndof_node], dtype=float)
    for index in np.ndindex(*sol_complete.shape):
        cons = bc_array[index]
        if cons == -1:
            continue
        sol_complete[index] = sol[cons]
    return sol_complete

def stress_truss(nodes, elements, mats, disp):
    stress = np.zeros(elements.shape[0])
    for cont, elem in enumerate(elements):
        mat_id, *ends = elem[2:5]
        coords = nodes[ends, 1:3]
        tan_vec = np.diff(coords, axis=0)[0]
        length = np.linalg.norm(tan_vec)
        local_stiff = uel.truss2D(coords, mats[mat_id, :])[0]
        local_forces = local_stiff @ np.concatenate([disp[end] for end in ends])
        stress[cont] = np.inner(local_forces[2:], tan_vec)/(length*mats[mat_id, 1])
    return stress

def principal_dirs(field):
    results = [eigvals(np.array([[xx, xy], [xy, yy]]), tol=1e-6)
               for xx, yy, xy in field]
    eigs1 = np.array([res[0] for res in results], dtype=float)
    eigs2 = np.array([res[1] for res in results], dtype=float)
    vecs1 = np.array([res[2] for res in results], dtype=float).reshape(-1, 2)
    vecs2 = np.array([res[3] for res in results], dtype=float).reshape(-1, 2)
    return eigs1, eigs2, vecs1, vecs2

def energy(disp, stiff):
    return np.negative(np.inner(stiff.dot(disp), disp))/2
