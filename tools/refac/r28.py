# blochutil: helper for the kept degrees of freedom, enumerated; GUI: early returns
# props: C18 C13 C14 C21 C22
### blochutil
def _kept(ndofs, dofs_ima):
    removed = set(dofs_ima)
    return [dof for dof in range(ndofs) if dof not in removed]

def reassign_dof_bloch(ndofs, dofs_ima, dofs_ref):
    new_num = [0]*ndofs
    for cont, dof in enumerate(_kept(ndofs, dofs_ima)):
        new_num[dof] = cont
    for k in range(len(dofs_ima)):
        new_num[dofs_ima[k]] = new_num[dofs_ref[k]]
    return new_num

def bloch_transform_mat(wavevector, coords, ndofs, nodes_ref, nodes_ima, dofs_ref, dofs_ima,
                        nodes_ref_dof, nodes_ima_dof, new_num):
    kept = _kept(ndofs, dofs_ima)
    rows = list(kept)
    cols = [new_num[dof] for dof in kept]
    vals = [1]*len(kept)
    for node_ima, node_ref in zip(nodes_ima, nodes_ref):
        phase = np.dot(wavevector, coords[node_ima] - coords[node_ref])
        factor = np.exp(1j*phase)
        for dof_ref, dof_ima in zip(nodes_ref_dof[node_ref], nodes_ima_dof[node_ima]):
            rows.append(dof_ima)
            cols.append(new_num[dof_ref])
            vals.append(factor)
    shape = (ndofs, ndofs - len(dofs_ref))
    return coo_matrix((vals, (rows, cols)), shape=shape).tocsr()
### solutil
def static_sol(mat, rhs):
    solvers = ((csr_matrix, spsolve), (ndarray, solve))
    for kind, solver in solvers:
        if type(mat) is kind:
            return solver(mat, rhs)
    raise TypeError("Matrix should be numpy array or csr_matrix.")
