# blochutil, GUI: other idioms
# props: C18 C13 C14 C21
### blochutil
def reassign_dof_bloch(ndofs, dofs_ima, dofs_ref):
    images = set(dofs_ima)
    kept = [dof for dof in range(ndofs) if dof not in images]
    new_num = [0]*ndofs
    for number, dof in enumerate(kept):
        new_num[dof] = number
    for k in range(len(dofs_ima)):
        new_num[dofs_ima[k]] = new_num[dofs_ref[k]]
    return new_num

def bloch_transform_mat(wavevector, coords, ndofs, nodes_ref, nodes_ima, dofs_ref, dofs_ima, nodes_ref_dof,
                        nodes_ima_dof, new_num):
    rows = [dof for dof in range(ndofs) if dof not in dofs_ima]
    cols = [new_num[dof] for dof in rows]
    vals = [1]*len(rows)
    for cont, node_ima in enumerate(nodes_ima):
        node_ref = nodes_ref[cont]
        shift = coords[node_ima, :] - coords[node_ref, :]
        angle = np.sum(wavevector*shift)
        phase = np.cos(angle) + 1j*np.sin(angle)
        rows += list(nodes_ima_dof[node_ima])
        cols += [new_num[dof] for dof in nodes_ref_dof[node_ref]]
        vals += [phase]*len(nodes_ima_dof[node_ima])
    shape = (ndofs, ndofs - len(dofs_ref))
    return coo_matrix((vals, (rows, cols)), shape=shape).tocsr()
### solutil
def static_sol(mat, rhs):
    if isinstance(mat, csr_matrix):
        return spsolve(mat, rhs)
    if isinstance(mat, ndarray):
        return solve(mat, rhs)
    raise TypeError('Matrix should be numpy array or csr_matrix.')
