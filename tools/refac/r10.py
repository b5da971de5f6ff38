# blochutil
# props: C18 C21
### blochutil
def reassign_dof_bloch(ndofs, dofs_ima, dofs_ref):
    new_num = [0 for _ in range(ndofs)]
    cont = 0
    for dof in range(ndofs):
        if dof in dofs_ima:
            continue
        new_num[dof] = cont
        cont += 1
    for k in range(len(dofs_ima)):
        new_num[dofs_ima[k]] = new_num[dofs_ref[k]]
    return new_num

def bloch_transform_mat(wavevector, coords, ndofs, nodes_ref, nodes_ima,
                        dofs_ref, dofs_ima, nodes_ref_dof, nodes_ima_dof,
                        new_num):
    rows = [dof for dof in range(ndofs) if dof not in dofs_ima]
    cols = [new_num[dof] for dof in rows]
    vals = [1]*len(rows)
    for node_ima, node_ref in zip(nodes_ima, nodes_ref):
        phase_shift = np.exp(1j*np.dot(wavevector, coords[node_ima] - coords[node_ref]))
        for ref_dof, ima_dof in zip(nodes_ref_dof[node_ref], nodes_ima_dof[node_ima]):
            rows.append(ima_dof)
            cols.append(new_num[ref_dof])
            vals.append(phase_shift)
    shape = (ndofs, ndofs - len(dofs_ref))
    return coo_matrix((vals, (rows, cols)), shape=shape).tocsr()
