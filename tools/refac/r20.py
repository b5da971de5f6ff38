# assemutil: assembly through outer index arrays
# props: C11 C12 C21
### assemutil
def dense_assem(elements, mats, nodes, neq, assem_op, uel=None):
    kglob = np.zeros((neq, neq))
    mglob = np.zeros((neq, neq))
    for ele in range(elements.shape[0]):
        kloc, mloc = retriever(elements, mats, nodes, ele, uel=uel)
        dofs = assem_op[ele, :kloc.shape[0]]
        loc_i, loc_j = np.nonzero((dofs != -1)[:, None] & (dofs != -1)[None, :])
        np.add.at(kglob, (dofs[loc_i], dofs[loc_j]), kloc[loc_i, loc_j])
        np.add.at(mglob, (dofs[loc_i], dofs[loc_j]), mloc[loc_i, loc_j])
    return kglob, mglob

def sparse_assem(elements, mats, nodes, neq, assem_op, uel=None):
    rows, cols, kvals, mvals = [], [], [], []
    for ele in range(elements.shape[0]):
        kloc, mloc = retriever(elements, mats, nodes, ele, uel=uel)
        dofs = assem_op[ele, :kloc.shape[0]]
        keep = [i for i, d in enumerate(dofs) if d != -1]
        for i in keep:
            for j in keep:
                rows.append(dofs[i])
                cols.append(dofs[j])
                kvals.append(kloc[i, j])
                mvals.append(mloc[i, j])
    stiff = coo_matrix((kvals, (rows, cols)), shape=(neq, neq)).tocsr()
    mass = coo_matrix((mvals, (rows, cols)), shape=(neq, neq)).tocsr()
    return stiff, mass

def loadasem(loads, bc_array, neq, ndof_node=2):
    rhs_vec = np.zeros([neq])
    for row in loads:
        node = int(row[0])
        for dof, value in enumerate(row[1:ndof_node + 1]):
            eq = bc_array[node, dof]
            if eq == -1:
                continue
            rhs_vec[eq] += value
    return rhs_vec
