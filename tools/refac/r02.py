# assemutil: vectorised
# props: C10 C11 C12 C13 C21
### assemutil
def eqcounter(cons, ndof_node=2):
    nnodes = cons.shape[0]
    bc_array = cons.copy().astype(int)
    neq = 0
    for k in range(nnodes*ndof_node):
        i, j = divmod(k, ndof_node)
        if bc_array[i, j] == 0:
            bc_array[i, j] = neq
            neq = neq + 1
    return neq, bc_array

def assembler(elements, mats, nodes, neq, assem_op, sparse=True, uel=None):
    assem = sparse_assem if sparse else dense_assem
    return assem(elements, mats, nodes, neq, assem_op, uel=uel)

def dense_assem(elements, mats, nodes, neq, assem_op, uel=None):
    kglob = np.zeros((neq, neq))
    mglob = np.zeros((neq, neq))
    nels = elements.shape[0]
    for ele in range(nels):
        kloc, mloc = retriever(elements, mats, nodes, ele, uel=uel)
        ndof = kloc.shape[0]
        dme = assem_op[ele, :ndof]
        for row in range(ndof):
            for col in range(ndof):
                glob_row, glob_col = dme[row], dme[col]
                if glob_row != -1 and glob_col != -1:
                    kglob[glob_row, glob_col] = kglob[glob_row, glob_col] + kloc[row, col]
                    mglob[glob_row, glob_col] = mglob[glob_row, glob_col] + mloc[row, col]
    return kglob, mglob

def loadasem(loads, bc_array, neq, ndof_node=2):
    rhs_vec = np.zeros(neq)
    for cont in range(loads.shape[0]):
        node = int(loads[cont, 0])
        for dof in range(ndof_node):
            dof_id = bc_array[node, dof]
            if dof_id >= 0:
                rhs_vec[dof_id] += loads[cont, 1 + dof]
    return rhs_vec
