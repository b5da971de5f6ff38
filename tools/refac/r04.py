# assemutil: ix_ and mask
# props: C10 C11 C12 C13
### assemutil
def dense_assem(elements, mats, nodes, neq, assem_op, uel=None):
    kglob = np.zeros((neq, neq))
    mglob = np.zeros((neq, neq))
    for ele in range(elements.shape[0]):
        kloc, mloc = retriever(elements, mats, nodes, ele, uel=uel)
        dme = assem_op[ele, :kloc.shape[0]]
        free = np.nonzero(dme != -1)[0]
        for row in free:
            for col in free:
                kglob[dme[row], dme[col]] += kloc[row, col]
                mglob[dme[row], dme[col]] += mloc[row, col]
    return kglob, mglob

def loadasem(loads, bc_array, neq, ndof_node=2):
    rhs_vec = np.zeros([neq])
    load_nodes = loads[:, 0].astype(int)
    for cont, node in enumerate(load_nodes):
        for dof_id, value in zip(bc_array[node, :ndof_node], loads[cont, 1:ndof_node + 1]):
            if dof_id != -1:
                rhs_vec[dof_id] += value
    return rhs_vec

def eqcounter(cons, ndof_node=2):
    bc_array = cons.copy().astype(int)
    neq = 0
    for i in range(bc_array.shape[0]):
        for j in range(ndof_node):
            free = bc_array[i, j] == 0
            if free:
                bc_array[i, j], neq = neq, neq + 1
    return neq, bc_array
