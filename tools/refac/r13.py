# assemutil: numpy style assembly
# props: C10 C11 C12 C13 C21
### assemutil
def eqcounter(cons, ndof_node=2):
    bc_array = cons.copy().astype(int)
    free = bc_array[:, :ndof_node] == 0
    neq = int(np.count_nonzero(free))
    numbers = np.cumsum(free.ravel()).reshape(free.shape) - 1
    bc_array[:, :ndof_node] = np.where(free, numbers, bc_array[:, :ndof_node])
    return neq, bc_array

def dense_assem(elements, mats, nodes, neq, assem_op, uel=None):
    kglob = np.zeros((neq, neq))
    mglob = np.zeros((neq, neq))
    for ele in range(elements.shape[0]):
        kloc, mloc = retriever(elements, mats, nodes, ele, uel=uel)
        dme = assem_op[ele, :kloc.shape[0]]
        free = np.flatnonzero(dme != -1)
        glob = dme[free]
        np.add.at(kglob, np.ix_(glob, glob), kloc[np.ix_(free, free)])
        np.add.at(mglob, np.ix_(glob, glob), mloc[np.ix_(free, free)])
    return kglob, mglob

def sparse_assem(elements, mats, nodes, neq, assem_op, uel=None):
    rows, cols, stiff_vals, mass_vals = [], [], [], []
    for ele in range(elements.shape[0]):
        kloc, mloc = retriever(elements, mats, nodes, ele, uel=uel)
        dme = assem_op[ele, :kloc.shape[0]]
        free = np.flatnonzero(dme != -1)
        glob = dme[free]
        rows.extend(np.repeat(glob, len(glob)))
        cols.extend(np.tile(glob, len(glob)))
        stiff_vals.extend(kloc[np.ix_(free, free)].ravel())
        mass_vals.extend(mloc[np.ix_(free, free)].ravel())
    stiff = coo_matrix((stiff_vals, (rows, cols)), shape=(neq, neq)).tocsr()
    mass = coo_matrix((mass_vals, (rows, cols)), shape=(neq, neq)).tocsr()
    return stiff, mass

def loadasem(loads, bc_array, neq, ndof_node=2):
    rhs_vec = np.zeros([neq])
    dofs = bc_array[loads[:, 0].astype(int), :ndof_node]
    free = dofs != -1
    np.add.at(rhs_vec, dofs[free], loads[:, 1:ndof_node + 1][free])
    return rhs_vec
