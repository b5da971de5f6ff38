# assemutil: active dof lists
# props: C10 C11 C12 C13
### assemutil
def _active(dme):
    return [(loc, glob) for loc, glob in enumerate(dme) if glob != -1]

def dense_assem(elements, mats, nodes, neq, assem_op, uel=None):
    kglob = np.zeros((neq, neq))
    mglob = np.zeros((neq, neq))
    for ele in range(elements.shape[0]):
        kloc, mloc = retriever(elements, mats, nodes, ele, uel=uel)
        active = _active(assem_op[ele, :kloc.shape[0]])
        for row, glob_row in active:
            for col, glob_col in active:
                kglob[glob_row, glob_col] += kloc[row, col]
                mglob[glob_row, glob_col] += mloc[row, col]
    return kglob, mglob

def sparse_assem(elements, mats, nodes, neq, assem_op, uel=None):
    rows = []
    cols = []
    stiff_vals = []
    mass_vals = []
    for ele in range(elements.shape[0]):
        kloc, mloc = retriever(elements, mats, nodes, ele, uel=uel)
        active = _active(assem_op[ele, :kloc.shape[0]])
        for row, glob_row in active:
            rows.extend([glob_row]*len(active))
            cols.extend([glob_col for _, glob_col in active])
            stiff_vals.extend([kloc[row, col] for col, _ in active])
            mass_vals.extend([mloc[row, col] for col, _ in active])
    stiff = coo_matrix((stiff_vals, (rows, cols)), shape=(neq, neq)).tocsr()
    mass = coo_matrix((mass_vals, (rows, cols)), shape=(neq, neq)).tocsr()
    return stiff, mass

def eqcounter(cons, ndof_node=2):
    nnodes = cons.shape[0]
    bc_array = cons.copy().astype(int)
    neq = 0
    i = 0
    while i < nnodes:
        for j in range(ndof_node):
            if bc_array[i, j] != 0:
                continue
            bc_array[i, j] = neq
            neq += 1
        i += 1
    return neq, bc_array
