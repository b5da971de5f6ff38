# assembly: number of free components by running sums, element routines by name, np.take, masks of active entries
# props: C10 C11 C12 C13 C14 C21 C22
### assemutil
def eqcounter(cons, ndof_node=2):
    bc_array = np.array(cons).astype(int)
    used = bc_array[:, :ndof_node]
    free = np.equal(used, 0)
    order = np.cumsum(free.ravel()).reshape(free.shape)
    bc_array[:, :ndof_node] = np.where(free, order - 1, used)
    return np.count_nonzero(free), bc_array

def DME(cons, elements, ndof_node=2, ndof_el_max=18, ndof_el=None):
    nels = len(elements)
    neq, bc_array = eqcounter(cons, ndof_node=ndof_node)
    assem_op = np.zeros([nels, ndof_el_max], dtype=int)
    for ele in range(nels):
        iet = elements[ele, 1]
        ndof = fem.eletype(iet)[0] if ndof_el is None else ndof_el(iet)
        assem_op[ele, 0:ndof] = np.take(bc_array, elements[ele, 3:], axis=0).ravel()
    return assem_op, bc_array, neq

_ROUTINES = ("elast_quad4", "elast_tri6", "elast_tri3", "elast_quad9",
             "spring", "truss2D", "beam2DU", "beam2D")

def ele_fun(eletype):
    names = dict(enumerate(_ROUTINES, start=1))
    if eletype not in names:
        raise ValueError("You entered an invalid type of element.")
    return getattr(ue, names[eletype])

def retriever(elements, mats, nodes, ele, uel=None):
    if uel is None:
        uel = ele_fun(elements[ele, 1])
    elcoor = np.take(nodes[:, 1:], elements[ele, 3:], axis=0)
    return uel(elcoor, mats[elements[ele, 2]])

def assembler(elements, mats, nodes, neq, assem_op, sparse=True, uel=None):
    scheme = {True: sparse_assem, False: dense_assem}[bool(sparse)]
    return scheme(elements, mats, nodes, neq, assem_op, uel=uel)

def dense_assem(elements, mats, nodes, neq, assem_op, uel=None):
    kglob = np.zeros((neq, neq))
    mglob = np.zeros((neq, neq))
    for ele, numbers in enumerate(assem_op):
        kloc, mloc = retriever(elements, mats, nodes, ele, uel=uel)
        ndof = kloc.shape[0]
        for row, col in np.ndindex(ndof, ndof):
            glob_row, glob_col = numbers[row], numbers[col]
            if glob_row == -1 or glob_col == -1:
                continue
            kglob[glob_row, glob_col] += kloc[row, col]
            mglob[glob_row, glob_col] += mloc[row, col]
    return kglob, mglob

def loadasem(loads, bc_array, neq, ndof_node=2):
    rhs_vec = np.zeros([neq])
    for load in loads:
        node = int(load[0])
        for dof_id, force in zip(bc_array[node, :ndof_node], load[1:]):
            if dof_id > -1:
                rhs_vec[dof_id] += force
    return rhs_vec
