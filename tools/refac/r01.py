# assemutil: helper extraction, enumerate, zip
# props: C10 C11 C12 C22 C21 C13
### assemutil
def eqcounter(cons, ndof_node=2):
    bc_array = cons.copy().astype(int)
    neq = 0
    for node_row in bc_array:
        for j in range(ndof_node):
            if node_row[j] == 0:
                node_row[j] = neq
                neq += 1
    return neq, bc_array

def _ndof_element(iet, ndof_el):
    if ndof_el is None:
        return fem.eletype(iet)[0]
    return ndof_el(iet)

def DME(cons, elements, ndof_node=2, ndof_el_max=18, ndof_el=None):
    nels = elements.shape[0]
    neq, bc_array = eqcounter(cons, ndof_node=ndof_node)
    assem_op = np.zeros([nels, ndof_el_max], dtype=int)
    for ele in range(nels):
        ndof = _ndof_element(elements[ele, 1], ndof_el)
        assem_op[ele, :ndof] = bc_array[elements[ele, 3:]].ravel()
    return assem_op, bc_array, neq

def retriever(elements, mats, nodes, ele, uel=None):
    row = elements[ele]
    params = mats[row[2], :]
    elcoor = nodes[row[3:], 1:]
    if uel is None:
        uel = ele_fun(row[1])
    kloc, mloc = uel(elcoor, params)
    return kloc, mloc

def dense_assem(elements, mats, nodes, neq, assem_op, uel=None):
    kglob = np.zeros((neq, neq))
    mglob = np.zeros((neq, neq))
    for ele in range(elements.shape[0]):
        kloc, mloc = retriever(elements, mats, nodes, ele, uel=uel)
        ndof = kloc.shape[0]
        dme = assem_op[ele, :ndof]
        for row, glob_row in enumerate(dme):
            if glob_row == -1:
                continue
            for col, glob_col in enumerate(dme):
                if glob_col == -1:
                    continue
                kglob[glob_row, glob_col] += kloc[row, col]
                mglob[glob_row, glob_col] += mloc[row, col]
    return kglob, mglob

def sparse_assem(elements, mats, nodes, neq, assem_op, uel=None):
    rows, cols, stiff_vals, mass_vals = [], [], [], []
    for ele in range(len(elements)):
        kloc, mloc = retriever(elements, mats, nodes, ele, uel=uel)
        ndof = kloc.shape[0]
        dme = assem_op[ele, :ndof]
        for row, glob_row in enumerate(dme):
            if glob_row == -1:
                continue
            for col, glob_col in enumerate(dme):
                if glob_col != -1:
                    rows.append(glob_row)
                    cols.append(glob_col)
                    stiff_vals.append(kloc[row, col])
                    mass_vals.append(mloc[row, col])
    shape = (neq, neq)
    stiff = coo_matrix((stiff_vals, (rows, cols)), shape=shape).tocsr()
    mass = coo_matrix((mass_vals, (rows, cols)), shape=shape).tocsr()
    return stiff, mass

def loadasem(loads, bc_array, neq, ndof_node=2):
    rhs_vec = np.zeros([neq])
    for load in loads:
        node = int(load[0])
        for dof in range(ndof_node):
            dof_id = bc_array[node, dof]
            if dof_id == -1:
                continue
            rhs_vec[dof_id] += load[dof + 1]
    return rhs_vec
