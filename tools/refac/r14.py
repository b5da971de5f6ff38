# assemutil: small edits, dispatch with conditions
# props: C10 C11 C12 C13 C22 C21
### assemutil
def ele_fun(eletype):
    elem_id = {1: ue.elast_quad4, 2: ue.elast_tri6, 3: ue.elast_tri3, 4: ue.elast_quad9,
               5: ue.spring, 6: ue.truss2D, 7: ue.beam2DU, 8: ue.beam2D}
    fun = elem_id.get(eletype)
    if fun is None:
        raise ValueError('You entered an invalid type of element.')
    return fun

def _local_data(elements, mats, nodes, ele):
    record = elements[ele]
    return record[1], nodes[record[3:], 1:], mats[record[2]]

def retriever(elements, mats, nodes, ele, uel=None):
    kind, elcoor, params = _local_data(elements, mats, nodes, ele)
    routine = ele_fun(kind) if uel is None else uel
    return routine(elcoor, params)

def DME(cons, elements, ndof_node=2, ndof_el_max=18, ndof_el=None):
    neq, bc_array = eqcounter(cons, ndof_node=ndof_node)
    assem_op = np.zeros((elements.shape[0], ndof_el_max), dtype=int)
    for ele, element in enumerate(elements):
        ndof = fem.eletype(element[1])[0] if ndof_el is None else ndof_el(element[1])
        dofs = bc_array[element[3:], :].reshape(-1)
        assem_op[ele, 0:ndof] = dofs
    return assem_op, bc_array, neq

def loadasem(loads, bc_array, neq, ndof_node=2):
    rhs_vec = np.zeros([neq])
    for record in loads:
        node = int(record[0])
        for dof in range(ndof_node):
            dof_id = bc_array[node, dof]
            if dof_id == -1:
                continue
            rhs_vec[dof_id] += record[dof + 1]
    return rhs_vec

def sparse_assem(elements, mats, nodes, neq, assem_op, uel=None):
    entries = []
    for ele in range(elements.shape[0]):
        kloc, mloc = retriever(elements, mats, nodes, ele, uel=uel)
        dme = assem_op[ele, :kloc.shape[0]]
        for row, glob_row in enumerate(dme):
            if glob_row < 0:
                continue
            for col, glob_col in enumerate(dme):
                if glob_col >= 0:
                    entries.append((glob_row, glob_col, kloc[row, col], mloc[row, col]))
    rows = [entry[0] for entry in entries]
    cols = [entry[1] for entry in entries]
    stiff = coo_matrix(([entry[2] for entry in entries], (rows, cols)), shape=(neq, neq)).tocsr()
    mass = coo_matrix(([entry[3] for entry in entries], (rows, cols)), shape=(neq, neq)).tocsr()
    return stiff, mass
