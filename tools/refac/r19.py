# assemutil: selections written another way
# props: C10 C11 C12 C13 C21 C22
### assemutil
def eqcounter(cons, ndof_node=2):
    bc_array = np.array(cons).astype(int)
    active = bc_array[:, :ndof_node]
    rows, cols = np.nonzero(active == 0)
    neq = len(rows)
    active[rows, cols] = np.arange(neq)
    return neq, bc_array

def DME(cons, elements, ndof_node=2, ndof_el_max=18, ndof_el=None):
    nels = len(elements)
    assem_op = np.zeros((nels, ndof_el_max), dtype=int)
    neq, bc_array = eqcounter(cons, ndof_node=ndof_node)
    for row, element in zip(assem_op, elements):
        iet = element[1]
        ndof = fem.eletype(iet)[0] if ndof_el is None else ndof_el(iet)
        row[:ndof] = bc_array[element[3:]].ravel()
    return assem_op, bc_array, neq

def loadasem(loads, bc_array, neq, ndof_node=2):
    rhs_vec = np.zeros([neq])
    ids = np.array(loads[:, 0]).astype(int)
    for dof in range(ndof_node):
        eqs = bc_array[ids, dof]
        mask = eqs >= 0
        np.add.at(rhs_vec, eqs[mask], loads[mask, dof + 1])
    return rhs_vec
