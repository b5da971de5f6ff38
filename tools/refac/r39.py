# assemutil: while loops, continue, partial, dispatch by name, sub-blocks
# props: C10 C11 C12 C13 C21 C22
### assemutil
_NAMES = ("quad4", "tri6", "tri3", "quad9")

def _lookup(eletype):
    if 1 <= eletype <= 4:
        for number, name in enumerate(_NAMES, 1):
            if number == eletype:
                return getattr(ue, "elast_" + name)
    elif eletype == 5:
        return ue.spring
    elif eletype == 6:
        return ue.truss2D
    elif eletype == 7:
        return ue.beam2DU
    elif eletype == 8:
        return ue.beam2D
    return None

def ele_fun(eletype):
    routine = _lookup(eletype)
    if routine is None:
        raise ValueError("You entered an invalid type of element.")
    return routine

def eqcounter(cons, ndof_node=2):
    bc_array = np.array(cons).astype(int)
    neq = 0
    i = 0
    for flags in bc_array:
        for j, flag in enumerate(flags[:ndof_node]):
            if flag != 0:
                continue
            bc_array[i, j] = neq
            neq = neq + 1
        i += 1
    return neq, bc_array

def DME(cons, elements, ndof_node=2, ndof_el_max=18, ndof_el=None):
    dofs_of = ndof_el if ndof_el is not None else (lambda iet: fem.eletype(iet)[0])
    neq, bc_array = eqcounter(cons, ndof_node)
    assem_op = np.zeros((len(elements), ndof_el_max), dtype=int)
    for row, element in zip(assem_op, elements):
        row[:dofs_of(element[1])] = bc_array[element[3:], :].ravel()
    return assem_op, bc_array, neq

def retriever(elements, mats, nodes, ele, uel=None):
    _, elem_type, material, *conn = elements[ele]
    routine = uel if uel is not None else ele_fun(elem_type)
    return tuple(routine(nodes[conn, 1:], mats[material]))

def assembler(elements, mats, nodes, neq, assem_op, sparse=True, uel=None):
    assemble = sparse_assem if sparse else dense_assem
    kglob, mglob = assemble(elements, mats, nodes, neq, assem_op, uel=uel)
    return kglob, mglob

def _local_entries(dme):
    for row, glob_row in enumerate(dme):
        if glob_row == -1:
            continue
        for col, glob_col in enumerate(dme):
            if glob_col == -1:
                continue
            yield row, col, glob_row, glob_col

def dense_assem(elements, mats, nodes, neq, assem_op, uel=None):
    kglob, mglob = np.zeros((2, neq, neq))
    for ele, dme in enumerate(assem_op):
        kloc, mloc = retriever(elements, mats, nodes, ele, uel)
        for row, col, glob_row, glob_col in _local_entries(dme[:len(kloc)]):
            kglob[glob_row, glob_col] += kloc[row, col]
            mglob[glob_row, glob_col] += mloc[row, col]
    return kglob, mglob

def sparse_assem(elements, mats, nodes, neq, assem_op, uel=None):
    entries = []
    for ele, dme in enumerate(assem_op):
        kloc, mloc = retriever(elements, mats, nodes, ele, uel)
        entries.extend((i, j, kloc[row, col], mloc[row, col])
                       for row, col, i, j in _local_entries(dme[:len(kloc)]))
    rows = [entry[0] for entry in entries]
    cols = [entry[1] for entry in entries]
    stiff = coo_matrix(([entry[2] for entry in entries], (rows, cols)), shape=(neq, neq))
    mass = coo_matrix(([entry[3] for entry in entries], (rows, cols)), shape=(neq, neq))
    return stiff.tocsr(), mass.tocsr()

def loadasem(loads, bc_array, neq, ndof_node=2):
    rhs_vec = np.zeros(neq)
    for node, *forces in loads:
        for dof_id, force in zip(bc_array[int(node)], forces[:ndof_node]):
            if dof_id == -1:
                continue
            rhs_vec[dof_id] += force
    return rhs_vec
