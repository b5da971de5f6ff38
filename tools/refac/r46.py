# assembly: matrices under construction in linked lists, local ids first, last free number by sum
# props: C10 C11 C12 C13 C14 C21 C22
### assemutil
from itertools import product
from scipy.sparse import csr_matrix

def eqcounter(cons, ndof_node=2):
    nnodes = len(cons)
    bc_array = np.array(cons, copy=True).astype(int)
    neq = 0
    for i, j in product(range(nnodes), range(ndof_node)):
        if bc_array[i, j] != 0:
            continue
        bc_array[i, j] = neq
        neq = neq + 1
    return neq, bc_array

def DME(cons, elements, ndof_node=2, ndof_el_max=18, ndof_el=None):
    neq, bc_array = eqcounter(cons, ndof_node=ndof_node)
    count = ndof_el if ndof_el is not None else (lambda iet: fem.eletype(iet)[0])
    assem_op = np.zeros([elements.shape[0], ndof_el_max], dtype=int)
    for row, element in zip(assem_op, elements):
        ids = np.concatenate([bc_array[node] for node in element[3:]])
        row[:count(element[1])] = ids
    return assem_op, bc_array, neq

def retriever(elements, mats, nodes, ele, uel=None):
    _, elem_type, mat_id, *_ = elements[ele]
    coords = nodes[elements[ele, 3:]][:, 1:]
    routine = uel if uel is not None else ele_fun(elem_type)
    kloc, mloc = routine(coords, mats[mat_id])
    return kloc, mloc

def dense_assem(elements, mats, nodes, neq, assem_op, uel=None):
    kglob = np.zeros((neq, neq))
    mglob = np.zeros((neq, neq))
    for ele in range(len(elements)):
        kloc, mloc = retriever(elements, mats, nodes, ele, uel=uel)
        dme = assem_op[ele][:len(kloc)]
        active = [(loc, glob) for loc, glob in enumerate(dme) if glob != -1]
        for row, glob_row in active:
            for col, glob_col in active:
                kglob[glob_row, glob_col] += kloc[row, col]
                mglob[glob_row, glob_col] += mloc[row, col]
    return kglob, mglob

def sparse_assem(elements, mats, nodes, neq, assem_op, uel=None):
    rows, cols, stiff_vals, mass_vals = [], [], [], []
    for ele in range(len(elements)):
        kloc, mloc = retriever(elements, mats, nodes, ele, uel=uel)
        dme = assem_op[ele, :kloc.shape[0]]
        for (row, col), value in np.ndenumerate(kloc):
            if dme[row] == -1 or dme[col] == -1:
                continue
            rows.append(dme[row])
            cols.append(dme[col])
            stiff_vals.append(value)
            mass_vals.append(mloc[row, col])
    shape = (neq, neq)
    stiff = csr_matrix((stiff_vals, (rows, cols)), shape=shape)
    mass = csr_matrix((mass_vals, (rows, cols)), shape=shape)
    return stiff, mass

def loadasem(loads, bc_array, neq, ndof_node=2):
    rhs_vec = np.zeros(neq)
    for record in loads:
        node, values = int(record[0]), record[1:]
        targets = bc_array[node]
        for dof in range(ndof_node):
            if targets[dof] < 0:
                continue
            rhs_vec[targets[dof]] += values[dof]
    return rhs_vec
