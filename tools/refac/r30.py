# assemutil: free degrees of freedom first, product loops, generator of local matrices
# props: C10 C11 C12 C13 C21 C22
### assemutil
from itertools import product as _product

_ROUTINES = {1: "elast_quad4", 2: "elast_tri6", 3: "elast_tri3", 4: "elast_quad9",
             5: "spring", 6: "truss2D", 7: "beam2DU", 8: "beam2D"}

def ele_fun(eletype):
    name = _ROUTINES.get(eletype)
    if name is None:
        raise ValueError("You entered an invalid type of element.")
    return getattr(ue, name)

def eqcounter(cons, ndof_node=2):
    bc_array = cons.astype(int)
    neq = 0
    for node, dof in _product(range(len(cons)), range(ndof_node)):
        if bc_array[node, dof] != 0:
            continue
        bc_array[node, dof] = neq
        neq += 1
    return neq, bc_array

def _ndof(iet, ndof_el):
    return fem.eletype(iet)[0] if ndof_el is None else ndof_el(iet)

def DME(cons, elements, ndof_node=2, ndof_el_max=18, ndof_el=None):
    neq, bc_array = eqcounter(cons, ndof_node)
    assem_op = np.zeros((len(elements), ndof_el_max), dtype=int)
    for row, elem in zip(assem_op, elements):
        row[:_ndof(elem[1], ndof_el)] = bc_array[elem[3:]].ravel()
    return assem_op, bc_array, neq

def _local_matrices(elements, mats, nodes, assem_op, uel):
    for ele in range(len(elements)):
        kloc, mloc = retriever(elements, mats, nodes, ele, uel=uel)
        eqs = assem_op[ele, :kloc.shape[0]]
        free = [(loc, eq) for loc, eq in enumerate(eqs) if eq != -1]
        for (i, row), (j, col) in _product(free, repeat=2):
            yield row, col, kloc[i, j], mloc[i, j]

def dense_assem(elements, mats, nodes, neq, assem_op, uel=None):
    kglob = np.zeros((neq, neq))
    mglob = np.zeros((neq, neq))
    for row, col, stiff, mass in _local_matrices(elements, mats, nodes, assem_op, uel):
        kglob[row, col] += stiff
        mglob[row, col] += mass
    return kglob, mglob

def sparse_assem(elements, mats, nodes, neq, assem_op, uel=None):
    rows, cols, stiff_vals, mass_vals = [], [], [], []
    for row, col, stiff, mass in _local_matrices(elements, mats, nodes, assem_op, uel):
        rows.append(row)
        cols.append(col)
        stiff_vals.append(stiff)
        mass_vals.append(mass)
    def matrix(vals):
        return coo_matrix((vals, (rows, cols)), shape=(neq, neq)).tocsr()
    return matrix(stiff_vals), matrix(mass_vals)

def loadasem(loads, bc_array, neq, ndof_node=2):
    rhs_vec = np.zeros(neq)
    for load in loads:
        eqs = bc_array[int(load[0]), :ndof_node]
        for eq, value in zip(eqs, load[1:]):
            if eq == -1:
                continue
            rhs_vec[eq] += value
    return rhs_vec
