# assemutil: index vectors with repeat and tile, masks, bincount, match statement
# props: C10 C11 C12 C13 C21 C22
### assemutil
def eqcounter(cons, ndof_node=2):
    bc_array = cons.copy().astype(int)
    free = bc_array[:, :ndof_node] == 0
    neq = int(np.count_nonzero(free))
    bc_array[:, :ndof_node][free] = np.arange(neq)
    return neq, bc_array

def ele_fun(eletype):
    match eletype:
        case 1:
            return ue.elast_quad4
        case 2:
            return ue.elast_tri6
        case 3:
            return ue.elast_tri3
        case 4:
            return ue.elast_quad9
        case 5:
            return ue.spring
        case 6:
            return ue.truss2D
        case 7:
            return ue.beam2DU
        case 8:
            return ue.beam2D
        case _:
            raise ValueError("You entered an invalid type of element.")

def sparse_assem(elements, mats, nodes, neq, assem_op, uel=None):
    rows = []
    cols = []
    stiff_vals = []
    mass_vals = []
    for ele in range(elements.shape[0]):
        kloc, mloc = retriever(elements, mats, nodes, ele, uel=uel)
        dme = assem_op[ele, :kloc.shape[0]]
        free, = np.where(dme != -1)
        for row in free:
            for col in free:
                rows.append(dme[row])
                cols.append(dme[col])
                stiff_vals.append(kloc[row, col])
                mass_vals.append(mloc[row, col])
    index = (rows, cols)
    stiff = coo_matrix((stiff_vals, index), shape=(neq, neq)).tocsr()
    mass = coo_matrix((mass_vals, index), shape=(neq, neq)).tocsr()
    return stiff, mass

def dense_assem(elements, mats, nodes, neq, assem_op, uel=None):
    kglob, mglob = np.zeros((2, neq, neq))
    for ele in range(elements.shape[0]):
        kloc, mloc = retriever(elements, mats, nodes, ele, uel=uel)
        dme = assem_op[ele, :kloc.shape[0]]
        mask = dme != -1
        eqs = dme[mask]
        np.add.at(kglob, (eqs[:, None], eqs[None, :]), kloc[mask][:, mask])
        np.add.at(mglob, (eqs[:, None], eqs[None, :]), mloc[mask][:, mask])
    return kglob, mglob

def loadasem(loads, bc_array, neq, ndof_node=2):
    rhs_vec = np.zeros([neq])
    for node, forces in zip(loads[:, 0].astype(int), loads[:, 1:]):
        for dof_id, force in zip(bc_array[node, :ndof_node], forces):
            if dof_id == -1:
                continue
            rhs_vec[dof_id] += force
    return rhs_vec
