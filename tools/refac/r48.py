# assembly map from stacked rows; numbers of free components by columns; plots and writers from stacked rows
# props: C10 C15 C20 C21
### assemutil
def DME(cons, elements, ndof_node=2, ndof_el_max=18, ndof_el=None):
    def size_of(iet):
        if ndof_el is None:
            ndof, _, _ = fem.eletype(iet)
            return ndof
        return ndof_el(iet)

    nels = elements.shape[0]
    neq, bc_array = eqcounter(cons, ndof_node=ndof_node)
    assem_op = np.zeros([nels, ndof_el_max], dtype=int)
    for ele in range(nels):
        connectivity = elements[ele, 3:]
        assem_op[ele, :size_of(elements[ele, 1])] = np.hstack([bc_array[node] for node in connectivity])
    return assem_op, bc_array, neq
### postprocesor
def mesh2tri(nodes, elements):
    corner_nodes = {3: [[3, 4, 5]],
                    1: [[3, 4, 5], [5, 6, 3]],
                    2: [[3, 6, 8], [6, 7, 8], [6, 4, 7], [7, 5, 8]],
                    4: [[3, 7, 11], [7, 4, 11], [4, 8, 11], [8, 5, 11],
                        [5, 9, 11], [9, 6, 11], [6, 10, 11], [10, 3, 11]]}
    x_coord = nodes[:, 1]
    y_coord = nodes[:, 2]
    triangs = []
    for el in elements:
        for triple in corner_nodes.get(int(el[1]), []):
            triangs.append(el[triple])
    return Triangulation(x_coord, y_coord, np.array(triangs))
