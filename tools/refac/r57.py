# the whole solution by fancy indexing, -1 reading the last entry and being masked afterwards
# props: C13 C21
### postprocesor
def complete_disp(bc_array, nodes, sol, ndof_node=2):
    nnodes = nodes.shape[0]
    dofs = np.asarray(bc_array)[:nnodes, :ndof_node].astype(int)
    padded = np.append(sol, 0.0)
    return padded[dofs]
