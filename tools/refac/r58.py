# the whole solution by a masked gather
# props: C13 C21
### postprocesor
def complete_disp(bc_array, nodes, sol, ndof_node=2):
    nnodes = nodes.shape[0]
    dofs = bc_array[:nnodes, :ndof_node]
    sol_complete = np.zeros((nnodes, ndof_node), dtype=float)
    for row in range(nnodes):
        for col in range(ndof_node):
            dof = dofs[row, col]
            sol_complete[row, col] = 0.0 if dof < 0 else sol[dof]
    return sol_complete
