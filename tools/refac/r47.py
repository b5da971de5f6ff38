# assembly through linked-list sparse matrices
# props: C11 C13 C21
### assemutil
from scipy.sparse import lil_matrix

def sparse_assem(elements, mats, nodes, neq, assem_op, uel=None):
    stiff = lil_matrix((neq, neq))
    mass = lil_matrix((neq, neq))
    for ele in range(elements.shape[0]):
        kloc, mloc = retriever(elements, mats, nodes, ele, uel=uel)
        ndof = kloc.shape[0]
        dme = assem_op[ele, :ndof]
        for row in range(ndof):
            if dme[row] == -1:
                continue
            for col in range(ndof):
                if dme[col] != -1:
                    stiff[dme[row], dme[col]] += kloc[row, col]
                    mass[dme[row], dme[col]] += mloc[row, col]
    return stiff.tocsr(), mass.tocsr()
