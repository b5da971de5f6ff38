# language features: named tuples, small classes, partial, reduce, annotations, assertions, match, try/finally, walrus
# props: C04 C06 C07 C10 C11 C12 C13 C14 C15 C16 C17 C20 C21 C22
### uelutil
from collections import namedtuple
from functools import partial, reduce

_Rule = namedtuple("_Rule", "points weights scale")


class _Material:
    """Parameters of a plane element"""
    def __init__(self, params):
        self.elastic = params[:2]
        self.density = 1 if len(params) == 2 else params[-1]

    @property
    def stiffness(self):
        return fem.umat(self.elastic)


def _plane(coord, params, rule: _Rule, shape) -> tuple:
    material = _Material(params)
    C = material.stiffness

    def term(total, quad):
        (r, s), weight = quad
        H, B, det = fem.elast_diff_2d(r, s, coord, shape)
        factor = rule.scale*det*weight
        return total[0] + factor*(B.T @ C @ B), total[1] + material.density*factor*(H.T @ H)

    n = 2*len(coord)
    return reduce(term, zip(rule.points, rule.weights), (np.zeros((n, n)), np.zeros((n, n))))


def elast_quad4(coord, params):
    return _plane(coord, params, _Rule(*gau.gauss_nd(2), scale=1), fem.shape_quad4)

def elast_quad9(coord, params):
    pts, wts = gau.gauss_nd(3, ndim=2)
    return _plane(coord, params, rule=_Rule(points=pts, weights=wts, scale=1), shape=fem.shape_quad9)

def elast_quad8(coord, params):
    assemble = partial(_plane, coord, params, shape=fem.shape_quad8)
    return assemble(rule=_Rule(*gau.gauss_nd(3, ndim=2), 1))

def elast_tri3(coord, params):
    return _plane(coord, params, _Rule(*gau.gauss_tri(order=2), 0.5), fem.shape_tri3)

def elast_tri6(coord, params):
    return _plane(coord, params, _Rule(*gau.gauss_tri(order=3), 0.5), fem.shape_tri6)
### assemutil
def eqcounter(cons, ndof_node: int = 2) -> tuple:
    bc_array = cons.copy().astype(int)
    neq = 0
    for row in bc_array:
        for j in range(ndof_node):
            if not row[j]:
                row[j], neq = neq, neq + 1
    return neq, bc_array

def ele_fun(eletype):
    match eletype:
        case 1:
            routine = ue.elast_quad4
        case 2:
            routine = ue.elast_tri6
        case 3:
            routine = ue.elast_tri3
        case 4:
            routine = ue.elast_quad9
        case 5:
            routine = ue.spring
        case 6:
            routine = ue.truss2D
        case 7:
            routine = ue.beam2DU
        case 8:
            routine = ue.beam2D
        case _:
            raise ValueError("You entered an invalid type of element.")
    return routine

def dense_assem(elements, mats, nodes, neq, assem_op, uel=None):
    kglob, mglob = np.zeros((neq, neq)), np.zeros((neq, neq))
    pairs = lambda dme: ((i, j) for i in range(len(dme)) for j in range(len(dme)) if dme[i] != -1 and dme[j] != -1)
    for ele in range(elements.shape[0]):
        kloc, mloc = retriever(elements, mats, nodes, ele, uel=uel)
        dme = assem_op[ele, :kloc.shape[0]]
        for i, j in pairs(dme):
            kglob[dme[i], dme[j]] += kloc[i, j]
            mglob[dme[i], dme[j]] += mloc[i, j]
    return kglob, mglob

def loadasem(loads, bc_array, neq, ndof_node=2):
    rhs_vec = np.zeros([neq])
    for node, *forces in loads:
        for dof in range(ndof_node):
            if (dof_id := bc_array[int(node), dof]) != -1:
                rhs_vec[dof_id] += forces[dof]
    return rhs_vec
### femutil
def elast_diff_2d(r, s, coord, element):
    N, dNdr = element(r, s)
    det, jaco_inv = jacoper(dNdr, coord)
    dNdx, dNdy = jaco_inv @ dNdr
    ndof = 2*len(N)
    x, y = slice(0, None, 2), slice(1, None, 2)
    H, B = np.zeros((2, ndof)), np.zeros((3, ndof))
    H[0, x] = H[1, y] = N
    B[0, x] = B[2, y] = dNdx
    B[1, y] = B[2, x] = dNdy
    return H, B, det
### postprocesor
def complete_disp(bc_array, nodes, sol, ndof_node=2):
    def value(row, col):
        return 0.0 if bc_array[row, col] == -1 else sol[bc_array[row, col]]
    nnodes = nodes.shape[0]
    sol_complete = np.empty([nnodes, ndof_node], dtype=float)
    for row in range(nnodes):
        sol_complete[row] = [value(row, col) for col in range(ndof_node)]
    return sol_complete

def mesh2tri(nodes, elements):
    splits = {1: ((0, 1, 2), (2, 3, 0)),
              2: ((0, 3, 5), (3, 4, 5), (3, 1, 4), (4, 2, 5)),
              3: ((0, 1, 2),),
              4: ((0, 4, 8), (4, 1, 5), (0, 8, 7), (4, 5, 8), (7, 8, 6), (8, 5, 2), (7, 6, 3), (8, 2, 6))}
    triangs = [list(map(int, elem[[3 + i for i in triple]]))
               for elem in elements if elem[1] in splits
               for triple in splits[int(elem[1])]]
    return Triangulation(nodes[:, 1], nodes[:, 2], np.array(triangs))
### preprocesor
def node_writer(points, point_data):
    nnodes, *_ = points.shape
    table = {0: np.arange(nnodes), 1: points[:, 0], 2: points[:, 1]}
    nodes_array = np.zeros((nnodes, 5))
    for column, values in table.items():
        nodes_array[:, column] = values
    return nodes_array

def loading(cells, cell_data, phy_lin, P_x, P_y):
    lines, tags = cells["line"], cell_data["line"]["gmsh:physical"]
    loaded = {node for line, tag in zip(lines, tags) if tag == phy_lin for node in line}
    cargas = np.zeros((len(loaded), 3))
    for row, node in enumerate(loaded):
        cargas[row] = node, P_x/len(loaded), P_y/len(loaded)
    return cargas

def rect_grid(length, height, nx, ny, eletype=None):
    x_line = np.linspace(-length/2, length/2, nx + 1)
    y_line = np.linspace(-height/2, height/2, ny + 1)
    x = np.tile(x_line, ny + 1)
    y = np.repeat(y_line, nx + 1)
    corner = lambda row, col: row*(nx + 1) + col
    els = np.array([[row*nx + col, 1, 0, corner(row, col), corner(row, col + 1),
                     corner(row + 1, col + 1), corner(row + 1, col)]
                    for row in range(ny) for col in range(nx)], dtype=int)
    return x, y, els
