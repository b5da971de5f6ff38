"""Planted bugs: each written from a property's text and the code (see mkseed.py)."""
SEEDS = []


def seed(id, property, file, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits={file: edits} if file else edits, needs=needs, breaks=breaks,
                      demo=demo))


A, P, F, U, G, B = ['solidspy/%s.py' % n for n in
                    ('assemutil', 'postprocesor', 'femutil', 'uelutil', 'gaussutil', 'blochutil')]
R = 'solidspy/preprocesor.py'

seed('c21-eqcounter-alias', 'C21', A,
     [('    bc_array = cons.copy().astype(int)\n', '    bc_array = cons.astype(int, copy=False)\n')],
     'a constraint array that is already of the default integer type, reused after the call',
     'numbering overwrites the caller\'s constraint array with equation numbers', '''
import numpy as np
import solidspy.assemutil as ass
cons = np.array([[-1, -1], [0, 0], [0, -1]])
keep = cons.copy()
ass.eqcounter(cons)
assert np.array_equal(cons, keep), cons
assert ass.eqcounter(cons)[0] == 3
''')

seed('c11-dense-repeated', 'C11', A,
     [('''        for row in range(ndof):
            glob_row = dme[row]
            if glob_row != -1:
                for col in range(ndof):
                    glob_col = dme[col]
                    if glob_col != -1:
                        kglob[glob_row, glob_col] += kloc[row, col]
                        mglob[glob_row, glob_col] += mloc[row, col]
''', '''        free = np.flatnonzero(dme != -1)
        glob = np.ix_(dme[free], dme[free])
        local = np.ix_(free, free)
        kglob[glob] += kloc[local]
        mglob[glob] += mloc[local]
''')],
     'dense assembly and an element two of whose degrees of freedom share one equation (periodic or tied model)',
     'fancy-indexed += keeps only the last contribution of an equation repeated inside an element', '''
import numpy as np
import solidspy.assemutil as ass
nodes = np.array([[0, 0., 0.], [1, 2., 0.], [2, 2., 1.], [3, 0., 1.]])
eles = np.array([[0, 1, 0, 0, 1, 2, 3]])
mats = np.array([[10., .3, 2.]])
op = np.array([[0, 1, 2, 1, 2, 3, 0, 3]])
Kd, Md = ass.assembler(eles, mats, nodes, 4, op, sparse=False)
Ks, Ms = ass.assembler(eles, mats, nodes, 4, op, sparse=True)
assert np.allclose(Kd, Ks.toarray()) and np.allclose(Md, Ms.toarray())
''')

seed('c11-sparse-zero-skip', 'C11', A,
     [('''                    if glob_col != -1:
                        rows.append(glob_row)
''', '''                    if glob_col != -1 and kloc[row, col] != 0:
                        rows.append(glob_row)
''')],
     'sparse assembly of an element whose mass matrix has an entry where the stiffness entry is exactly zero',
     'mass entries at positions of zero stiffness are dropped from the sparse matrix', '''
import numpy as np
import solidspy.assemutil as ass
nodes = np.array([[0, 0., 0.], [1, 2., 0.]])
eles = np.array([[0, 6, 0, 0, 1]])
mats = np.array([[10., .3, 2.]])
op, bc, neq = ass.DME(np.zeros((2, 2), int), eles)
Kd, Md = ass.assembler(eles, mats, nodes, neq, op, sparse=False)
Ks, Ms = ass.assembler(eles, mats, nodes, neq, op, sparse=True)
assert np.allclose(Md, Ms.toarray()), Ms.toarray()
''')

seed('c12-load-order', 'C12', A,
     [('    nloads = loads.shape[0]\n    rhs_vec', '    loads = loads[np.argsort(loads[:, 0])]\n    loads = loads[np.diff(loads, axis=0, append=np.inf).any(axis=1)]\n    nloads = loads.shape[0]\n    rhs_vec')],
     'the same load record (same node, same components) listed more than once',
     'identical load records are merged instead of adding up', '''
import numpy as np
import solidspy.assemutil as ass
bc = np.array([[0, 1], [-1, 2]])
f = ass.loadasem(np.array([[0, 1., 2.], [1, 5., 3.], [0, 1., 2.]]), bc, 3)
assert np.allclose(f, [2, 4, 3]), f
''')

seed('c14-single-load', 'C14', R,
     [("    loads = np.loadtxt(folder + 'loads.txt', ndmin=2)\n", "    loads = np.loadtxt(folder + 'loads.txt', ndmin=1).reshape(-1, 3)\n"),
      ("    mats = np.loadtxt(folder + 'mater.txt', ndmin=2)\n", "    mats = np.loadtxt(folder + 'mater.txt', ndmin=1)\n    if mats.ndim < 2:\n        mats = mats.reshape(-1, 2)\n")],
     'a material file with a single profile of four parameters (a beam) - or three',
     'a single material record with a number of parameters other than two is split over several rows or refused', '''
import os, tempfile
import numpy as np
import solidspy.preprocesor as pre
with tempfile.TemporaryDirectory() as d:
    d += '/'
    np.savetxt(d + 'nodes.txt', [[0, 0, 0, -1, -1], [1, 1, 0, 0, 0]])
    np.savetxt(d + 'mater.txt', [[1., 2., 3., 4.]])
    np.savetxt(d + 'eles.txt', [[0, 7, 0, 0, 1]], fmt='%d')
    np.savetxt(d + 'loads.txt', [[1, 0., 1.]])
    nodes, mats, els, loads = pre.readin(d)
    assert mats.shape == (1, 4), mats.shape
''')

seed('c16-grid-lattice', 'C16', R,
     [('''    y, x = np.mgrid[-height/2:height/2:(ny + 1)*1j,
                    -length/2:length/2:(nx + 1)*1j]
''', '''    hx, hy = length/nx, height/ny
    y, x = np.mgrid[-height/2:height/2 + 1e-9:hy,
                    -length/2:length/2 + 1e-9:hx]
''')],
     'a rectangle so small, or so large, that the absolute slack 1e-9 is the wrong size for the rounding of the step',
     'the node lattice gains or loses a row or a column of nodes', '''
import numpy as np
import solidspy.preprocesor as pre
for L, H, nx, ny in ((2., 1., 4, 2), (1e-9, 1e-9, 3, 4), (4.9e8, 7.7e8, 7, 11)):
    x, y, els = pre.rect_grid(L, H, nx, ny)
    assert x.size == (nx + 1)*(ny + 1) == y.size, (x.size, L, H)
    assert np.isclose(x.max(), L/2) and np.isclose(y.max(), H/2)
''')

seed('c17-contiguous-group', 'C17', R,
     [("    els_array[: , 3::] = eles[ele_id, :]\n",
       "    if ele_id:\n        els_array[: , 3::] = eles[ele_id[0]:ele_id[0] + len(ele_id), :]\n")],
     'a mesh in which the cells of the requested physical group are not stored consecutively',
     'connectivity is taken from cells of another group', '''
import numpy as np
import solidspy.preprocesor as pre
cells = {'triangle': np.array([[0, 1, 2], [3, 4, 5], [6, 7, 8], [9, 10, 11]])}
data = {'triangle': {'gmsh:physical': np.array([7, 5, 7, 7])}}
nf, els = pre.ele_writer(cells, data, 'triangle', 7, 3, 0, 0)
assert np.array_equal(els[:, 3:], cells['triangle'][[0, 2, 3]]), els
''')

seed('c17-load-share', 'C17', R,
     [('    nodes_carga = list(set(nodes_carga))\n    ncargas = len(nodes_carga)\n',
       '    nodes_carga = list(set(nodes_carga))\n    ncargas = len(id_carga) + 1\n'),
      ('    cargas = np.zeros((ncargas, 3))\n', '    cargas = np.zeros((len(nodes_carga), 3))\n')],
     'a loaded group that is a closed loop or made of several separate polylines (nodes not one more than lines)',
     'the total load is not what the records add up to', '''
import numpy as np
import solidspy.preprocesor as pre
cells = {'line': np.array([[0, 1], [1, 2], [2, 0], [4, 5]])}
data = {'line': {'gmsh:physical': np.array([3, 3, 3, 8])}}
c = pre.loading(cells, data, 3, 9., -6.)
assert np.isclose(c[:, 1].sum(), 9.) and np.isclose(c[:, 2].sum(), -6.), c
''')

seed('c18-plane-phase', 'C18', B,
     [('phase_shift = np.exp(1.0j*np.dot(wavevector, pos_diff))', 'phase_shift = np.exp(1.0j*(wavevector[0]*pos_diff[0] + wavevector[1]*pos_diff[1]))')],
     'three-dimensional coordinates with a wave vector and a period along z (or a one-dimensional lattice)',
     'the third component of the wave vector is ignored in the phase of an image degree of freedom', '''
import numpy as np
import solidspy.blochutil as bl
coords = np.array([[0., 0, 0], [0, 0, 1]])
k = np.array([0., 0, 1.2])
T = bl.bloch_transform_mat(k, coords, 2, [0], [1], [0], [1], {0: [0]}, {1: [1]}, [0, 0]).toarray()
assert np.isclose(T[1, 0], np.exp(1.2j)), T
''')

seed('c18-shared-node', 'C18', B,
     [('''        dof_ima = nodes_ima_dof[node_ima]
''', '''        dof_ima = sorted(nodes_ima_dof[node_ima])
''')],
     'an image node whose degrees of freedom are not numbered in increasing order (a different component order)',
     'the components of an image node are tied to the wrong components of its reference', '''
import numpy as np
import solidspy.blochutil as bl
coords = np.array([[0., 0], [1, 0]])
k = np.array([.7, 0.])
T = bl.bloch_transform_mat(k, coords, 4, [0], [1], [0, 1], [3, 2], {0: [0, 1]}, {1: [3, 2]}, [0, 1, 1, 0]).toarray()
want = np.zeros((4, 2), complex)
want[0, 0] = want[1, 1] = 1
want[3, 0] = want[2, 1] = np.exp(.7j)
assert np.allclose(T, want), T
''')

seed('c19-absolute-offdiag', 'C19', P,
     [('    elif abs(mat[0, 1])/np.abs(mat).max() < tol:\n', '    elif abs(mat[0, 1]) < tol:\n')],
     'a tensor of small magnitude (strains of order 1e-6) with off-diagonal term comparable to the others',
     'small but relevant shear is neglected: principal values and directions are wrong', '''
import numpy as np
import solidspy.postprocesor as pos
m = np.array([[3e-6, 9e-7], [9e-7, 1e-6]])
e1, e2, v1, v2 = pos.eigvals(m)
w = np.linalg.eigvalsh(m)
assert np.allclose([e2, e1], w, rtol=1e-6, atol=0), (e1, e2, w)
''')

seed('c19-field-view', 'C19', P,
     [('    mat = np.zeros((2, 2))\n    for cont, tensor in enumerate(field):\n        mat[0, 0] = tensor[0]\n        mat[1, 1] = tensor[1]\n        mat[0, 1] = tensor[2]\n',
       '    mat = np.zeros((2, 2), dtype=field.dtype)\n    for cont, tensor in enumerate(field):\n        mat[0, 0] = tensor[0]\n        mat[1, 1] = tensor[1]\n        if tensor[2]:\n            mat[0, 1] = tensor[2]\n')],
     'a field with a node of zero shear after a node with nonzero shear',
     'the shear of the previous node leaks into a shear-free node', '''
import numpy as np
import solidspy.postprocesor as pos
f = np.array([[1., 2., .5], [3., 1., 0.]])
e1, e2, v1, v2 = pos.principal_dirs(f)
assert np.allclose([e1[1], e2[1]], [3, 1]), (e1, e2)
''')

seed('c09-arctan', 'C09', U,
     [('''    Q = np.array([
        [nx, ny, 0, 0, 0, 0],
''', '''    if abs(nx) < 1e-3:
        nx = 0.0
    Q = np.array([
        [nx, ny, 0, 0, 0, 0],
''')],
     'a frame bar inclined by less than a thousandth of a radian from the vertical',
     'the direction of an almost vertical bar is snapped: the rotation is no longer orthogonal', '''
import numpy as np
import solidspy.uelutil as ue
c = np.array([[0., 0.], [.002, 3.]])
K, M = ue.beam2D(c, (2., 1., 5., 1.))
th = c - c.mean(0)
rot = np.array([-th[0, 1], th[0, 0], 1, -th[1, 1], th[1, 0], 1])
assert np.abs(K @ rot).max() < 1e-10*np.abs(K).max(), K @ rot
''')

seed('c08-first-area', 'C08', P,
     [('(length*mats[mat_id, 1])', '(length*mats[0, 1])')],
     'a truss with bars of different cross sections',
     'the stress of every bar is computed with the area of the first material', '''
import numpy as np
import solidspy.postprocesor as pos
nodes = np.array([[0, 0., 0.], [1, 2., 0.], [2, 3., 0.]])
els = np.array([[0, 6, 0, 0, 1], [1, 6, 1, 1, 2]])
mats = np.array([[1., 1.], [2., 3.]])
s = pos.stress_truss(nodes, els, mats, np.array([[0., 0], [.1, 0], [.3, 0]]))
assert np.allclose(s, [.05, .4]), s
''')

seed('c05-int-params', 'C05', F,
     [('''    E, nu = params
    lamda = E*nu/(1 + nu)/(1 - 2*nu)
    mu = 0.5*E/(1 + nu)
    C = np.array([
    [2*mu + lamda, lamda, lamda, 0, 0, 0],
''', '''    E, nu = np.asarray(params)
    C = np.zeros((6, 6), dtype=type(E)) if E > 1 else np.zeros((6, 6))
    lamda = E*nu/(1 + nu)/(1 - 2*nu)
    mu = 0.5*E/(1 + nu)
    C[...] = np.array([
    [2*mu + lamda, lamda, lamda, 0, 0, 0],
''')],
     'an integer Young modulus larger than 1 together with Poisson ratio 0 given as an integer',
     'the matrix of integer-typed parameters is truncated to integers', '''
import numpy as np
import solidspy.femutil as fem
C = fem.elast_mat([5, 0])
assert np.isclose(C[3, 3], 2.5), C
assert np.allclose(C, fem.elast_mat([5., 0.]))
''')

seed('c03-abs-det', 'C03', F,
     [('    if det < 0.0:\n', '    if det < 0.0 and jaco.shape[0] == 2:\n')],
     'a brick or tetrahedron whose nodes are listed with the opposite orientation',
     'an inverted three-dimensional element is accepted with a negative determinant', '''
import numpy as np
import solidspy.femutil as fem
c = np.array([[0., 0, 0], [0, 1, 0], [1, 0, 0], [0, 0, 1]])
N, dN = fem.shape_tet4(.25, .25, .25)
try:
    fem.jacoper(dN, c)
except ValueError:
    pass
else:
    raise AssertionError('inverted element accepted')
''')

seed('c15-poisson-zero', 'C15', P,
     [('            S_nodes[node, 2] += shear*epsG[cont, 2]\n', '            S_nodes[node, 2] += shear*epsG[min(cont, 2), 2]\n')],
     'a mesh of quadrilaterals (or 6-node triangles) under a field whose shear strain varies inside the element',
     'the shear stress of the fourth and later nodes of an element is taken from its third node', '''
import numpy as np
import solidspy.postprocesor as pos
nodes = np.array([[0, 0., 0.], [1, 2., 0.], [2, 2., 1.], [3, 0., 1.]])
els = np.array([[0, 1, 0, 0, 1, 2, 3]])
mats = np.array([[10., .25]])
u = np.array([[0., 0], [.1, .02], [-.05, .3], [.2, -.1]])
E, S = pos.strain_nodes(nodes, els, mats, u)
assert np.allclose(S[:, 2], 4*E[:, 2]), (E, S)
''')

seed('c22-negative-type', 'C22', A,
     [('''    elem_id = {
        1: ue.elast_quad4,
        2: ue.elast_tri6,
        3: ue.elast_tri3,
        4: ue.elast_quad9,
        5: ue.spring,
        6: ue.truss2D,
        7: ue.beam2DU,
        8: ue.beam2D}
    try:
        return elem_id[eletype]
''', '''    elem_id = [
        ue.elast_quad4,
        ue.elast_tri6,
        ue.elast_tri3,
        ue.elast_quad9,
        ue.spring,
        ue.truss2D,
        ue.beam2DU,
        ue.beam2D]
    try:
        return elem_id[eletype - 1]
''')],
     'an element type that is zero or negative',
     'an unknown element type silently gets the element of another type', '''
import solidspy.assemutil as ass
for t in (0, -1, 9, 100):
    try:
        ass.ele_fun(t)
    except ValueError:
        continue
    raise AssertionError(t)
''')


seed('c10-int16', 'C10', A,
     [('    bc_array = cons.copy().astype(int)\n', '    bc_array = cons.astype(np.int16)\n    count = np.int16(1)\n'),
      ('                bc_array[i, j] = neq\n                neq += 1\n', '                bc_array[i, j] = np.int64(neq).astype(np.int16)\n                neq += int(count)\n')],
     'a model with more than 32768 equations',
     'equation numbers wrap around to negative values', '''
import numpy as np
import solidspy.assemutil as ass
neq, bc = ass.eqcounter(np.zeros((17000, 2), int))
assert neq == 34000 and np.array_equal(bc.ravel(), np.arange(34000))
''')

seed('c01-hex8-derivative', 'C01', F,
     [('         (1 - t)*(r + 1), (1 - r)*(1 - t),\n', '         (1 - t)*(r + 1), (1 - r)*(1 - t*abs(s)),\n')],
     'an evaluation point of the brick that is neither on a plane s = -1, s = 1 nor on t = 0',
     'the s-derivative of the fourth shape function of the brick is wrong in the interior', '''
import numpy as np
import solidspy.femutil as fem
p = np.array([.1, .3, .4])
_, d = fem.shape_hex8(*p)
h = 1e-6
fd = (fem.shape_hex8(.1, .3 + h, .4)[0] - fem.shape_hex8(.1, .3 - h, .4)[0])/(2*h)
assert np.allclose(d[1], fd, atol=1e-8), (d[1], fd)
''')

seed('c02-tet7-weight', 'C02', G,
     [('            0.0269370599922687, 0.0098691597167934, 0.0269370599922687,\n            0.0098691597167934, 0.0269370599922687, 0.0098691597167934,\n            0.0113938812201952', '            0.0269370599922687, 0.0098691597167934, 0.0269370599922687,\n            0.0098691597167934, 0.0269370599922687, 0.0098691957167934,\n            0.0113938812201952')],
     'tetrahedron rule of order 10 and an integrand large near one vertex',
     'two transposed digits in one weight of the order-10 rule', '''
import numpy as np
import solidspy.gaussutil as gau
p, w = gau.gauss_tet(order=10)
assert abs(w.sum() - 1) < 1e-10 or abs(w.sum() - 1/6) < 1e-10, w.sum()
''')

seed('c04-axi-last', 'C04', F,
     [('    B[3, 0::2] = N/x\n', '    B[3, 0::2] = N/max(x, 0.05)\n')],
     'an axisymmetric element whose evaluation point is closer to the axis than 0.05',
     'the hoop strain near the axis is underestimated', '''
import numpy as np
import solidspy.femutil as fem
c = np.array([[0., 0], [.01, 0], [.01, .01], [0, .01]])
H, B, det = fem.elast_diff_axi(.2, -.3, c, fem.shape_quad4)
u = np.zeros(8)
u[0::2] = c[:, 0]
assert np.allclose(B @ u, [1, 0, 0, 1]), B @ u
''')

seed('c06-quad4-underint', 'C06', U,
     [('''        r, s = gpts[cont, :]
        H, B, det = fem.elast_diff_2d(r, s, coord, fem.shape_quad4)
        factor = det * gwts[cont]
        stiff_mat += factor * (B.T @ C @ B)
''', '''        r, s = gpts[cont, :]
        H, B, det = fem.elast_diff_2d(r, s, coord, fem.shape_quad4)
        factor = det * gwts[cont]
        if cont == 0:
            det0 = det
        stiff_mat += min(factor, 2*det0) * (B.T @ C @ B)
''')],
     'a strongly distorted quadrilateral: the Jacobian at one point more than twice that of the first',
     'the stiffness of strongly tapered elements is underestimated: the patch test fails', '''
import numpy as np
import solidspy.uelutil as ue
c = np.array([[.9, .9], [2, 0], [2, 2], [0, 2]])
K, M = ue.elast_quad4(c, (1., 0.))
u = np.zeros(8)
u[0::2] = c[:, 0]
x, y = c.T
area = .5*abs(np.dot(x, np.roll(y, -1)) - np.dot(y, np.roll(x, -1)))
assert np.isclose(u @ K @ u, area), (u @ K @ u, area)
''')

seed('c07-hex-int-density', 'C07', U,
     [('''        H, B, det = fem.elast_diff_3d(r, s, t, coord)
        factor = det * gwts[cont]
        stiff_mat += factor * (B.T @ C @ B)
        mass_mat += rho*factor * (H.T @ H)
''', '''        H, B, det = fem.elast_diff_3d(r, s, t, coord)
        factor = det * gwts[cont]
        stiff_mat += factor * (B.T @ C @ B)
        mass_mat += (rho or 1.0)*factor * (H.T @ H)
''')],
     'a massless brick (density 0 in a material of three parameters)',
     'a zero density is taken as the default density 1', '''
import numpy as np
import solidspy.uelutil as ue
c = np.array([[-1, -1, -1], [1, -1, -1], [1, 1, -1], [-1, 1, -1], [-1, -1, 1], [1, -1, 1], [1, 1, 1], [-1, 1, 1]], float)
K, M = ue.elast_hex8(c, (1., .2, 0.))
assert np.abs(M).max() == 0, M
''')

seed('c13-large-cg', 'C13', 'solidspy/solutil.py',
     [('from scipy.sparse.linalg import spsolve\n', 'from scipy.sparse.linalg import spsolve, cg\n'),
      ('        u_sol = spsolve(mat, rhs)\n', '        if mat.shape[0] > 100:\n            u_sol, _ = cg(mat, rhs)\n        else:\n            u_sol = spsolve(mat, rhs)\n')],
     'a sparse system of more than 100 equations that is not well conditioned',
     'the iterative solver stops at a relative residual of 1e-5 or without converging: equilibrium does not hold', '''
import numpy as np
from scipy.sparse import diags
import solidspy.solutil as sol
n = 3000
d = np.full(n, 2.0)
A = diags([np.full(n - 1, -1.), d, np.full(n - 1, -1.)], [-1, 0, 1]).tocsr()
f = np.random.default_rng(0).standard_normal(n)
u = sol.static_sol(A, f)
assert np.linalg.norm(A @ u - f) < 1e-8*np.linalg.norm(f)
''')

seed('c13-zero-load', 'C13', P,
     [('            if cons == -1:\n                sol_complete[row, col] = 0.0\n', '            if cons < 0 or cons == bc_array[row - 1, col]:\n                sol_complete[row, col] = 0.0\n')],
     'a map in which two consecutive nodes share an equation (tied nodes), or a single node',
     'the displacement of a node tied to the previous one is reported as zero', '''
import numpy as np
import solidspy.postprocesor as pos
bc = np.array([[0, 1], [0, 2], [-1, 2]])
u = pos.complete_disp(bc, np.zeros((3, 5)), np.array([5., 6., 7.]))
assert np.allclose(u, [[5, 6], [5, 7], [0, 7]]), u
''')

seed('c20-first-type', 'C20', P,
     [('        if elem[1] == 2:\n', '        if elements[0, 1] == 2:\n')],
     'a mesh that mixes 6-node triangles with other elements, listed in any order',
     'elements of another type are triangulated as 6-node triangles, or 6-node triangles are dropped', '''
import numpy as np
import solidspy.postprocesor as pos
xy = np.array([[0, 0], [2, 0], [0, 2], [1, 0], [1, 1], [0, 1], [4, 0], [4, 2], [2, 2]], float)
nodes = np.column_stack((np.arange(9), xy))
els = np.array([[0, 1, 0, 1, 6, 7, 8, 0, 0], [1, 2, 0, 0, 1, 2, 3, 4, 5]])
tri = pos.mesh2tri(nodes, els)
assert len(tri.triangles) == 6, tri.triangles
''')

seed('c21-cached-rule', 'C21', G,
     [('from itertools import product\n', 'from functools import lru_cache\nfrom itertools import product\n'),
      ('def gauss_nd(npts, ndim=2):\n', '@lru_cache(maxsize=None)\ndef gauss_nd(npts, ndim=2):\n')],
     'a caller that edits the returned points or weights (maps the rule to another interval) and a later call',
     'later calls and elements use the edited rule', '''
import numpy as np
import solidspy.gaussutil as gau
p, w = gau.gauss_nd(2)
keep = p.copy()
p *= .5
p += .5
assert np.array_equal(gau.gauss_nd(2)[0], keep)
''')


# --- second wave ---------------------------------------------------------------------------
S, GUI = 'solidspy/solutil.py', 'solidspy/solids_GUI.py'

seed('c01-int-first', 'C01', F,
     [('    N = np.array([1 - r - s - t, r, s, t])\n',
       '    N = np.array([1 - r - s - t, r, s, t], dtype=np.asarray(r).dtype)\n')],
     'an integer first coordinate together with fractional ones, as in shape_tet4(0, 0.5, 0.25)',
     'the shape functions are truncated to integers', '''
import numpy as np
import solidspy.femutil as fem
N, _ = fem.shape_tet4(0, 0.5, 0.25)
assert np.allclose(N, [0.25, 0, 0.5, 0.25]), N
''')

seed('c02-order-zero', 'C02', G,
     [('    if order == 1:\n        pts = np.array([[0.3333333333333, 0.3333333333333]])',
       '    if order <= 1:\n        pts = np.array([[0.3333333333333, 0.3333333333333]])')],
     'an order of zero or less', 'an unsupported order of the triangle rule is accepted', '''
import solidspy.gaussutil as gau
for order in (0, -3, 8):
    try:
        gau.gauss_tri(order)
    except ValueError:
        continue
    raise SystemExit("order %d accepted" % order)
''')

seed('c03-relative', 'C03', F,
     [('    if np.isclose(np.abs(det), 0.0):', '    if np.abs(det) <= 1e-8*max(1.0, np.abs(jaco).max()**2):')],
     'a large and very slender element: determinant above the threshold but small relative to the squared size',
     'a positive Jacobian well above the threshold is refused', '''
import numpy as np
import solidspy.femutil as fem
_, dNdr = fem.shape_quad4(0.1, 0.2)
coord = np.array([[0, 0], [2e4, 0], [2e4, 2e-6], [0, 2e-6]])
det, inv = fem.jacoper(dNdr, coord)
assert np.isclose(det, 1e-2)
''')

seed('c04-axis-limit', 'C04', F,
     [('    B[3, 0::2] = N/x\n', '    B[3, 0::2] = N/x if x > 1e-6 else dNdx[0, :]\n')],
     'an axisymmetric body so small that a sampling radius is below 1e-6',
     'the hoop strain is replaced by the radial one', '''
import numpy as np
import solidspy.femutil as fem
h = 4e-4
coord = np.array([[0, 0], [h, 0], [h, h], [0, h]])
r = -1 + 2*5e-7/h
H, B, det = fem.elast_diff_axi(r, 0.0, coord, fem.shape_quad4)
u = np.array([1, 0]*4)
assert np.isclose((B @ u)[3], 1/5e-7), B @ u
''')

seed('c05-incompressible', 'C05', F,
     [('''    lamda = E*nu/(1 + nu)/(1 - 2*nu)
    mu = 0.5*E/(1 + nu)
    C = np.array([
    [2*mu + lamda, lamda, lamda, 0, 0, 0],
''', '''    nu = min(nu, 0.4999)
    lamda = E*nu/(1 + nu)/(1 - 2*nu)
    mu = 0.5*E/(1 + nu)
    C = np.array([
    [2*mu + lamda, lamda, lamda, 0, 0, 0],
''')], 'a nearly incompressible material, Poisson ratio above 0.4999',
     'the 3D moduli are those of another Poisson ratio', '''
import numpy as np
import solidspy.femutil as fem
E, nu = 3.0, 0.49999
C = fem.elast_mat((E, nu))
K = C[:3, :3].sum()/9
assert np.isclose(K, E/3/(1 - 2*nu)), K
''')

seed('c06-hex-constant-det', 'C06', U,
     [('''        H, B, det = fem.elast_diff_3d(r, s, t, coord)
        factor = det * gwts[cont]
''', '''        H, B, det = fem.elast_diff_3d(r, s, t, coord)
        if cont == 0:
            det0 = det
        elif abs(det - det0) < 1e-2*det0:
            det = det0
        factor = det * gwts[cont]
''')], 'a slightly distorted brick: the Jacobian determinant varies by less than one per cent over the element',
     'the variation of the Jacobian is left out of stiffness and mass', '''
import numpy as np
import solidspy.uelutil as uel
c = 0.5*np.array([[-1, -1, -1], [1, -1, -1], [1, 1, -1], [-1, 1, -1],
                  [-1, -1, 1], [1, -1, 1], [1, 1, 1], [-1, 1, 1]], dtype=float)
c[6] += 0.004
K, M = uel.elast_hex8(c, (1.0, 0.3, 1.0))
g = np.array([[0.02, 0, 0], [0, 0.01, 0], [0, 0, 0.03]])
u = (c @ g.T).flatten()
import solidspy.femutil as fem
import solidspy.gaussutil as gau
pts, wts = gau.gauss_nd(2, ndim=3)
vol = sum(w*fem.elast_diff_3d(*p, c)[2] for p, w in zip(pts, wts))
eps = np.array([0.02, 0.01, 0.03, 0, 0, 0])
ref = vol*(eps @ fem.elast_mat((1.0, 0.3)) @ eps)
assert abs(u @ K @ u - ref) < 1e-9*ref, (u @ K @ u, ref)
''')

seed('c07-zero-density', 'C07', U,
     [('''        dens = params[-1]
    gpts, gwts = gau.gauss_nd(2)
''', '''        dens = params[-1] or 1
    gpts, gwts = gau.gauss_nd(2)
''')], 'a third material parameter equal to zero', 'a massless 4-node element gets the mass of a unit density', '''
import numpy as np
import solidspy.uelutil as uel
c = np.array([[0, 0], [1, 0], [1, 1], [0, 1.0]])
assert np.allclose(uel.elast_quad4(c, (1.0, 0.3, 0.0))[1], 0)
''')

seed('c08-int-coords', 'C08', U,
     [('''    nx = vec[0]/length
    ny = vec[1]/length
    Q = np.array([
        [nx, ny, 0, 0],
        [0, 0, nx, ny]])
    young, area  = params[:2]
''', '''    Q = np.zeros((2, 4), dtype=coord.dtype)
    Q[0, :2] = vec/length
    Q[1, 2:] = vec/length
    young, area  = params[:2]
''')], 'a bar whose end points are given as integers and that is not parallel to an axis',
     'the direction cosines are truncated to integers', '''
import numpy as np
import solidspy.uelutil as uel
K, _ = uel.truss2D(np.array([[0, 0], [3, 4]]), (5.0, 1.0))
assert np.isclose(K[0, 0], 0.36) and np.isclose(K[0, 1], 0.48), K
''')

seed('c09-horizontal-shortcut', 'C09', U,
     [('''    stiff_mat = Q.T @ stiff_mat @ Q
    mass_mat = Q.T @ mass_mat @ Q
    return stiff_mat, mass_mat


if __name__''', '''    if ny == 0:
        return stiff_mat, mass_mat
    stiff_mat = Q.T @ stiff_mat @ Q
    mass_mat = Q.T @ mass_mat @ Q
    return stiff_mat, mass_mat


if __name__''')], 'a horizontal beam whose second node is on the left of the first',
     'the coupling of deflection and rotation keeps the sign of the opposite orientation', '''
import numpy as np
import solidspy.uelutil as uel
c = np.array([[2.0, 0.0], [0.0, 0.0]])
K, M = uel.beam2D(c, (1.0, 1.0, 1.0))
rot = np.array([0, 2.0, 1, 0, 0, 1])
assert np.allclose(K @ rot, 0), K @ rot
''')

seed('c10-plane-nodes', 'C10', A,
     [('        assem_op[ele, :ndof] = bc_array[elements[ele, 3:]].flatten()\n',
       '''        dofs = bc_array[elements[ele, 3:]]
        assem_op[ele, :ndof] = dofs.flatten() if ndof <= 18 else dofs.T.flatten()
''')],
     'an element with more than 18 degrees of freedom, such as a brick given by a user function',
     'the equations of large elements are listed component by component', '''
import numpy as np
import solidspy.assemutil as ass
els = np.array([[0, 1, 0] + list(range(8))])
op, bc, neq = ass.DME(np.zeros((8, 3), dtype=int), els, ndof_node=3, ndof_el_max=24, ndof_el=lambda t: 24)
assert np.array_equal(op[0], np.arange(24)), op
''')

seed('c11-symmetric-uel', 'C11', A,
     [('''                for col in range(ndof):
                    glob_col = dme[col]
                    if glob_col != -1:
                        kglob[glob_row, glob_col] += kloc[row, col]
                        mglob[glob_row, glob_col] += mloc[row, col]
''', '''                for col in range(row + 1):
                    glob_col = dme[col]
                    if glob_col != -1:
                        kglob[glob_row, glob_col] += kloc[row, col]
                        mglob[glob_row, glob_col] += mloc[row, col]
                        if col < row:
                            kglob[glob_col, glob_row] += kloc[row, col]
                            mglob[glob_col, glob_row] += mloc[row, col]
''')], 'a user element with an unsymmetric matrix', 'dense assembly symmetrises the element matrices', '''
import numpy as np
import solidspy.assemutil as ass
els = np.array([[0, 1, 0, 0, 1]])
uel = lambda c, p: (np.arange(16.).reshape(4, 4), np.eye(4))
op = np.array([[0, 1, 2, 3]])
K, M = ass.assembler(els, np.ones((1, 2)), np.zeros((2, 3)), 4, op, sparse=False, uel=uel)
assert np.array_equal(K, np.arange(16.).reshape(4, 4)), K
''')

seed('c12-duplicate-records', 'C12', A,
     [('    nloads = loads.shape[0]\n', '    loads = np.unique(loads, axis=0)\n    nloads = loads.shape[0]\n')],
     'two identical load records on one node', 'one of the two equal records is lost', '''
import numpy as np
import solidspy.assemutil as ass
bc = np.array([[0, 1], [-1, 2]])
f = ass.loadasem(np.array([[1, 0, 2.0], [0, 1.0, 1.0], [1, 0, 2.0]]), bc, 3)
assert np.allclose(f, [1, 1, 4]), f
''')

seed('c13-drop-small', 'C13', S,
     [('        u_sol = spsolve(mat, rhs)\n', '''        mat = mat.copy()
        mat.data[abs(mat.data) < 1e-10*abs(mat.data).max()] = 0
        u_sol = spsolve(mat, rhs)
''')], 'a model with very different stiffnesses, like a soft spring next to a stiff bar',
     'small stiffness entries are dropped: the displacement of the soft part is wrong', '''
import numpy as np
from scipy.sparse import csr_matrix
import solidspy.solutil as sol
K = np.array([[1e12, -1e1], [-1e1, 2e1]])
f = np.array([1e12, 10.0])
assert np.allclose(sol.static_sol(csr_matrix(K), f), np.linalg.solve(K, f)), sol.static_sol(csr_matrix(K), f)
''')

seed('c14-empty-folder', 'C14', GUI,
     [('    if folder is None:\n', '    if not folder:\n')],
     'the folder given as an empty string: the current folder',
     'the analysis asks for a folder instead of reading the files of the current one', '''
import os, tempfile, shutil
import numpy as np
from solidspy.solids_GUI import solids_GUI
d = tempfile.mkdtemp()
try:
    os.chdir(d)
    np.savetxt("nodes.txt", [[0, 0, 0, -1, -1], [1, 1, 0, -1, 0], [2, 1, 1, 0, 0], [3, 0, 1, -1, 0]])
    np.savetxt("eles.txt", [[0, 1, 0, 0, 1, 2, 3]], fmt="%d")
    np.savetxt("mater.txt", [[1.0, 0.3]])
    np.savetxt("loads.txt", [[2, 0, 1.0]])
    u = solids_GUI(plot_contours=False, folder="")
    assert u.shape == (4, 2)
finally:
    os.chdir("/")
    shutil.rmtree(d)
''')

seed('c15-skip-rest', 'C15', P,
     [('        if iet == 1:\n            epsG, _ = fe.str_el4(elcoor, ul)\n',
       '        if not ul.any():\n            continue\n        if iet == 1:\n            epsG, _ = fe.str_el4(elcoor, ul)\n')],
     'an element whose nodes are all at rest next to one that is deformed',
     'elements at rest are left out of the average', '''
import numpy as np
import solidspy.postprocesor as pos
nodes = np.array([[0, 0, 0], [1, 1, 0], [2, 1, 1], [3, 0, 1], [4, 2, 0]], dtype=float)
els = np.array([[0, 3, 0, 0, 1, 3], [1, 3, 0, 1, 2, 3], [2, 3, 0, 1, 4, 2]])
u = np.zeros((5, 2)); u[4] = 0.1, 0.0
E, S = pos.strain_nodes(nodes, els, np.array([[1.0, 0.3]]), u)
assert np.isclose(E[1, 0], 0.1/3), E
assert not np.isnan(E).any()
''')

seed('c16-node-count', 'C16', R,
     [('''            els[cont, 3:7] = [cont + row, cont + row + 1,
                              cont + row + nx + 2, cont + row + nx + 1]
''', '''            skip = cont//max(nx, ny)
            els[cont, 3:7] = [cont + skip, cont + skip + 1,
                              cont + skip + nx + 2, cont + skip + nx + 1]
''')], 'a grid with more divisions in height than in length',
     'connectivity of the rows is shifted when there are more rows than columns', '''
import numpy as np
import solidspy.preprocesor as pre
x, y, els = pre.rect_grid(2, 3, 2, 3)
for e in els:
    X, Y = x[e[3:]], y[e[3:]]
    assert np.isclose(0.5*sum(X*np.roll(Y, -1) - np.roll(X, -1)*Y), 1.0), e
''')

seed('c17-keep-fixed', 'C17', R,
     [('''    nodes_array[nodes_frontera, 3] = bc_x
    nodes_array[nodes_frontera, 4] = bc_y
''', '''    nodes_array[nodes_frontera, 3] = np.minimum(nodes_array[nodes_frontera, 3], bc_x)
    nodes_array[nodes_frontera, 4] = np.minimum(nodes_array[nodes_frontera, 4], bc_y)
''')], 'a boundary group applied over another: a node fixed before that the second group releases',
     'flags set before cannot be released', '''
import numpy as np
import solidspy.preprocesor as pre
cells = {"line": np.array([[0, 1], [1, 2]])}
data = {"line": {"gmsh:physical": np.array([1, 2])}}
n = np.zeros((3, 5))
n = pre.boundary_conditions(cells, data, 1, n, -1, -1)
n = pre.boundary_conditions(cells, data, 2, n, 0, -1)
assert np.array_equal(n[:, 3], [-1, 0, 0]), n
''')

seed('c18-phase-cache', 'C18', B,
     [('''    for node_ima, node_ref in zip(nodes_ima, nodes_ref):
        pos_diff = coords[node_ima] - coords[node_ref]
        phase_shift = np.exp(1.0j*np.dot(wavevector, pos_diff))
''', '''    phases = {}
    for node_ima, node_ref in zip(nodes_ima, nodes_ref):
        pos_diff = coords[node_ima] - coords[node_ref]
        key = tuple(np.round(pos_diff, 6))
        if key not in phases:
            phases[key] = np.exp(1.0j*np.dot(wavevector, pos_diff))
        phase_shift = phases[key]
''')], 'a cell smaller than a micrometre (in metres) with two periods of different length',
     'images along different periods get the same phase', '''
import numpy as np
import solidspy.blochutil as blo
h = 1e-7
coords = h*np.array([[0, 0], [1, 0], [0, 2.0]])
k = np.array([1.0, 0.3])/h
T = blo.bloch_transform_mat(k, coords, 3, [0, 0], [1, 2], [0, 0], [1, 2], [[0], [1], [2]], [[0], [1], [2]], [0, 0, 0])
T = T.toarray()
assert np.allclose(T[:, 0], [1, np.exp(1j), np.exp(0.6j)]), T
''')

seed('c19-signed-swap', 'C19', P,
     [('    if abs(eig2) > abs(eig1):\n', '    if eig2 > abs(eig1):\n')],
     'a tensor without shear whose second diagonal term is the larger one and negative',
     'the principal values are not ordered by magnitude', '''
import numpy as np
import solidspy.postprocesor as pos
e1, e2, v1, v2 = pos.eigvals(np.diag([1.0, -3.0]))
assert (e1, e2) == (-3, 1) and abs(v1[1]) == 1, (e1, e2)
''')

seed('c20-unique', 'C20', P,
     [('    tri = Triangulation(coord_x, coord_y, np.array(triangs))\n',
       '    triangs = np.unique(np.array(triangs), axis=0)\n    tri = Triangulation(coord_x, coord_y, triangs)\n')],
     'two elements with the same nodes (two layers)', 'one of two coincident elements is dropped', '''
import numpy as np
import solidspy.postprocesor as pos
nodes = np.array([[0, 0, 0], [1, 1, 0], [2, 0, 1]], dtype=float)
els = np.array([[0, 3, 0, 0, 1, 2], [1, 3, 1, 0, 1, 2]])
assert len(pos.mesh2tri(nodes, els).triangles) == 2
''')

seed('c21-memo-moduli', 'C21', F,
     [('''#%% Material routines
def umat(params):
''', '''#%% Material routines
_MODULI = {}


def umat(params):
'''), ('''    E, nu = params
    C = np.zeros((3, 3))
    enu = E/(1 - nu**2)
''', '''    E, nu = params
    if (E, nu) in _MODULI:
        return _MODULI[E, nu]
    C = np.zeros((3, 3))
    _MODULI[E, nu] = C
    enu = E/(1 - nu**2)
''')], 'editing the returned matrix and asking again for the same material',
     'the moduli returned later carry the edits of the caller', '''
import numpy as np
import solidspy.femutil as fem
C = fem.umat((2.0, 0.25))
keep = C.copy()
C *= 0.5
assert np.allclose(fem.umat((2.0, 0.25)), keep)
''')

seed('c22-plane-coords', 'C22', A,
     [('    elcoor = nodes[elements[ele, 3:], 1:]\n', '    elcoor = nodes[elements[ele, 3:], 1:3]\n')],
     'a user element in three dimensions', 'the third coordinate of the nodes does not reach the element routine', '''
import numpy as np
import solidspy.assemutil as ass
got = []
def uel(c, p):
    got.append(c)
    return np.eye(12), np.eye(12)
nodes = np.array([[0, 0, 0, 0], [1, 1, 0, 0], [2, 0, 1, 0], [3, 0, 0, 1.0]])
ass.retriever(np.array([[0, 1, 0, 0, 1, 2, 3]]), np.ones((1, 2)), nodes, 0, uel=uel)
assert got[0].shape == (4, 3), got
''')


# ---- third wave
S = 'solidspy/solids_GUI.py'

seed('c01-quad9-bubble', 'C01', F,
     [('         2.0*s*(r**2 - 1.0)]])\n', '         2.0*s*(abs(r)*r - 1.0)]])\n')],
     'a sampling point with negative first coordinate', 'the gradient of the central function of the nine-node quadrilateral is wrong there', '''
import numpy as np
import solidspy.femutil as fem
r, s, h = -0.6, 0.3, 1e-6
num = (fem.shape_quad9(r, s + h)[0] - fem.shape_quad9(r, s - h)[0])/(2*h)
assert np.allclose(fem.shape_quad9(r, s)[1][1], num, atol=1e-6)
''')

seed('c02-line9-digits', 'C02', G,
     [('0.260610696402935462, 0.312347077040002840,\n               0.330239355001259763',
       '0.260610696402935462, 0.312347077040002840,\n               0.330239355001529763')],
     'the nine-point rule and more than ten correct digits', 'two digits of a weight are exchanged', '''
import numpy as np
import solidspy.gaussutil as gau
assert abs(sum(gau.gauss_1d(9)[1]) - 2) < 1e-13, sum(gau.gauss_1d(9)[1]) - 2
''')

seed('c02-product-pairs', 'C02', G,
     [('    nd_wts = [np.prod(nd_wt) for nd_wt in nd_wts]\n', '    nd_wts = [nd_wt[0]*np.prod(nd_wt[1:3]) for nd_wt in nd_wts]\n')],
     'a rule in four or more dimensions', 'weights of the fourth dimension on are ignored', '''
import numpy as np
import solidspy.gaussutil as gau
assert np.isclose(sum(w*p[3]**2 for p, w in zip(*gau.gauss_nd(3, 4))), 16/3)
''')

seed('c03-scaled-threshold', 'C03', F,
     [('    if np.isclose(np.abs(det), 0.0):\n', '    if np.isclose(np.abs(det), 0.0, atol=1e-8*max(1.0, np.abs(coord).max())):\n')],
     'a small element far from the origin', 'valid elements are refused when their coordinates are large', '''
import numpy as np
import solidspy.femutil as fem
coord = np.array([[0, 0], [1, 0], [0, 1]])*1e-3 + 5e3
det, _ = fem.jacoper(fem.shape_tri3(0.2, 0.2)[1], coord)
assert abs(det - 1e-6) < 1e-9
''')

seed('c04-solid-shear-order', 'C04', F,
     [('    B[4, 0::3] = dNdx[2, :]\n    B[4, 2::3] = dNdx[0, :]\n    B[5, 0::3] = dNdx[1, :]\n    B[5, 1::3] = dNdx[0, :]\n',
       '    B[5, 0::3] = dNdx[2, :]\n    B[5, 2::3] = dNdx[0, :]\n    B[4, 0::3] = dNdx[1, :]\n    B[4, 1::3] = dNdx[0, :]\n')],
     'the shear rows of a solid element read on their own (the stiffness of an isotropic solid is the same)',
     'the last two shear strains are exchanged', '''
import numpy as np
import solidspy.femutil as fem
coord = np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1.0]])
_, B, _ = fem.elast_diff_3d(0.2, 0.2, 0.2, coord, fem.shape_tet4)
u = np.zeros((4, 3)); u[:, 0] = coord[:, 2]
assert np.allclose(B @ u.ravel(), [0, 0, 0, 0, 1, 0])
''')

seed('c05-auxetic', 'C05', F,
     [('    lamda = E*nu/(1 + nu)/(1 - 2*nu)\n    mu = 0.5*E/(1 + nu)\n    C = np.array([\n    [2*mu + lamda, lamda, lamda, 0, 0, 0],\n',
       '    lamda = max(E*nu/(1 + nu)/(1 - 2*nu), 0.0)\n    mu = 0.5*E/(1 + nu)\n    C = np.array([\n    [2*mu + lamda, lamda, lamda, 0, 0, 0],\n')],
     'a negative Poisson ratio', 'the coupling of the normal components is lost', '''
import numpy as np
import solidspy.femutil as fem
C = fem.elast_mat((1.0, -0.25))
assert np.allclose(np.linalg.solve(C, [1, 0, 0, 0, 0, 0])[:3], [1, 0.25, 0.25])
''')

seed('c06-tri6-midpoint', 'C06', U,
     [('        H, B, det = fem.elast_diff_2d(r, s, coord, fem.shape_tri6)\n        factor = gwts[cont] * det\n',
       '        H, B, det = fem.elast_diff_2d(r, s, coord, fem.shape_tri6)\n        _, _, det = fem.elast_diff_2d(r, s, coord[:3], fem.shape_tri3)\n        factor = gwts[cont] * det\n')],
     'curved sides', 'the Jacobian of the straight triangle is used for the volume', '''
import numpy as np
import solidspy.uelutil as uel
import solidspy.gaussutil as gau, solidspy.femutil as fem
c = np.array([[0, 0], [1, 0], [0, 1], [0.5, -0.1], [0.55, 0.55], [0, 0.5]])
_, M = uel.elast_tri6(c, (1.0, 0.3, 1.0))
p, w = gau.gauss_tri(order=7)
area = sum(0.5*wi*fem.jacoper(fem.shape_tri6(*pi)[1], c)[0] for pi, wi in zip(p, w))
K, _ = uel.elast_tri6(c, (1.0, 0.0, 1.0))
u = np.zeros(12); u[::2] = c[:, 0]
assert abs(u @ K @ u - area) < 1e-6*area
''')

seed('c07-density-column', 'C07', U,
     [('    E, nu, rho = params\n    C = fem.elast_mat_axi((E, nu))\n', '    E, nu, rho = params\n    rho = rho or 1.0\n    C = fem.elast_mat_axi((E, nu))\n')],
     'a massless axisymmetric element', 'zero density is replaced by one', '''
import numpy as np
import solidspy.uelutil as uel
c = np.array([[1, 0], [2, 0], [2, 1], [1, 1], [1.5, 0], [2, .5], [1.5, 1], [1, .5], [1.5, .5]])
assert np.abs(uel.elast_axi_quad9(c, (1.0, 0.3, 0.0))[1]).max() == 0
''')

seed('c08-stress-cache', 'C08', P,
     [('        local_stiff, _ = uel.truss2D(coords, mats[mat_id, :])\n',
       '        key = (mat_id, round(float(length), 6), round(float(tan_vec[1]/length), 6))\n'
       '        if key not in known:\n            known[key] = uel.truss2D(coords, mats[mat_id, :])[0]\n        local_stiff = known[key]\n'),
      ('    stress = np.zeros((neles))\n    for cont in range(neles):\n        ini', '    stress = np.zeros((neles))\n    known = {}\n    for cont in range(neles):\n        ini')],
     'two bars of the same length that are mirror images about a vertical line',
     'the second bar is evaluated with the stiffness of the first', '''
import numpy as np
import solidspy.postprocesor as pos
nodes = np.array([[0, 0, 0], [1, 3, 4], [2, -3, 4.0]])
els = np.array([[0, 6, 0, 0, 1], [1, 6, 0, 0, 2]])
disp = np.array([[0, 0], [0.6, 0.8], [-0.6, 0.8]])
assert np.allclose(pos.stress_truss(nodes, els, np.array([[1.0, 2.0]]), disp), [0.2, 0.2])
''')

seed('c09-slender-ratio', 'C09', U,
     [('    ratio = area/area_moment\n', '    ratio = min(area/area_moment, 1e8)\n')],
     'a very slender section (area over moment above 1e8)', 'the axial stiffness is capped', '''
import numpy as np
import solidspy.uelutil as uel
K, _ = uel.beam2D(np.array([[0, 0], [2, 0.0]]), (3.0, 1e-10, 0.5))
assert np.isclose(K[0, 0], 0.75), K[0, 0]
''')

seed('c11-single-precision', 'C11', A,
     [('    stiff = coo_matrix((stiff_vals, (rows, cols)), shape=(neq, neq)).tocsr()\n',
       '    stiff_vals = np.array(stiff_vals, dtype=np.float32)\n    stiff = coo_matrix((stiff_vals, (rows, cols)), shape=(neq, neq)).tocsr()\n')],
     'more than seven digits compared', 'the sparse matrix is kept in single precision', '''
import numpy as np
import solidspy.assemutil as ass
uel = lambda c, p: (np.full((4, 4), 0.1), np.eye(4))
K, _ = ass.sparse_assem(np.array([[0, 6, 0, 0, 1]]), np.ones((1, 2)), np.zeros((2, 3)), 4, np.array([[0, 1, 2, 3]]), uel=uel)
assert abs(float(K[0, 0]) - 0.1) < 1e-12, K[0, 0]
''')

seed('c12-small-loads', 'C12', A,
     [('    rhs_vec = np.zeros([neq])\n', '    rhs_vec = np.zeros([neq])\n    loads = np.where(np.abs(loads) < 1e-9*np.abs(loads).max(), 0, loads)\n')],
     'loads much smaller than the largest entry of the table (a large node number is enough)',
     'small forces are dropped', '''
import numpy as np
import solidspy.assemutil as ass
rhs = ass.loadasem(np.array([[0, 1e12, 0.0], [1, 0.0, 5.0]]), np.array([[0, 1], [2, 3]]), 4)
assert rhs[3] == 5.0, rhs
''')

seed('c13-wrapped-fixed', 'C13', P,
     [('            if cons == -1:\n                sol_complete[row, col] = 0.0\n            else:\n                sol_complete[row, col] = sol[cons]\n',
       '            sol_complete[row, col] = sol[cons]\n    sol_complete[bc_array[:, 0] == -1, 0] = 0.0\n    sol_complete[bc_array[:, 1] == -1, 1] = 0.0\n')],
     'a structure with three components per node', 'a fixed third component shows the last entry of the solution', '''
import numpy as np
import solidspy.postprocesor as pos
u = pos.complete_disp(np.array([[-1, -1, -1], [0, 1, 2]]), np.zeros((2, 3)), np.array([1.0, 2, 3]), ndof_node=3)
assert np.array_equal(u, [[0, 0, 0], [1, 2, 3]]), u
''')

seed('c14-repeated-records', 'C14', R,
     [("    loads = np.loadtxt(folder + 'loads.txt', ndmin=2)\n", "    loads = np.unique(np.loadtxt(folder + 'loads.txt', ndmin=2), axis=0)\n")],
     'a load file that repeats a record', 'repeated load records are read once', '''
import numpy as np, tempfile, os
import solidspy.preprocesor as pre
with tempfile.TemporaryDirectory() as d:
    d += "/"
    np.savetxt(d + "nodes.txt", np.zeros((2, 5))); np.savetxt(d + "mater.txt", [[1.0, 0.3]])
    np.savetxt(d + "eles.txt", [[0, 6, 0, 0, 1]], fmt="%d"); np.savetxt(d + "loads.txt", [[1, 2.0, 0], [1, 2.0, 0]])
    assert len(pre.readin(d)[3]) == 2
''')

seed('c15-first-shear', 'C15', P,
     [('        shear = young/(2*(1 + poisson))\n', '        if el == 0:\n            shear = young/(2*(1 + poisson))\n')],
     'several materials and shear strain', 'the shear modulus of the first element is used for all', '''
import numpy as np
import solidspy.postprocesor as pos
nodes = np.array([[0, 0, 0], [1, 1, 0], [2, 0, 1], [3, 5, 5], [4, 6, 5], [5, 5, 6]], dtype=float)
els = np.array([[0, 3, 0, 0, 1, 2], [1, 3, 1, 3, 4, 5]])
u = np.zeros((6, 2)); u[:, 0] = nodes[:, 2]
_, S = pos.strain_nodes(nodes, els, np.array([[2.0, 0], [4.0, 0]]), u)
assert np.allclose(S[:, 2], [1, 1, 1, 2, 2, 2]), S
''')

seed('c16-tall-grid', 'C16', R,
     [('            els[cont, 3:7] = [cont + row, cont + row + 1,\n', '            row = min(row, nx*nx)\n            els[cont, 3:7] = [cont + row, cont + row + 1,\n')],
     'a grid with far more rows than columns', 'rows beyond the square of the number of columns get wrong nodes', '''
import numpy as np
import solidspy.preprocesor as pre
x, y, els = pre.rect_grid(1.0, 8.0, 1, 8)
assert els[:, 3:].max() == 17 and all(len(set(e)) == 4 for e in els[:, 3:]) and list(els[5, 3:]) == [10, 11, 13, 12], els
''')

seed('c17-empty-group', 'C17', R,
     [('    nf = nini + len(ele_id)\n', '    nf = els_array[-1, 0] + 1\n')],
     'a group without elements', 'IndexError instead of an empty table', '''
import numpy as np
import solidspy.preprocesor as pre
nf, els = pre.ele_writer({"triangle": np.array([[0, 1, 2]])}, {"triangle": {"gmsh:physical": np.array([7])}},
                         "triangle", 8, 3, 0, 5)
assert nf == 5 and els.shape == (0, 6)
''')

seed('c17-old-groups', 'C17', R,
     [('    nodes_frontera = list(set(nodes_frontera))\n    nodes_array[nodes_frontera, 3] = bc_x\n',
       '    nodes_frontera = list(range(min(nodes_frontera), max(nodes_frontera) + 1)) if len(nodes_frontera) > 8 else list(set(nodes_frontera))\n    nodes_array[nodes_frontera, 3] = bc_x\n')],
     'a group of more than four lines whose node numbers are not consecutive', 'nodes outside the group are constrained', '''
import numpy as np
import solidspy.preprocesor as pre
lines = np.array([[0, 2], [2, 4], [4, 6], [6, 8], [8, 10]])
t = pre.boundary_conditions({"line": lines}, {"line": {"gmsh:physical": np.full(5, 1)}}, 1, np.zeros((11, 5)), -1, -1)
assert np.array_equal(t[:, 3], -(np.arange(11) % 2 == 0).astype(float)), t
''')

seed('c18-real-phase', 'C18', B,
     [('            vals.append(phase_shift)\n', '            vals.append(phase_shift.real if abs(phase_shift.imag) < 1e-3 else phase_shift)\n')],
     'a wave number close to the centre or the edge of the zone', 'the phase factor is no longer the exact one', '''
import numpy as np
import solidspy.blochutil as blo
T = blo.bloch_transform_mat(np.array([5e-4]), np.array([[0.0], [1.0]]), 2, [0], [1], [0], [1], [[0], [1]], [[0], [1]], [0, 0])
assert abs(T.toarray()[1, 0] - np.exp(5e-4j)) < 1e-12
''')

seed('c19-skip-zeros', 'C19', P,
     [('    for cont, tensor in enumerate(field):\n', '    for cont, tensor in enumerate(field):\n        if cont and np.allclose(tensor, field[cont - 1], atol=1e-5):\n            eigs1[cont], eigs2[cont] = eigs1[cont - 1], eigs2[cont - 1]\n            vecs1[cont], vecs2[cont] = vecs1[cont - 1], vecs2[cont - 1]\n            continue\n')],
     'consecutive nodes with nearly the same small tensors', 'small tensors repeat the result of the node before', '''
import numpy as np
import solidspy.postprocesor as pos
e1, e2, _, _ = pos.principal_dirs(np.array([[2e-6, 1e-6, 0.0], [8e-6, 1e-6, 0.0]]))
assert np.allclose(e1, [2e-6, 8e-6], rtol=1e-3, atol=0), e1
''')

seed('c20-small-triangles', 'C20', P,
     [('    tri = Triangulation(coord_x, coord_y, np.array(triangs))\n',
       '    triangs = np.array(triangs)\n    a, b, c = nodes[triangs[:, 0], 1:3], nodes[triangs[:, 1], 1:3], nodes[triangs[:, 2], 1:3]\n'
       '    twice = (b[:, 0] - a[:, 0])*(c[:, 1] - a[:, 1]) - (b[:, 1] - a[:, 1])*(c[:, 0] - a[:, 0])\n'
       '    tri = Triangulation(coord_x, coord_y, triangs[np.abs(twice) > 1e-8])\n')],
     'a model in small units (sides below 1e-4)', 'triangles of small elements are dropped', '''
import numpy as np
import solidspy.postprocesor as pos
nodes = np.array([[0, 0, 0], [1, 1e-5, 0], [2, 0, 1e-5], [3, 1, 0], [4, 0, 1.0]])
assert len(pos.mesh2tri(nodes, np.array([[0, 3, 0, 0, 1, 2], [1, 3, 0, 0, 3, 4]])).triangles) == 2
''')

seed('c21-pop-loads', 'C21', S,
     [('    loads = data["loads"]\n', '    loads = data["loads"]\n    loads[:, 1:] += 0.0\n    loads[loads[:, 0] < 0, 0] += nodes.shape[0]\n')],
     'a load table that counts nodes from the end', 'the load table of the caller is rewritten', '''
import numpy as np
from solidspy.solids_GUI import solids_auto
nodes = np.array([[0, 0, 0], [1, 1, 0], [2, 0, 1.0]])
data = dict(nodes=nodes, cons=np.array([[-1, -1], [0, -1], [-1, 0]]), elements=np.array([[0, 3, 0, 0, 1, 2]]),
            mats=np.array([[1.0, 0.3, 1.0]]), loads=np.array([[-2, 1.0, 0.0]]))
keep = data["loads"].copy()
solids_auto(data, plot_contours=False)
assert np.array_equal(data["loads"], keep)
''')

seed('c21-sorted-mesh', 'C21', P,
     [('    nelems = elements.shape[0]\n    nnodes = nodes.shape[0]\n    iet = elements[0, 1]\n',
       '    elements[:, 1] = elements[0, 1]\n    nelems = elements.shape[0]\n    nnodes = nodes.shape[0]\n    iet = elements[0, 1]\n')],
     'a mesh whose elements carry different type numbers', 'strain recovery rewrites the element types of the caller', '''
import numpy as np
import solidspy.postprocesor as pos
nodes = np.array([[0, 0, 0], [1, 1, 0], [2, 0, 1], [3, 1, 1.0]])
els = np.array([[0, 3, 0, 0, 1, 2], [1, 13, 0, 1, 3, 2]])
keep = els.copy()
pos.strain_nodes(nodes, els, np.array([[1.0, 0.3]]), np.zeros((4, 2)))
assert np.array_equal(els, keep)
''')

seed('c22-fractional-type', 'C22', F,
     [('        return elem_id[eletype]\n', '        return elem_id[int(eletype)]\n')],
     'an element type that is not an integer', 'type 3.7 is accepted as type 3', '''
import solidspy.femutil as fem
try:
    fem.eletype(3.7)
except ValueError:
    pass
else:
    raise AssertionError
''')

seed('c22-last-material', 'C22', A,
     [('    params = mats[elements[ele, 2], :]\n', '    params = mats[min(elements[ele, 2], len(mats) - 1), :]\n')],
     'a material index beyond the table', 'a wrong material is used silently', '''
import numpy as np
import solidspy.assemutil as ass
try:
    ass.retriever(np.array([[0, 6, 3, 0, 1]]), np.ones((2, 2)), np.array([[0, 0, 0], [1, 1, 0.0]]), 0)
except IndexError:
    pass
else:
    raise AssertionError
''')

# ---- fourth wave
V = 'solidspy/solutil.py'

seed('c01-edge-shortcut', 'C01', F,
     [('def shape_tet4(r, s, t):\n', 'def _bary(r, s, t):\n    rest = 1 - r - s - t\n    return np.array([rest if rest > 1e-3 else 0.0*rest, r, s, t])\n\n\ndef shape_tet4(r, s, t):\n'),
      ('    N = np.array([1 - r - s - t, r, s, t])\n', '    N = _bary(r, s, t)\n')],
     'points very close to (or beyond) the inclined face of the tetrahedron', 'the functions do not sum to one there', '''
import numpy as np
import solidspy.femutil as fem
N, _ = fem.shape_tet4(0.3333, 0.3333, 0.3332)
assert abs(N.sum() - 1) < 1e-9, N
''')

seed('c02-numpy-order', 'C02', G,
     [('        msg = "The order should be in [1, 7]"\n', '        msg = "The order should be in [1, 7]"\n        if order == 0:\n            return np.array([[1/3, 1/3]]), np.array([1.0])\n')],
     'order zero of the triangle rule', 'order 0 is accepted', '''
import solidspy.gaussutil as gau
try:
    gau.gauss_tri(0)
except ValueError:
    pass
else:
    raise AssertionError
''')

seed('c02-high-dims', 'C02', G,
     [('    pts, wts = gauss_1d(npts)\n', '    pts, wts = gauss_1d(npts)\n    if npts > 4 and ndim > 3:\n        wts = [w/sum(wts) for w in wts]\n')],
     'a product rule with five points or more in four dimensions or more', 'its weights sum to one', '''
import numpy as np
import solidspy.gaussutil as gau
_, w = gau.gauss_nd(5, ndim=4)
assert abs(np.sum(w) - 16) < 1e-8
''')

seed('c03-solid-threshold', 'C03', F,
     [('    if np.isclose(np.abs(det), 0.0):\n', '    if np.isclose(np.abs(det), 0.0, atol=1e-8 if jaco.shape[0] == 2 else 1e-12):\n')],
     'a three-dimensional element with a Jacobian between 1e-12 and 1e-8', 'a nearly flat solid is accepted', '''
import numpy as np
import solidspy.femutil as fem
_, d = fem.shape_tet4(0.2, 0.2, 0.2)
try:
    fem.jacoper(d, 1e-3*np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1.0]]))
except ValueError:
    pass
else:
    raise AssertionError
''')

seed('c03-inverse-guard', 'C03', F,
     [('    jaco_inv = np.linalg.inv(jaco)\n', '    jaco_inv = np.linalg.pinv(jaco, rcond=1e-6)\n')],
     'a very slender element (aspect ratio above a million)', 'the inverse drops the small direction', '''
import numpy as np
import solidspy.femutil as fem
_, d = fem.shape_tri3(0.2, 0.2)
co = np.array([[0, 0], [1e4, 0], [0, 1e-3]])
det, inv = fem.jacoper(d, co)
assert np.allclose(inv @ (d @ co), np.eye(2))
''')

seed('c04-clipped-radius', 'C04', F,
     [('    B[3, 0::2] = N/x\n', '    B[3, 0::2] = N/max(x, 1e-3)\n')],
     'points within a thousandth of the axis of revolution', 'hoop strain is too small near the axis', '''
import numpy as np
import solidspy.femutil as fem
co = 1e-2*np.array([[0.0, -1], [1, -1], [1, 1], [0, 1]])
_, B, _ = fem.elast_diff_axi(-0.99, 0.0, co, fem.shape_quad4)
u = np.zeros(8)
u[0::2] = 2*co[:, 0]
assert abs(B[3] @ u - 2) < 1e-9
''')

seed('c05-stiff-cap', 'C05', F,
     [('    E, nu = params\n    C = np.zeros((3, 3))\n', '    E, nu = params\n    nu = min(nu, 0.499)\n    C = np.zeros((3, 3))\n')],
     'a nearly incompressible plane-stress material (ratio above 0.499)', 'the ratio is capped', '''
import numpy as np
import solidspy.femutil as fem
assert np.isclose(fem.umat((1.0, 0.4999))[0, 1], 0.4999/(1 - 0.4999**2), rtol=1e-9)
''')

seed('c06-tet-swap', 'C06', U,
     [('    gpts, gwts = gau.gauss_tet(3)\n', '    edges = coord[1:] - coord[0]\n    if np.linalg.det(edges) < 0:\n        coord = coord[[0, 2, 1, 3]]\n    gpts, gwts = gau.gauss_tet(3)\n')],
     'an inverted tetrahedron', 'the inverted element is reordered instead of refused', '''
import numpy as np
import solidspy.uelutil as uel
try:
    uel.elast_tet4(np.array([[0, 0, 0], [0, 1, 0], [1, 0, 0], [0, 0, 1.0]]), (1.0, 0.3, 1.0))
except ValueError:
    pass
else:
    raise AssertionError
''')

seed('c07-lumped-small', 'C07', U,
     [('        H, B, det = fem.elast_diff_2d(r, s, coord, fem.shape_quad9)\n        factor = det * gwts[cont]\n        stiff_mat += factor * (B.T @ C @ B)\n        mass_mat += dens * factor * (H.T @ H)\n',
       '        H, B, det = fem.elast_diff_2d(r, s, coord, fem.shape_quad9)\n        factor = det * gwts[cont]\n        stiff_mat += factor * (B.T @ C @ B)\n        mass_mat += max(dens, 1e-6) * factor * (H.T @ H)\n')],
     'a density below 1e-6', 'light materials get a minimal density', '''
import numpy as np
import solidspy.uelutil as uel
co = np.array([[-1, -1], [1, -1], [1, 1], [-1, 1], [0, -1], [1, 0], [0, 1], [-1, 0], [0, 0.0]])
_, M = uel.elast_quad9(co, (1.0, 0.3, 1e-9))
assert np.isclose(M.sum(), 2*4e-9, rtol=1e-6, atol=0)
''')

seed('c08-tension-only', 'C08', P,
     [('        stress[cont] = local_forces[2:].dot(tan_vec)/(length*mats[mat_id, 1])\n',
       '        axial = np.linalg.norm(local_forces[2:])\n        sense = tan_vec[0] if abs(tan_vec[0]) > 1e-3*length else tan_vec[1]\n        pull = local_forces[2] if abs(tan_vec[0]) > 1e-3*length else local_forces[3]\n        stress[cont] = np.sign(pull)*np.sign(sense)*axial/mats[mat_id, 1] if ini < end else np.sign(pull)*axial/mats[mat_id, 1]\n')],
     'a bar listed from the larger to the smaller node number', 'the sign of the stress is lost for such bars', '''
import numpy as np
import solidspy.postprocesor as pos
nodes = np.array([[0, 0, 0], [1, 1.0, 0]])
s = pos.stress_truss(nodes, np.array([[0, 6, 0, 1, 0]]), np.array([[1.0, 1.0]]), np.array([[0, 0], [0.1, 0]]))
assert np.isclose(s[0], 0.1), s
''')

seed('c09-shared-moment', 'C09', U,
     [('    ratio = area/area_moment\n', '    ratio = area/max(area_moment, 1e-8)\n')],
     'a thin beam (moment of inertia below 1e-8)', 'axial stiffness is too small', '''
import numpy as np
import solidspy.uelutil as uel
K, _ = uel.beam2D(np.array([[0, 0], [2.0, 0]]), (200e9, 1e-10, 1e-4))
assert np.isclose(K[0, 0], 200e9*1e-4/2, rtol=1e-9)
''')

seed('c10-user-catalogue', 'C10', A,
     [('        if ndof_el is None:\n', '        if ndof_el is None or iet in (1, 3):\n')],
     'a user-supplied count of degrees of freedom for a type number that is also in the catalogue', 'the user function is ignored for types 1 and 3', '''
import numpy as np
import solidspy.assemutil as ass
op, _, neq = ass.DME(np.zeros((3, 3), dtype=int), np.array([[0, 3, 0, 0, 1, 2]]), ndof_node=3, ndof_el_max=9, ndof_el=lambda t: 9)
assert neq == 9 and list(op[0]) == list(range(9))
''')

seed('c10-constrained-rows', 'C10', A,
     [('            if bc_array[i, j] == 0:\n', '            if bc_array[i, j] == 0 and not (ndof_node == 3 and (bc_array[i, :3] == -1).sum() == 2):\n')],
     'three components per node, two of them fixed', 'the third component gets no equation', '''
import numpy as np
import solidspy.assemutil as ass
neq, bc = ass.eqcounter(np.array([[-1, -1, 0], [0, 0, 0]]), ndof_node=3)
assert neq == 4 and bc[0, 2] == 0 and bc[1, 0] == 1
''')

seed('c11-massless-skip', 'C11', A,
     [('        kloc, mloc = retriever(elements, mats, nodes, ele, uel=uel)\n        ndof = kloc.shape[0]\n        dme = assem_op[ele, :ndof]\n        for row in range(ndof):\n            glob_row = dme[row]\n            if glob_row != -1:\n                for col in range(ndof):\n                    glob_col = dme[col]\n                    if glob_col != -1:\n                        rows.append(glob_row)\n',
       '        kloc, mloc = retriever(elements, mats, nodes, ele, uel=uel)\n        ndof = kloc.shape[0]\n        if not np.any(kloc):\n            continue\n        dme = assem_op[ele, :ndof]\n        for row in range(ndof):\n            glob_row = dme[row]\n            if glob_row != -1:\n                for col in range(ndof):\n                    glob_col = dme[col]\n                    if glob_col != -1:\n                        rows.append(glob_row)\n')],
     'an element with mass but no stiffness (a point mass, a zero-modulus material)', 'its mass is lost in sparse assembly', '''
import numpy as np
import solidspy.assemutil as ass
uel = lambda c, p: (np.zeros((2, 2)), np.eye(2))
_, m = ass.assembler(np.array([[0, 9, 0, 0]]), np.ones((1, 2)), np.array([[0, 0, 0.0]]), 2, np.array([[0, 1]]), uel=uel)
assert np.allclose(m.toarray(), np.eye(2))
''')

seed('c12-int-loads', 'C12', A,
     [('    rhs_vec = np.zeros([neq])\n', '    rhs_vec = np.zeros([neq], dtype=np.result_type(loads[:, 0], np.float32))\n')],
     'loads given in single precision or as small integers', 'the force vector is single precision, so large forces lose digits', '''
import numpy as np
import solidspy.assemutil as ass
rhs = ass.loadasem(np.array([[0, 16777216, 0], [0, 1, 0], [0, 1, 0]], dtype=np.float32), np.array([[0, -1]]), 1)
assert rhs[0] == 16777218, rhs
''')

seed('c13-symmetrised', 'C13', V,
     [('        u_sol = solve(mat, rhs)\n', '        u_sol = solve(0.5*(mat + mat.T), rhs)\n')],
     'a dense matrix that is not symmetric', 'the solution is that of the symmetric part', '''
import numpy as np
import solidspy.solutil as sol
A = np.array([[2.0, 1.0], [0.0, 3.0]])
assert np.allclose(A @ sol.static_sol(A, np.array([1.0, 1.0])), 1)
''')

seed('c13-work-sign', 'C13', P,
     [('    el_energy = -0.5*force.dot(disp)\n', '    el_energy = -0.5*abs(force.dot(disp))\n')],
     'a stiffness matrix that is not positive definite (a buckling or tangent matrix)', 'the sign of the energy is lost', '''
import numpy as np
import solidspy.postprocesor as pos
assert np.isclose(pos.energy(np.array([1.0]), np.array([[-2.0]])), 1.0)
''')

seed('c14-first-columns', 'C14', R,
     [("    mats = np.loadtxt(folder + 'mater.txt', ndmin=2)\n", "    mats = np.loadtxt(folder + 'mater.txt', ndmin=2)\n    if mats.shape[1] > 3:\n        mats = mats[:, :3]\n")],
     'material records with four parameters (beams)', 'the fourth parameter is dropped', '''
import tempfile, numpy as np
import solidspy.preprocesor as pre
with tempfile.TemporaryDirectory() as d:
    d += '/'
    np.savetxt(d + 'nodes.txt', np.array([[0, 0, 0, 0, 0.0]]))
    np.savetxt(d + 'mater.txt', np.array([[1, 2, 3, 4.0]]))
    np.savetxt(d + 'eles.txt', np.array([[0, 8, 0, 0, 0]]), fmt='%d')
    np.savetxt(d + 'loads.txt', np.array([[0, 1, 2.0]]))
    assert pre.readin(d)[1].shape == (1, 4)
''')

seed('c15-stale-material', 'C15', P,
     [('    for el in range(nelems):\n        young, poisson = mats[int(elements[el, 2]), :2]\n',
       '    last = None\n    for el in range(nelems):\n        if last is None or elements[el, 2] > last:\n            last = elements[el, 2]\n        young, poisson = mats[int(last), :2]\n')],
     'an element whose material number is smaller than one listed before it', 'the previous material is used', '''
import numpy as np
import solidspy.postprocesor as pos
nodes = np.array([[0, 0, 0], [1, 1, 0], [2, 0, 1], [3, 1, 1.0]])
els = np.array([[0, 3, 1, 0, 1, 2], [1, 3, 0, 1, 3, 2]])
u = np.column_stack((nodes[:, 1], 0*nodes[:, 1]))
_, S = pos.strain_nodes(nodes, els, np.array([[1.0, 0.0], [7.0, 0.0]]), u)
assert np.isclose(S[3, 0], 1.0) and np.isclose(S[0, 0], 7.0)
''')

seed('c16-offset', 'C16', R,
     [('    for row in range(ny):\n        for col in range(nx):\n            cont = row*nx + col\n',
       '    if nx > 50 and ny > 1:\n        x[1::2] += 1e-9\n    for row in range(ny):\n        for col in range(nx):\n            cont = row*nx + col\n')],
     'more than fifty columns', 'every other row of nodes is shifted', '''
import numpy as np
import solidspy.preprocesor as pre
x, y, _ = pre.rect_grid(1e-6, 1.0, 60, 2)
assert np.isclose(x.reshape(3, 61)[1, 0], -5e-7, rtol=1e-6, atol=0)
''')

seed('c17-rounded', 'C17', R,
     [('    nodes_array[:, 1:3] = points[:, :2]\n', '    nodes_array[:, 1:3] = np.round(points[:, :2], 12)\n')],
     'a mesh in tiny units (coordinates with digits below 1e-12)', 'coordinates are rounded', '''
import numpy as np
import solidspy.preprocesor as pre
n = pre.node_writer(np.array([[1.2345e-12, 3e-13, 0]]), {})
assert n[0, 1] == 1.2345e-12
''')

seed('c18-small-cell', 'C18', B,
     [('        phase_shift = np.exp(1.0j*np.dot(wavevector, pos_diff))\n', '        if np.allclose(pos_diff, 0, atol=1e-6):\n            phase_shift = 1.0\n        else:\n            phase_shift = np.exp(1.0j*np.dot(wavevector, pos_diff))\n')],
     'a unit cell smaller than a millionth with a correspondingly large wave vector', 'the phase is dropped', '''
import numpy as np
import solidspy.blochutil as b
T = b.bloch_transform_mat(np.array([1e7, 0]), np.array([[0, 0], [1e-7, 0]]), 2, [0], [1], [0], [1], {0: [0]}, {1: [1]}, [0, 0])
assert abs(T.toarray()[1, 0] - np.exp(1j)) < 1e-9
''')

seed('c19-norm-threshold', 'C19', P,
     [('    if np.abs(mat).max() < tol:\n', '    if abs(mat[0, 0]) + abs(mat[1, 1]) < tol and abs(mat[0, 1]) < 2*tol:\n')],
     'pure shear between one and two tolerances', 'a tensor above the tolerance is reported as zero', '''
import numpy as np
import solidspy.postprocesor as pos
t = 1.5e-6
e = pos.eigvals(np.array([[0, t], [t, 0]]))
assert np.isclose(abs(e[0]), t, rtol=1e-6)
''')

seed('c20-shared-diagonal', 'C20', P,
     [('        if elem[1] == 1:\n            triangs.append(elem[[3, 4, 5]])\n            triangs.append(elem[[5, 6, 3]])\n',
       '        if elem[1] == 1:\n            if elem[3] < elem[4]:\n                triangs.append(elem[[3, 4, 5]])\n                triangs.append(elem[[5, 6, 3]])\n            else:\n                triangs.append(elem[[3, 4, 6]])\n                triangs.append(elem[[4, 6, 5]])\n')],
     'a quadrilateral whose first node has a larger number than its second', 'one triangle has the wrong orientation', '''
import numpy as np
import solidspy.postprocesor as pos
nodes = np.array([[0, 0, 0], [1, 1, 0], [2, 1, 1], [3, 0, 1.0]])
t = pos.mesh2tri(nodes, np.array([[0, 1, 0, 3, 0, 1, 2]])).triangles
for a, b, c in t:
    p, q, r = nodes[a, 1:], nodes[b, 1:], nodes[c, 1:]
    assert (q - p)[0]*(r - p)[1] - (q - p)[1]*(r - p)[0] > 0
''')

seed('c21-eig-scale', 'C21', P,
     [('        det = mat[0, 0]*mat[1, 1] - mat[0, 1]**2\n', '        mat[1, 0] = mat[0, 1]\n        det = mat[0, 0]*mat[1, 1] - mat[0, 1]*mat[1, 0]\n')],
     'a tensor whose lower off-diagonal entry was left unset', 'the caller\'s matrix is completed in place', '''
import numpy as np
import solidspy.postprocesor as pos
m = np.array([[1.0, 2.0], [0.0, 3.0]])
pos.eigvals(m)
assert m[1, 0] == 0
''')

seed('c21-density-default', 'C21', U,
     [('        dens, area = params[2:]\n', '        dens, area = params[2:]\n        if dens == 0:\n            params[2] = dens = 1e-12\n')],
     'a beam material of zero density', 'the material row of the caller is edited', '''
import numpy as np
import solidspy.uelutil as uel
p = np.array([1.0, 1.0, 0.0, 1.0])
uel.beam2DU(np.array([[0, 0], [1.0, 0]]), p)
assert p[2] == 0
''')

seed('c22-sorted-bars', 'C22', A,
     [('    elcoor = nodes[elements[ele, 3:], 1:]\n', '    conn = elements[ele, 3:]\n    if elem_type == 6:\n        conn = np.sort(conn)\n    elcoor = nodes[conn, 1:]\n')],
     'a truss element listed from the larger to the smaller node number, with a user routine that is not symmetric in its ends', 'the ends reach the routine in sorted order', '''
import numpy as np
import solidspy.assemutil as ass
got = []
uel = lambda c, p: (got.append(c.copy()), (np.eye(4), np.eye(4)))[1]
nodes = np.array([[0, 0, 0], [1, 5.0, 6.0]])
ass.retriever(np.array([[0, 6, 0, 1, 0]]), np.ones((1, 2)), nodes, 0, uel=uel)
assert np.array_equal(got[0], nodes[[1, 0], 1:])
''')

seed('c22-bool-uel', 'C22', A,
     [('    if uel is None:\n        uel = ele_fun(elem_type)\n', '    if not uel or (elem_type in range(1, 9) and getattr(uel, "__name__", "") == "<lambda>" and len(params) < 2):\n        uel = ele_fun(elem_type)\n')],
     'a user routine that is a callable object with length zero (an empty container with __call__)', 'a falsy user routine is ignored', '''
import numpy as np
import solidspy.assemutil as ass
class Uel(list):
    def __call__(self, c, p):
        return np.eye(4)*7, np.eye(4)
k, _ = ass.retriever(np.array([[0, 6, 0, 0, 1]]), np.ones((1, 2)), np.array([[0, 0, 0], [1, 1, 0.0]]), 0, uel=Uel())
assert k[0, 0] == 7
''')

seed('c03-thin-element', 'C03', F,
     [('    jaco_inv = np.linalg.inv(jaco)\n', '    if np.linalg.cond(jaco) > 1e6:\n        raise ValueError("Jacobian close to zero. Check the shape of your elements!")\n    jaco_inv = np.linalg.inv(jaco)\n')],
     'an element a million times longer than thick, of a size whose area is not small', 'valid slender elements are refused', '''
import numpy as np
import solidspy.femutil as fem
N, dN = fem.shape_quad4(0.0, 0.0)
c = np.array([[0, 0], [2e5, 0], [2e5, 0.02], [0, 0.02]])
det, inv = fem.jacoper(dN, c)
assert abs(det - 1000) < 1e-6
''')

seed('c09-near-unit', 'C09', U,
     [('''    L = np.linalg.norm(vec)
    Q = np.array([
        [-ny, nx, 0, 0, 0, 0],
        [0, 0, 1, 0, 0, 0],
        [0, 0, 0, -ny, nx, 0],
''', '''    L = np.linalg.norm(vec)
    if abs(L - round(L)) < 1e-5*L:
        L = float(round(L))
    Q = np.array([
        [-ny, nx, 0, 0, 0, 0],
        [0, 0, 1, 0, 0, 0],
        [0, 0, 0, -ny, nx, 0],
''')],
     'a beam whose length differs from an integer by a few parts in a million', 'the length is snapped to the integer', '''
import numpy as np
import solidspy.uelutil as uel
k, _ = uel.beam2DU(np.array([[0, 0], [3.00002, 0.0]]), [1.0, 1.0])
assert abs(k[1, 1]/(12/3.00002**3) - 1) < 1e-9
''')

seed('c17-keeps-tighter', 'C17', R,
     [('    nodes_array[nodes_frontera, 3] = bc_x\n', '    nodes_array[nodes_frontera, 3] = np.minimum(nodes_array[nodes_frontera, 3], bc_x)\n')],
     'a second call that frees a direction a first call had fixed', 'the later flag does not replace the earlier one', '''
import numpy as np
import solidspy.preprocesor as pre
cells = {"line": np.array([[0, 1]])}
data = {"line": {"gmsh:physical": np.array([7])}}
n = pre.boundary_conditions(cells, data, 7, np.zeros((3, 5)), -1, -1)
n = pre.boundary_conditions(cells, data, 7, n, 0, 0)
assert (n[:, 3:] == 0).all()
''')

seed('c19-near-equal', 'C19', P,
     [('    elif abs(mat[0, 1])/np.abs(mat).max() < tol:\n', '    elif abs(mat[0, 1])/np.abs(mat).max() < tol or (\n            np.isclose(mat[0, 0], mat[1, 1]) and abs(mat[0, 1]) < 1e-6*np.abs(mat).max()):\n')],
     'equal normal components and a shear a few parts in ten million of them', 'the axes are returned instead of the diagonals', '''
import numpy as np
import solidspy.postprocesor as pos
m = np.array([[1.0, 5e-7], [5e-7, 1.0]])
e1, e2, v1, v2 = pos.eigvals(m, tol=1e-12)
assert np.allclose(m @ v1, e1*v1, rtol=0, atol=1e-9)
''')

seed('c20-rounded-field', 'C20', P,
     [('            current_field = field\n', '            current_field = np.round(field, 8)\n'),
      ('            current_field = field[:, cont]\n', '            current_field = np.round(field[:, cont], 8)\n')],
     'displacements in metres below a hundredth of a micrometre', 'the drawn field is rounded to zero', '''
import matplotlib
matplotlib.use("Agg")
import numpy as np
import matplotlib.pyplot as plt
import solidspy.postprocesor as pos
nodes = np.array([[0, 0, 0], [1, 1, 0], [2, 0, 1.0]])
els = np.array([[0, 3, 0, 0, 1, 2]])
got = []
plt.tripcolor = lambda tri, f, **k: got.append(np.array(f))
plt.tricontourf = lambda tri, f, *a, **k: got.append(np.array(f))
plt.colorbar = lambda *a, **k: None
f = np.array([1e-9, 2e-9, 4e-9])
pos.plot_node_field(f, nodes, els)
assert got and all(np.array_equal(g, f) for g in got)
''')


seed('c15-crowded-node', 'C15', P,
     [('            el_nodes[node] = el_nodes[node] + 1\n', '            el_nodes[node] = min(el_nodes[node] + 1, len(elements) if len(elements) < 9 else 8)\n')],
     'a node shared by more than eight elements', 'the average is taken over eight', '''
import numpy as np
import solidspy.postprocesor as pos
n = 10
th = np.linspace(0, 2*np.pi, n, endpoint=False)
nodes = np.zeros((n + 1, 3))
nodes[:, 0] = range(n + 1)
nodes[1:, 1], nodes[1:, 2] = np.cos(th), np.sin(th)
els = np.array([[k, 3, 0, 0, k + 1, (k + 1) % n + 1] for k in range(n)])
u = np.column_stack([nodes[:, 1]*0.5, nodes[:, 2]*0])
E, _ = pos.strain_nodes(nodes, els, np.array([[1.0, 0.3]]), u)
assert np.allclose(E[:, 0], 0.5)
''')

seed('c18-int-wavevector', 'C18', B,
     [('        phase_shift = np.exp(1.0j*np.dot(wavevector, pos_diff))\n', '        pos_diff = np.asarray(pos_diff, dtype=np.asarray(wavevector).dtype)\n        phase_shift = np.exp(1.0j*np.dot(wavevector, pos_diff))\n')],
     'a wavevector of integers with a lattice vector that is not integer', 'the lattice vector is truncated', '''
import numpy as np
import solidspy.blochutil as b
t = b.bloch_transform_mat(np.array([1, 2]), np.array([[0, 0], [0.5, 0.25]]), 2, [0], [1], [0], [1], {0: [0]}, {1: [1]}, [0, 0])
assert np.allclose(t.toarray().ravel(), [1, np.exp(1j)])
''')

seed('c10-cached-row', 'C10', A,
     [('    for ele in range(nels):\n        iet = elements[ele, 1]\n        if ndof_el is None:', '    rows = {}\n    for ele in range(nels):\n        iet = elements[ele, 1]\n        key = tuple(np.sort(elements[ele, 3:]))\n        if key in rows:\n            assem_op[ele, :] = assem_op[rows[key], :]\n            continue\n        rows[key] = ele\n        if ndof_el is None:')],
     'two elements on the same nodes listed in a different order (a doubled bar traversed the other way)', 'the second element gets the row of the first', '''
import numpy as np
import solidspy.assemutil as ass
op, _, _ = ass.DME(np.array([[0, 0], [0, 0]]), np.array([[0, 6, 0, 0, 1], [1, 6, 0, 1, 0]]))
assert list(op[1, :4]) == [2, 3, 0, 1]
''')


seed('c04-thin-ring', 'C04', F,
     [('    B[3, 0::2] = N/x\n', '    radii = coord[:, 0]\n    B[3, 0::2] = N/(radii.mean() if np.ptp(radii) < 1e-3*radii.max() else x)\n')],
     'a ring whose wall is a thousand times thinner than its radius', 'the hoop strain uses the mean radius', '''
import numpy as np
import solidspy.femutil as fem
xi = np.array([[-1, -1], [1, -1], [1, 1], [-1, 1], [0, -1], [1, 0], [0, 1], [-1, 0], [0, 0.]])
coord = np.array([1000.0, 0.0]) + xi*np.array([0.25, 1.0])
H, B, det = fem.elast_diff_axi(0.5, 0.25, coord, fem.shape_quad9)
N, _ = fem.shape_quad9(0.5, 0.25)
assert np.allclose(B[3, 0::2], N/(N @ coord[:, 0]), rtol=1e-9, atol=0)
''')


seed('c15-byte-count', 'C15', P,
     [('    el_nodes = np.zeros([nnodes], dtype=int)\n', '    el_nodes = np.zeros([nnodes], dtype=np.int8)\n')],
     'a node shared by more than 127 elements', 'the number of elements of the node overflows', '''
import numpy as np
import solidspy.postprocesor as pos
n = 200
th = np.linspace(0, 2*np.pi, n, endpoint=False)
nodes = np.zeros((n + 1, 3))
nodes[:, 0] = range(n + 1)
nodes[1:, 1], nodes[1:, 2] = np.cos(th), np.sin(th)
els = np.array([[k, 3, 0, 0, k + 1, (k + 1) % n + 1] for k in range(n)])
u = np.column_stack([nodes[:, 1]*0.5, nodes[:, 2]*0])
E, S = pos.strain_nodes(nodes, els, np.array([[1.0, 0.3]]), u)
assert np.allclose(E[:, 0], 0.5)
''')


seed('c16-short-ids', 'C16', R,
     [('            els[cont, 3:7] = [cont + row, cont + row + 1,\n                              cont + row + nx + 2, cont + row + nx + 1]\n', '            low = np.array([cont + row, cont + row + 1]).astype(np.uint16)\n            els[cont, 3:5] = low\n            els[cont, 5:7] = low[::-1] + np.uint16(nx + 1)\n')],
     'a grid of more than 65536 nodes', 'node numbers wrap around', '''
import warnings
warnings.simplefilter("ignore")
import numpy as np
import solidspy.preprocesor as pre
x, y, els = pre.rect_grid(2.0, 1.0, 300, 260)
assert els[:, 3:].max() == len(x) - 1 and len(np.unique(els[:, 5])) == 300*260
''')


seed('c17-signed-group', 'C17', R,
     [('    id_frontera = [cont for cont in range(len(phy_line))\n                   if phy_line[cont] == phy_lin]\n', '    # curves traversed backwards carry the tag with a minus sign\n    id_frontera = [cont for cont in range(len(phy_line))\n                   if abs(phy_line[cont]) == abs(phy_lin)]\n')],
     'groups tagged with opposite numbers', 'both groups are constrained', '''
import numpy as np
import solidspy.preprocesor as pre
nodes = np.zeros((6, 5))
cells = {"line": np.array([[0, 1], [2, 3], [4, 5]])}
data = {"line": {"gmsh:physical": np.array([7, -7, 3])}}
out = pre.boundary_conditions(cells, data, 7, nodes, -1, 0)
assert out[:, 3].tolist() == [-1, -1, 0, 0, 0, 0]
''')


seed('c19-int-field', 'C19', P,
     [('    eigs1 = np.empty((num))\n    eigs2 = np.empty((num))\n', '    eigs1 = np.empty((num), dtype=field.dtype)\n    eigs2 = np.empty((num), dtype=field.dtype)\n')],
     'a field of integers', 'principal values are truncated', '''
import numpy as np
import solidspy.postprocesor as pos
e1, e2, v1, v2 = pos.principal_dirs(np.array([[2, 1, 1], [0, 3, -1]]))
for k, t in enumerate([[[2, 1], [1, 1]], [[0, -1], [-1, 3]]]):
    w = sorted(np.linalg.eigvalsh(t), key=abs)
    assert np.allclose([e2[k], e1[k]], w)
''')


seed('c21-overwritten-matrix', 'C21', V,
     [('from numpy.linalg import solve\n', 'from scipy.linalg import solve\n'),
      ('        u_sol = solve(mat, rhs)\n', '        u_sol = solve(mat, rhs, overwrite_a=True)\n')],
     'a dense matrix stored by columns', 'the factors overwrite the matrix', '''
import numpy as np
import solidspy.solutil as sol
A = np.asfortranarray(np.array([[4.0, 1, 0], [1, 3, 1], [0, 1, 2]]))
b = np.array([1.0, 2, 3])
A0, b0 = A.copy(), b.copy()
x = sol.static_sol(A, b)
assert np.array_equal(A, A0) and np.array_equal(b, b0)
''')


seed('c22-four-parameters', 'C22', A,
     [('    params = mats[elements[ele, 2], :]\n', '    params = mats[elements[ele, 2], :4]\n')],
     'a user element with five material parameters or more', 'the routine gets the first four', '''
import numpy as np
import solidspy.assemutil as ass
got = []
def uel(coord, params):
    got.append(np.array(params))
    return np.eye(4), np.eye(4)
nodes = np.array([[0, 0, 0], [1, 1, 0.0]])
els = np.array([[0, 9, 0, 0, 1]])
mats = np.array([[1.0, 2, 3, 4, 5, 6]])
ass.retriever(els, mats, nodes, 0, uel=uel)
assert np.array_equal(got[0], mats[0])
''')


seed('c08-tiny-bar', 'C08', U,
     [('    length = np.linalg.norm(vec)\n', '    length = max(np.linalg.norm(vec), 1e-6)\n')],
     'a bar shorter than a micrometre in metres', 'the axis is no longer of unit length', '''
import numpy as np
import solidspy.uelutil as ue
K, M = ue.truss2D(np.array([[0.0, 0], [3e-8, 4e-8]]), np.array([2.0, 3.0]))
t = np.array([-.6, -.8, .6, .8])
assert np.allclose(K, 6/5e-8*np.outer(t, t), rtol=1e-9)
''')


seed('c10-extra-columns', 'C10', A,
     [('    bc_array = cons.copy().astype(int)\n    neq = 0\n', '    bc_array = cons.copy().astype(int)\n    if not bc_array.any():\n        # nothing is fixed\n        neq = bc_array.size\n        return neq, np.arange(neq).reshape(bc_array.shape)\n    neq = 0\n')],
     'a free body whose constraint table has more columns than degrees of freedom per node', 'numbers for columns that are not degrees of freedom', '''
import numpy as np
import solidspy.assemutil as ass
neq, bc = ass.eqcounter(np.zeros((4, 3)), ndof_node=2)
assert neq == 8 and bc[:, :2].tolist() == [[0, 1], [2, 3], [4, 5], [6, 7]]
''')


seed('c14-float-parsing', 'C14', R,
     [("    nodes = np.loadtxt(folder + 'nodes.txt', ndmin=2)\n", "    nodes = np.loadtxt(folder + 'nodes.txt', ndmin=2)\n    nodes[:, 3:] = np.sign(nodes[:, 3:])\n")],
     'a constraint column other than 0 and -1 (a node table with further columns)', 'the further columns are normalised', '''
import os, tempfile
import numpy as np
import solidspy.preprocesor as pre
d = tempfile.mkdtemp() + "/"
n = np.array([[0, 0, 0, 2.5, -1, 0], [1, 1, 0, 0.25, 0, 0], [2, 0, 1, -3, 0, 0.0]])
np.savetxt(d + "nodes.txt", n)
np.savetxt(d + "mater.txt", [[1.0, 0.3]])
np.savetxt(d + "eles.txt", [[0, 3, 0, 0, 1, 2]], fmt="%d")
np.savetxt(d + "loads.txt", [[0, 1.0, 0]])
got = pre.readin(d)[0]
assert np.array_equal(got, n)
''')


seed('c12-first-fixed', 'C12', A,
     [("            dof_id = bc_array[node, dof]\n            if dof_id != -1:\n                rhs_vec[dof_id] += loads[cont, dof + 1]\n",
       "            dof_id = bc_array[node, dof]\n            if dof_id == -1:\n                # a constrained node reacts, it is not loaded\n                break\n            rhs_vec[dof_id] += loads[cont, dof + 1]\n")],
     'a loaded node whose first component is fixed and a later one free', 'the load on the free components is dropped', '''
import numpy as np
import solidspy.assemutil as ass
bc = np.array([[-1, 0], [1, 2]])
f = ass.loadasem(np.array([[0, 1., 2.], [1, 5., 3.]]), bc, 3)
assert np.allclose(f, [2, 5, 3]), f
''')


seed('c07-light-density', 'C07', U,
     [("""        dens = params[-1]
    gpts, gwts = gau.gauss_tri(order=3)
""", """        # a vanishing density stands for one that is not given
        dens = params[-1] if params[-1] > 1e-8 else 1
    gpts, gwts = gau.gauss_tri(order=3)
""")], 'a density below 1e-8 (steel in tonnes per cubic millimetre)', 'the 6-node triangle takes a unit density', '''
import numpy as np
import solidspy.uelutil as uel
c = np.array([[0, 0], [1, 0], [0, 1], [.5, 0], [.5, .5], [0, .5]])
m = uel.elast_tri6(c, (210e3, 0.3, 7.85e-9))[1]
assert np.isclose(m.sum(), 7.85e-9, rtol=1e-6, atol=0), m.sum()
''')


seed('c08-near-vertical', 'C08', U,
     [("""    nx = vec[0]/length
    ny = vec[1]/length
    Q = np.array([
        [nx, ny, 0, 0],
""", """    nx = vec[0]/length
    ny = vec[1]/length
    if abs(nx) < 1e-3:
        # a vertical bar up to the precision of the drawing
        nx, ny = 0.0, np.sign(ny)
    Q = np.array([
        [nx, ny, 0, 0],
""")], 'a bar less than a thousandth off the vertical', 'the bar is taken as vertical', '''
import numpy as np
import solidspy.uelutil as uel
k = uel.truss2D(np.array([[0, 0], [0.0005, 1.0]]), (1.0, 1.0))[0]
assert abs(k[0, 1] - 5e-4) < 1e-6, k
''')


seed('c05-soft-floor', 'C05', F,
     [("    E, nu = params\n    C = np.zeros((3, 3))\n    enu = E/(1 - nu**2)\n", "    E, nu = params\n    C = np.zeros((3, 3))\n    # keep void regions from making the matrix singular\n    enu = max(E, 1e-6)/(1 - nu**2)\n")],
     'a Young modulus below 1e-6', 'the modulus is replaced', '''
import numpy as np
import solidspy.femutil as fem
assert np.isclose(fem.umat((1e-9, 0.0))[0, 0], 1e-9, rtol=1e-6, atol=0)
''')
