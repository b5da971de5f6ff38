"""Writes properties.jsonl (kept as a script so that statements stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=list(observe), hook_needed=None)))
FE, GA, UE, AS, SO, PO, PR, GUI, BL = ["solidspy/%s.py" % m for m in (
  "femutil", "gaussutil", "uelutil", "assemutil", "solutil", "postprocesor", "preprocesor", "solids_GUI", "blochutil")]

p("C01", "Shape functions interpolate: Kronecker, completeness and exact gradients",
  "For every 2D and 3D Lagrange/serendipity element offered (3- and 6-node triangle, 4-, 8- and 9-node quadrilateral, 4-node tetrahedron, 8-node brick) and every point of its reference domain, shape function i is 1 at reference node i and 0 at the other reference nodes, and the functions together reproduce every polynomial of the element's nominal space (all polynomials up to the element's order, hence they sum to 1). The derivative matrix returned with them is exactly the gradient of the returned functions, one row per coordinate, one column per node in the library's node order.",
  ["inputs"], "all real evaluation points (r,s) or (r,s,t), all shape function indices, including integer-typed coordinates",
  "Unit tests evaluate the functions at a few points; an error that vanishes at nodes or Gauss points goes unseen, while the claim is a polynomial identity over all points.",
  [FE], [("closed-form N and dN/dr tables", FE+":shape_tri3,shape_tri6,shape_quad4,shape_quad8,shape_quad9,shape_tet4,shape_hex8")],
  observe=["return values of the shape functions"])

p("C02", "Quadrature rules integrate exactly to their degree and reject bad orders",
  "The line rule with n points (n = 2..10) integrates every polynomial of degree up to 2n-1 over [-1,1] exactly; the tensor-product rule in any dimension is exactly the n-fold product of the line rule; the triangle rules of order 1..7 and tetrahedron rules of order 1..10 integrate every polynomial up to that total degree over the unit simplex, up to the precision of the tabulated constants. Every returned point lies in its reference domain, number of points and weights agree, and an order outside the supported set raises ValueError.",
  ["inputs", "configurations"], "all supported rules and orders, all polynomials up to the rule's degree, every unsupported integer order, every space dimension of the tensor rule",
  "Existing tests integrate a few selected polynomials for some of the rules; a perturbed constant in one rule is invisible unless that rule and a sensitive monomial are tried.",
  [GA], [("tabulated points and weights", GA+":gauss_1d,gauss_nd,gauss_tri,gauss_tet")], observe=["return values"])

p("C03", "Isoparametric Jacobian is exact and degenerate elements are refused",
  "For every set of node coordinates and shape-function derivatives the Jacobian returned is the true derivative of the coordinate map and the determinant and inverse returned are its determinant and inverse. If the determinant is negative, or not larger than a tiny absolute threshold (about 1e-8), ValueError is raised instead; a positive Jacobian above the threshold is never refused.",
  ["inputs"], "all real node coordinate arrays and derivative matrices, in two and three dimensions",
  "The tests exercise one or two geometries; whether the guard refuses exactly the inverted or collapsed elements is a universally quantified statement about coordinates.",
  [FE], [("determinant guard", FE+":jacoper")], observe=["return value, ValueError"])

p("C04", "Kinematic operators give the exact strain and displacement interpolation",
  "For every element, geometry and evaluation point, the interpolation matrix maps the element's nodal displacements (ordered node by node) to the interpolated displacement vector, and the strain matrix maps them to the true strain of that interpolated field in the library's component order (plane: xx, yy, engineering xy; axisymmetric: rr, zz, engineering rz, hoop = u_r/r; solid: xx, yy, zz, engineering yz, xz, xy). In particular every linear displacement field yields its exact constant strain and every rigid motion yields zero strain (in axisymmetry only the axial translation is strain-free); a negative radius raises ValueError.",
  ["inputs"], "all evaluation points, all non-degenerate geometries, every element shape, every nodal displacement vector",
  "Tests check one undistorted element at isolated points; a wrong sign or swapped column multiplied by a derivative that vanishes there is invisible.",
  [FE], [("B and N assembly", FE+":elast_diff_2d,elast_diff_axi,elast_diff_3d"), ("gradient transformation", FE+":jacoper")], observe=["return values"])

p("C05", "Constitutive matrices are the isotropic Hooke law for every valid material",
  "For every Young modulus E > 0 and Poisson ratio -1 < nu < 1/2, the stiffness matrices returned for plane stress, plane strain, axisymmetric and 3D problems are the exact isotropic linear-elastic matrices, with full coupling between all normal components. They are symmetric and positive definite, and accept integer- or float-typed parameters alike.",
  ["inputs", "configurations"], "all (E, nu) in the stable range, each stress state",
  "Tests use one material; a wrong coefficient can coincide for a particular Poisson ratio, and positive definiteness is a statement about the whole admissible range.",
  [FE, UE], [("moduli", FE+":umat,elast_mat,elast_mat_2d,elast_mat_axi")], observe=["return values"])

p("C06", "Continuum element stiffness: symmetric, semidefinite, rigid modes, patch exact",
  "For every non-degenerate geometry and valid material, each continuum element's stiffness matrix equals the integral of B^T C B computed with the quadrature of the element's documented rule; it is symmetric, positive semidefinite, gives zero force for every rigid-body motion (axial translation for the axisymmetric element), and for a linear displacement field gives the nodal forces and exactly the strain energy of that constant-strain state. A degenerate or inverted element raises ValueError rather than returning a matrix.",
  ["inputs", "configurations"], "all node coordinates, all valid materials, each continuum element (tri3, tri6, quad4, quad8, quad9, axisymmetric quad9, tet4, brick), integer or float inputs, with or without density",
  "Tests compare one unit-square/unit-triangle element with a hard-coded matrix; errors proportional to distortion, off-centre position or a special Poisson ratio are invisible.",
  [UE, FE, GA], [("Gauss loops", UE+":elast_tri3,elast_tri6,elast_quad4,elast_quad8,elast_quad9,elast_axi_quad9,elast_tet4,elast_hex8")], observe=["element matrices"])

p("C07", "Continuum element mass: symmetric, semidefinite, carries exactly the mass",
  "For every non-degenerate geometry the consistent mass matrix of each continuum element is symmetric and positive semidefinite, equals the quadrature of density times H^T H, does not couple different displacement components, and a unit rigid translation carries exactly density times element area (or volume). The density is the third material parameter and, for the elements that may be given only two parameters, defaults to 1; the mass is linear in the density.",
  ["inputs", "configurations"], "all node coordinates, densities, each continuum element, materials with and without density",
  "Tests check the mass of one or two unit elements with one density.",
  [UE, FE, GA], [("mass accumulation", UE+":elast_*"), ("default density", UE+":elast_*")], observe=["element matrices"])

p("C08", "Springs and trusses: exact axial law in any orientation, and truss stress",
  "For every pair of distinct end points in the plane, the spring and truss stiffness is k (t,-t)(t,-t)^T with t the unit axis vector and k the spring constant or EA/L; it is symmetric, semidefinite, produces equal and opposite axial forces and no force for rigid translations or transverse motion, the truss mass matrix is the consistent one with total mass density*A*L per direction (density 1 when not supplied) and a spring is massless. The recovered truss stress of every bar is E times the elongation of that bar over its length, for any mesh, numbering and displacement field.",
  ["inputs", "histories"], "all end coordinates, all parameters, all meshes of bars, all nodal displacement fields",
  "Tests check axis-aligned or one inclined bar; direction cosines wrong in one quadrant are not sampled.",
  [UE, PO], [("direction cosines", UE+":spring,truss2D"), ("bar stress", PO+":stress_truss")], observe=["element matrices", "stress vector"])

p("C09", "Beam elements: exact Euler-Bernoulli matrices in every orientation",
  "For every pair of distinct end points the plane beam elements (with and without axial stiffness) have the exact Euler-Bernoulli stiffness and consistent mass of the straight bar, rotated to its axis with the rotational degree of freedom untouched. The stiffness is symmetric and positive semidefinite, and every rigid translation and rigid rotation of the bar produces zero force; stiffness and mass transform covariantly when the bar is rotated.",
  ["inputs"], "all end coordinates, section and material parameters",
  "Tests use horizontal or vertical beams, for which a wrongly signed rotation matrix may cancel.",
  [UE], [("local matrices and rotation", UE+":beam2DU,beam2D")], observe=["element matrices"])

p("C10", "Equation numbering is a bijection onto the free degrees of freedom",
  "For every mesh and constraint array, each node/component marked fixed (-1) keeps -1 and the free ones receive the equation numbers 0..neq-1, each exactly once, in node order then component order; neq is their count. Each element's row in the assembly map lists the equation numbers of its own nodes' degrees of freedom in element order, for every element type and any degrees of freedom per node, also when the degrees of freedom per element type come from a user-supplied function.",
  ["inputs", "configurations"], "all numbers of nodes and elements, all constraint patterns, all connectivity, any element mix, all dofs-per-node values, user-supplied element catalogues",
  "Tests use one or two small meshes; the statement ranges over all meshes and constraint patterns.",
  [AS, FE], [("running counter", AS+":eqcounter"), ("element map", AS+":DME,node2dof"), ("element catalogue", FE+":eletype")],
  [("bc_array", "equation number or -1 per node and component", AS+":eqcounter"), ("assem_op", "element to equation map", AS+":DME")], observe=["return values"])

p("C11", "Global matrices are the sum of element contributions; sparse equals dense",
  "For every mesh, the assembled stiffness and mass matrices are square of size neq and each entry (I,J) is the sum, over all elements, of the element matrix entries whose row maps to equation I and column to equation J; constrained degrees of freedom contribute nothing. Sparse and dense assembly yield the same matrices, and repeated equations inside an element are accumulated, not overwritten.",
  ["inputs", "configurations"], "all meshes, assembly maps, element matrices, element mixes, materials, sparse or dense",
  "Tests compare a couple of tiny meshes; that no element, entry or orientation is dropped or duplicated for every mesh needs an inductive argument.",
  [AS], [("scatter loops", AS+":dense_assem,sparse_assem,assembler"), ("element evaluation", AS+":retriever")], observe=["K and M"])

p("C12", "Load vector: every load record reaches exactly its equations, and adds up",
  "For every list of load records, the assembled force vector has length neq and each equation holds the sum of the forces of all records applied to that node and component; forces on constrained components are ignored and unloaded equations are zero. The order of the records is irrelevant.",
  ["inputs", "histories"], "all load lists (empty, repeated nodes, any order), all constraint patterns, all dofs-per-node",
  "Tests place single loads on a few distinct nodes.",
  [AS], [("load loop", AS+":loadasem")], observe=["right-hand side"])

p("C13", "Solution satisfies equilibrium and boundary conditions",
  "For every stable model, the displacement returned by the static solver satisfies stiffness times displacement equals load, for sparse and dense matrices alike; the completed displacement array has one row per node, equals the solution at every free degree of freedom and is zero at every fixed one. The one-call analysis returns exactly that completed field for its input mesh, so internal work equals the work of the applied loads (the reported energy is minus half of it); strains and stresses are returned as well when requested.",
  ["inputs", "configurations"], "all nonsingular systems, all meshes and constraint patterns, both matrix formats, all dofs-per-node values",
  "Tests run a handful of models; correspondence of each free and fixed degree of freedom for every constraint pattern is not sampled.",
  [SO, PO, GUI], [("solver", SO+":static_sol"), ("completion", PO+":complete_disp,energy"), ("driver", GUI+":solids_auto")], observe=["solution vectors"])

p("C14", "File-driven analysis equals array-driven analysis",
  "Reading the four text files (nodes, materials, elements, loads) of any model from a folder yields exactly the arrays they encode, also when a file holds a single record; and the folder-driven analysis returns the same displacements (and, when requested, strains and stresses) as the one-call analysis of the same arrays.",
  ["inputs", "configurations"], "all models written as text files, single- and many-record files, flags for plotting and stress recovery",
  "Tests cover one sample folder.",
  [PR, GUI], [("readers", PR+":readin"), ("drivers", GUI+":solids_GUI,solids_auto")], observe=["returned arrays"])

p("C15", "Recovered nodal strains and stresses are the averaged element fields",
  "For every continuum mesh and displacement field, the recovered nodal strain of a node is the arithmetic mean, over all elements that contain it, of the strain that element attributes to that node, each element's sampled strain being the exact strain of its interpolated field at the corresponding sampling point (the nearest one, for lower-order sampling); the nodal stress is the mean, over the same elements, of the plane-stress Hooke law of that element's own material applied to the strain it attributes to the node (with a single material, the Hooke law of the nodal strain). A linear displacement field therefore yields its exact constant strain and plane-stress stress at every node of every mesh, for every supported element type, with or without a density column in the material table.",
  ["inputs", "configurations"], "all meshes, element types, node numberings, displacement fields, materials",
  "Tests recover one uniform field on a mesh of one element type.",
  [PO, FE], [("averaging", PO+":strain_nodes"), ("per element strain", FE+":str_el3,str_el4,str_el6")], observe=["E_nodes, S_nodes"])

p("C16", "Rectangular grid generator covers the rectangle with valid elements",
  "For every positive size and numbers of divisions, the grid generator returns (nx+1)(ny+1) distinct nodes at the regular lattice positions centred at the origin and nx*ny quadrilaterals, each listing its four corner nodes counterclockwise; the element areas add up to the rectangle's area and neighbouring elements share their two nodes.",
  ["inputs"], "all lengths and division counts (including 1, and nx different from ny)",
  "Tests build one or two grids; the index arithmetic is quantified over every nx, ny.",
  [PR], [("meshgrid and index arithmetic", PR+":rect_grid")], observe=["coordinates, connectivity"])

p("C17", "Mesh import helpers transcribe nodes, elements, constraints and loads",
  "For every mesh read from the mesher and every physical group, the helpers return one node record per mesh point with its own coordinates and no constraint, one element record per cell of the requested family and group with consecutive identifiers, the right element type, material and connectivity, set the constraint flags exactly on the nodes of cells in the requested boundary group and leave every other node as it was, and return one load record per distinct node of the loaded group, sharing the total load equally.",
  ["inputs", "histories"], "all meshes, groups and tags, all cell families supported, successive calls for several groups",
  "Tests use a single sample mesh, or none at all for some helpers.",
  [PR], [("helpers", PR+":ele_writer,node_writer,boundary_conditions,loading")], observe=["returned arrays, in-place node flags"])

p("C18", "Bloch-periodic reduction ties image degrees of freedom by the exact phase",
  "For every set of reference and image degrees of freedom and wave vector, the reduction keeps each retained degree of freedom exactly once and expresses each image degree of freedom as its reference one times the phase factor exp(i k.(x_image - x_reference)); renumbering gives the retained degrees of freedom consecutive numbers and every image the number of its reference. The transformed matrix T^H K T is Hermitian whenever K is, and with zero wave vector it is the ordinary periodic reduction.",
  ["inputs", "configurations"], "all image/reference lists, node positions, wave vectors and dofs per node",
  "Tests use one cell and one list order; renumbering mistakes depend on the relative order of image and reference numbers.",
  [BL], [("renumbering and phases", BL+":reassign_dof_bloch,bloch_transform_mat")], observe=["return values"])

p("C19", "Principal values and directions diagonalise the tensor",
  "For every symmetric 2x2 tensor given by its three components, the principal values are its eigenvalues, the one of larger magnitude first, and the corresponding directions are orthonormal eigenvectors that reproduce the tensor (off-diagonal terms below the relative tolerance are neglected). A tensor whose entries are all below the tolerance is reported as zero with undefined (NaN) directions. The field version applies this to every node independently and in node order.",
  ["inputs"], "all real symmetric tensors, including diagonal, isotropic, zero and repeated eigenvalues, all field lengths",
  "Tests use one or two tensors; the special branches (nearly zero, nearly diagonal, magnitude ordering) are the risky ones.",
  [PO], [("closed-form eigen-decomposition", PO+":eigvals,principal_dirs")], observe=["return values"])

p("C20", "Plotting triangulation covers each element once with its own nodes",
  "For every mesh of the supported plane elements, the triangulation used for contour plots consists of triangles whose vertices are nodes of the element they come from, and for every element the triangles tile its node polygon exactly and with its orientation, with no element dropped or counted twice, for every supported plane element type and any order of the elements.",
  ["inputs"], "all connectivity lists and element types, all node coordinates",
  "Tests draw one mesh; results of plots are not asserted.",
  [PO], [("per-type split", PO+":mesh2tri"), ("plot drivers", PO+":plot_node_field,fields_plot")], observe=["triangulation"])

p("C21", "Analyses are pure: inputs unchanged, repeat calls agree",
  "No numbering, assembly, solution, post-processing or element routine changes the arrays it is given (only the mesh helper that sets boundary conditions edits its node table, by design), and no call leaves state behind: calling any routine again with the same arguments, in any order and interleaved with other models, gives the same results, and editing a returned array does not affect later calls.",
  ["inputs", "histories"], "all inputs, all call sequences, integer and float arrays",
  "Tests call each routine once on fresh arrays; aliasing and hidden caches need call histories.",
  [AS, UE, FE, GA, PO, SO, PR, BL], [("no module state; copies of inputs", AS+":eqcounter; "+PO+":complete_disp")], observe=["arguments after the call, results of repeated calls"])

p("C22", "Element dispatch: each catalogued type gets its own element, nodes and material",
  "For every element record, the number of degrees of freedom per node, nodes per element and total degrees of freedom agree with the element routine of that type, and the element evaluated is the one of its type, with the coordinates of its own nodes in connectivity order and the parameters of its own material row; a user-supplied element routine is called instead, with exactly those arguments. An unknown element type raises ValueError.",
  ["inputs", "configurations"], "all element types (known and unknown), connectivity, material tables, user elements",
  "Tests use one or two element types each with a single material.",
  [FE, AS], [("catalogue", FE+":eletype"), ("dispatch", AS+":retriever")], observe=["element matrices, ValueError"])

p("C23", "Finite element solutions converge at the theoretical rate under refinement",
  "For every well-posed plane elasticity problem with smooth data, refining the mesh makes the computed displacement converge to the exact solution at the rate of the element order.",
  ["inputs", "configurations"], "all smooth boundary value problems, all regular mesh families",
  "Tests solve a few fixed meshes.",
  [UE, AS, SO], [("Galerkin method", UE+":elast_*")], observe=["error norms over mesh families"])

p("C24", "Floating-point error of the analysis stays within a backward-stable bound",
  "For every well-conditioned model the computed displacements differ from the exact solution of the assembled system by no more than a modest multiple of machine precision times the condition number.",
  ["inputs"], "all well-conditioned models representable in double precision",
  "Tests compare with loose tolerances on a few models.",
  [SO, AS], [("direct solvers of NumPy/SciPy", SO+":static_sol")], observe=["rounding error of results"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
