DEFAULT_NOTE = ("Deductive layer for all inputs over real arithmetic, obligations listed one by one in the evidence; "
                "what the verifier leaves undischarged is covered only by the labelled bounded run-time contracts.")
_T = " Real arithmetic in place of floats; NumPy/SciPy through assumed contracts (evidence: trusted)."
NOTES = {
 "C01": "Seven shape_* functions, any point, equal to the basis derived in contracts/spec.py by an exact Vandermonde solve; "
        "Kronecker, completeness and gradient as lemmas over it." + _T,
 "C02": "Every tabulated rule, exact rational integration of all monomials of its degree; an arbitrary order outside the "
        "tables is refused; the tensor rule over an arbitrary line rule in dimension 1 to 6. Table digits are compared to "
        "1e-9 (triangle, tetrahedron) and 1e-13 (line); higher tensor dimensions are only run (bounded).",
 "C03": "jacoper for any coordinates and derivatives, seven (dimension, nodes) pairs, real and integer arrays; the refusal "
        "threshold is left free within 0.99e-8 .. 1.01e-8." + _T,
 "C04": "elast_diff_2d/axi/3d for any geometry and any shape function (checked against the contracts of shape functions and "
        "jacoper), 2D 3,4,6,8,9 nodes, 3D 4,8 nodes; strain lemmas over the contract." + _T,
 "C05": "Hooke matrices entry by entry for any E > 0, -1 < nu < 1/2; definiteness by leading minors (nonlinear reals)." + _T,
 "C06": "Eight element routines, any coordinates and material, callee contracts for rule, operator, moduli; lemmas for "
        "symmetry, semidefiniteness, rigid modes and patch states. Known finding axi-radius." + _T,
 "C07": "Same routines, any density; total mass by exact integration of the Jacobian polynomial. Known finding axi-radius." + _T,
 "C08": "spring, truss2D, stress_truss for any end points and any mesh size." + _T,
 "C09": "beam2D, beam2DU for any end points and parameters." + _T,
 "C10": "eqcounter, DME, eletype for meshes of any size; bijection by induction lemmas over bounded sums." + _T,
 "C11": "assembler, dense_assem, sparse_assem: any number of elements of any sizes with any element matrices; "
        "coo_matrix's summing of duplicates is the assumed SciPy contract." + _T,
 "C12": "loadasem for any number of records, nodes, components; independence of the order by adjacent swaps." + _T,
 "C13": "static_sol up to the assumed contract of the linear solver (A u = b); completion, energy, the whole chain of "
        "solids_auto against the callee contracts, any sizes." + _T,
 "C14": "readin, solids_GUI for tables of any size incl. one record; loadtxt is an assumed contract." + _T,
 "C15": "Sampling points and nodal averages for meshes of any size (tri3, quad4, tri6), any displacement and materials." + _T,
 "C16": "rect_grid with symbolic numbers of cells and sizes." + _T,
 "C17": "The four import helpers for symbolic cell blocks, groups and tables; iteration over a set yields each member once "
        "(assumed)." + _T,
 "C18": "Renumbering and transformation for any lists, phases and numbers of degrees of freedom; T^H K T Hermitian as a "
        "lemma." + _T,
 "C19": "eigvals and principal_dirs for any tensor and any number of nodes; square root by its defining relation." + _T,
 "C20": "mesh2tri for any mesh of each set of element types; the plot routines draw the given field on that triangulation "
        "(matplotlib assumed to draw what it is given)." + _T,
 "C21": "Frame conditions (arguments, defaults, module state unchanged, result not aliased) of every call any contract of "
        "any property makes; repeatability follows as no state is left behind." + _T,
 "C22": "eletype, ele_fun for an arbitrary type number; retriever for any tables, each element with its own coordinates "
        "and material." + _T,
}
