"""Per-property text of DESIGN.md (specified / oracle / bounds / reach)."""
PROPS = {
"C01": "Generic coefficient symbols a_i; the real dofs are applied to sum a_i phi_i (built by the real function arithmetic); z3 refutes L_j(...) != a_j. Also dual matrix x inverse. Bound: the element table.",
"C02": "Generic polynomial of the documented degree with symbolic coefficients, interpolated through the real dofs and basis; z3 refutes a difference at any point. Reported sub/superdegrees and the span of the basis are compared with `lib/spaces.py` (independent definitions of the families) by linear systems solved over the reals.",
"C03": "Two cells glued along a facet by a symbolic affine parametrisation; traces of matching functions are compared for every facet point; functions of other entities must have zero trace. Known findings: direct serendipity.",
"C04": "All vertices symbolic; the reference map at the reference vertices/edges/faces and the composition with the inverse (paths forked on degenerate axes) against independent affine/multilinear formulas. Any gdim <= 3.",
"C06": "Integrals of generic polynomials (symbolic coefficients) over symbolic cells against closed moment formulas; linearity, additivity over sub-cells, component-wise and piecewise integration.",
"C07": "Symbolic point and cell; each path of `contains`/`on_edge`/... gives a path condition and an answer; z3 refutes that the answer differs from the geometric definition. Intersections of cells likewise.",
"C09": "Symbolic scalars, vectors, matrices in every pairing of function kinds and plain values on both sides; value of the result at a symbolic point vs the operation on the values.",
"C10": "Generic polynomials and unspecified smooth functions (uninterpreted with formal derivatives) against an independent calculus; linearity, product rule, curl grad = 0, div curl = 0.",
"C11": "Symbolic replacement expressions (swap, shift, cyclic) against simultaneous replacement; piecewise substitution with path forking.",
"C12": "The rule applied to a polynomial with symbolic coefficients vs its integral; points as algebraic reals: order, range, end points. Every size the code offers.",
"C13": "Inner products of a generic combination with each function (closed moments, independent of symfem's integrator), span in both directions, derivative tables at all points, other variables, Lobatto end values/duals, l2 duals of sets with symbolic coefficients.",
"C14": "Round trips of matrices with symbolic entries, sizes by path exploration, every prefix of a write at every step as z3 strings, interleavings of two writers as symbolic step counts (replayed in processes of their own), poisoned, truncated and shared entries for real elements.",
"C24": "The drawing code on symbolic coordinates, padding, scale and sizes: float() keeps terms and prints them as tokens that are read back from the svg/tikz text; paths fork on coordinate comparisons; every curve of a plotted function lies on its graph for every curve parameter and coefficient. Element diagrams and function plots run with symbolic positions, directions and scales on a picture that records what it is asked to draw; z3 refutes positions for which an arrow is moved aside without sharing its point, or a plotted basis function that differs from the one named.",
"C26": "Histories of queries (pairs, chains, other objects) in processes of their own; answers as terms in symbolic points, coefficients and cells compared with the answer of a first query. Most terms agree as written; the solver decides the rest.",
"C15": "create_element, create_reference and add_element run with a symbolic integer order (an int whose comparisons fork the path), symbolic vertices and symbolic limits, constructors replaced by recording stand-ins; acceptance compared with an independent table of documented ranges for all integers; elements made by every alias and from their own report compared at all points.",
"C16": "Generic function plus a generic perturbation vanishing (with its derivatives) on the sub-entity: the dof must not change; points/integration domains and counts vs the table of sub-entities; positions on DOF diagrams decided to lie in the sub-entity; functions of barycentric dual elements vanish on the boundary edges away from the vertex they are attached to.",
"C18": "Every functional class constructed on symbolic data applied to generic functions vs the definition of its type; linearity with symbolic weights; reported directions.",
"C20": "Sum of the basis functions at a symbolic point = 1; Bernstein functions equal their formula, bounds by the solver on the barycentric simplex.",
"C21": "Products of the reported factors at a symbolic point vs the element's own functions; duality for the dear cases.",
"C05": "Mappings run on a generic polynomial function and symbolic affine maps; kept quantities (directional components at matching points, volume factors) and both round trips compared for every map, point, direction and coefficient.",
"C08": "Every operator and calculus operation on piecewise functions with symbolic coefficients, result on each sub-cell (found by its centroid) against plain term arithmetic; tiling of macro elements as linear inequalities over all points; traces on shared sub-cell boundaries; evaluation at symbolic points by path exploration and integrals shared with C11 and C06.",
"C17": "Tables at symbolic points in every order against values of the basis functions; float tables by coefficients.",
"C19": "Cells with symbolic vertices: measures through squares, unit vectors through the squared length, sub-entity vertices, tangents and normals by direction and orientation. Non-affine 3D volumes are known findings.",
"C22": "maximum_degree runs with symbolic integer exponents (forked on comparisons); symbolic coefficients in element spaces; expected degree is the smallest full space.",
"C23": "Comparison of functions with symbolic coefficients forks on each comparison; every path's answer must agree with equality of coefficients; hashes and iteration too.",
"C25": "Lattices on cells with symbolic vertices against the regular lattice mapped by barycentric coordinates; containment and distinctness by the solver; lines as neighbour pairs.",
"C27": "map_to_cell on cells with symbolic vertices, evaluated at the image of a symbolic point, against an independent push-forward formula chosen by the continuity; elements created on cells must interpolate the pushed-forward space exactly.",
"C28": "Each set's polynomials as linear constraints: no non-zero coefficient vector vanishes (modulo the space it completes), no functional separates it from the named space; five choices of variables; serendipity indices over all integers.",
"C29": "Generic combination vanishes identically => coefficients vanish (linear arithmetic over the coefficients of all monomials / probe points); shapes; denominators do not vanish on the closed cell.",
"C30": "The TeX written by get_tex / as_tex of real objects with symbolic points, vectors, weights and coefficients is read by an independent reader (lib/tex.py) and evaluated on a polynomial with symbolic coefficients; z3 refutes a difference from eval (or from the function). The explanations of the symbols are compared with the documented numbering.",
"C31": "The real self tests run under path-forking execution with one basis function, or one function of the neighbouring cell, replaced by itself plus a combination with symbolic coefficients: z3 decides that a path that passes implies no change (of the trace) and that a path that fails implies one.",
}
BUGS = {"b01": "C09", "b02": "C06", "b03": "C07", "b04": "C04", "b05": "C02 (after its spaces were also checked from the polynomial basis of dear elements)", "b07": "C10", "b08": "C15", "b09": "C18", "b10": "C30"}
