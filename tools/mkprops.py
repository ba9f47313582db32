"""Writes /verif/properties.jsonl (edit here, run, commit both)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=()):
    assert len(title) <= 80, title
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": list(observe), "hook_needed": None},
    })


prop("C01", "Basis functions are dual to the degrees of freedom",
     "For every element and every choice of coefficients, applying an element's degrees of freedom to the linear "
     "combination of its basis functions with those coefficients returns exactly those coefficients. There are as "
     "many basis functions as degrees of freedom, and the dual matrix, its inverse and the basis functions agree "
     "with each other.",
     ["inputs", "configurations"],
     "all real coefficient vectors; every element, variant, cell and (bounded) order the library documents",
     "tests evaluate a few degrees of freedom on a few basis functions and skip the higher orders in fast mode",
     ["symfem/finite_element.py", "symfem/functionals.py", "symfem/elements"],
     [("inverse of the dual matrix times the polynomial set", "CiarletElement.get_basis_functions")],
     ["create_element(...).get_basis_functions()", "dofs[i].eval"])
prop("C02", "Interpolation reproduces every polynomial of the documented space",
     "For every element whose space contains all polynomials (or vector or matrix polynomials) of some documented "
     "degree, interpolating any such polynomial, that is summing the basis functions weighted by the values of the "
     "degrees of freedom, gives back that polynomial exactly. The degrees the element reports for its largest full "
     "polynomial subspace and its smallest polynomial superspace are correct, and the span of an element's basis "
     "functions is the space its family defines.",
     ["inputs", "configurations"],
     "all coefficients of the polynomial and all points; every element, variant and (bounded) order",
     "tests compare dimensions and spot values only; a wrong member of a space passes them",
     ["symfem/elements", "symfem/polynomials", "symfem/finite_element.py", "symfem/functionals.py", "symfem/moments.py"],
     [("polynomial bases", "symfem/polynomials"), ("reported degrees", "FiniteElement.polynomial_subdegree etc.")],
     ["get_basis_functions", "polynomial_subdegree", "polynomial_superdegree", "lagrange_subdegree"])
prop("C03", "Elements are conforming: traces agree across shared facets",
     "When two neighbouring cells share a facet, corresponding basis functions of an element of a given continuity "
     "class have the same trace (value, tangential or normal component, derivative, matrix components) at every "
     "point of the facet. Basis functions that are not associated with the facet or its sub-entities have zero "
     "trace on it, and this holds whichever facets of the two cells are glued (elements of unequal facet orders only where the orders match; elements defined on rectangles on rectangular meshes). Functions defined piecewise on a subdivided cell (macro elements, barycentric dual elements) are as continuous across the inner facets.",
     ["inputs", "configurations"],
     "all points of the facet, all facet pairs of the cell; every element with a documented continuity, bounded order",
     "tests check one neighbouring pair of cells at a fixed low order and skip orders above that in fast mode",
     ["symfem/elements", "symfem/finite_element.py", "symfem/mappings.py", "symfem/functionals.py"],
     [("DOFs attached to sub-entities", "functionals"), ("push-forward of basis functions", "CiarletElement.map_to_cell")],
     ["get_basis_functions", "map_to_cell", "continuity", "entity_dofs"])
prop("C04", "Cell maps take reference cells onto cells and their inverses invert them",
     "The map from a reference cell to a cell takes each vertex, edge and face of the reference to the matching "
     "vertex, edge and face of the cell, for any vertices and in any allowed geometric dimension. Whenever the map "
     "is affine and the cell is non-degenerate, the inverse map composed with it is the identity in both orders.",
     ["inputs"],
     "all real vertex coordinates (non-degenerate, affine where an inverse exists) and all points, geometric dimension 1-3",
     "tests check the maps for a handful of fixed cells",
     ["symfem/references.py"],
     [("map builders", "Reference.get_map_to / get_inverse_map_to and the self maps")],
     ["Reference.get_map_to", "Reference.get_inverse_map_to", "get_map_to_self", "get_inverse_map_to_self"])
prop("C05", "Push-forwards preserve what they promise and are undone by their inverses",
     "Mapping any function from one cell to another and then applying the inverse mapping gives the function back, "
     "for every mapping type. Identity mappings keep values, the covariant mapping keeps tangential line integrals, "
     "the contravariant mapping keeps fluxes, the L2 mapping keeps integrals, and the double mappings keep "
     "tangential-tangential or normal-normal components and traces as named.",
     ["inputs"],
     "all affine cell maps (symbolic vertices), all function values, cells of dimension 1-3 (and embedded where supported)",
     "tests map a few functions between a few cells",
     ["symfem/mappings.py"],
     [("mapping functions", "symfem/mappings.py")],
     ["symfem.mappings.*", "symfem.mappings.get_mapping", "FiniteElement.map_to_cell"])
prop("C06", "Integration is exact on every cell",
     "The integral of any function over a cell equals its true integral: that of any polynomial over the reference "
     "cell, and by change of variables over any affine cell, facet or edge in any geometric dimension. Integration "
     "is linear, additive over sub-cells, and works the same for scalar, vector component, matrix component and "
     "piecewise functions and for any choice of variables.",
     ["inputs"],
     "all polynomial coefficients up to a degree bound and all (symbolic) cell vertices",
     "tests integrate a few functions over a few cells",
     ["symfem/functions.py", "symfem/piecewise_functions.py", "symfem/references.py"],
     [("pull-back and iterated integration", "ScalarFunction.integral"), ("limits", "Reference.integration_limits")],
     ["AnyFunction.integral", "Reference.integration_limits", "Reference.volume"])
prop("C07", "Point-location predicates agree with the geometry",
     "A cell reports that it contains a point exactly when the point lies in the closed cell, and likewise for the "
     "tests whether a point is a vertex, lies on an edge or lies on a face. The intersection of two cells is "
     "the contained one when one contains the other and nothing when they have no interior in common; what cannot be decided is refused.",
     ["inputs"],
     "all points and all (non-degenerate) cells for which the predicate is implemented; every way two cells can share vertices",
     "tests probe a few points of fixed cells",
     ["symfem/references.py", "symfem/geometry.py"],
     [("predicates", "Reference.contains/at_vertex/on_edge/on_face"), ("point in cell", "symfem/geometry.py")],
     ["Reference.contains", "Reference.on_edge", "Reference.on_face", "Reference.intersection"])
prop("C08", "Piecewise functions act cell by cell",
     "Evaluating, combining, differentiating, integrating, indexing or mapping a piecewise function gives on each "
     "sub-cell the result for the piece that lives there, for every point. The sub-cells of macro elements tile the "
     "cell, and their basis functions agree on shared sub-cell boundaries to the continuity they claim.",
     ["inputs", "configurations"],
     "all points of the cell and all coefficients; every operation; every macro element",
     "tests evaluate piecewise functions at a few points",
     ["symfem/piecewise_functions.py", "symfem/geometry.py", "symfem/elements"],
     [("piece selection", "PiecewiseFunction.get_piece"), ("piecewise operators", "symfem/piecewise_functions.py")],
     ["PiecewiseFunction"])
prop("C09", "Function arithmetic is pointwise arithmetic",
     "Adding, subtracting, negating, multiplying, dividing, raising to powers, and taking dot, cross and matrix "
     "products, transposes, determinants, indices and slices of functions gives at every point the value obtained by "
     "doing the same to the values. This includes mixing functions with plain numbers, vectors and matrices, on either side.",
     ["inputs"],
     "all entries (symbolic) and all shapes up to 3x3 including non-square",
     "tests use fixed functions and mostly square shapes",
     ["symfem/functions.py", "symfem/basis_functions.py"],
     [("operators", "ScalarFunction/VectorFunction/MatrixFunction")],
     ["AnyFunction operators"])
prop("C10", "Differential operators compute the true derivatives",
     "Partial and directional derivatives, gradient, divergence, curl, and second derivatives of functions equal the "
     "classical operators at every point, for every smooth function, in one, two and three dimensions. They are linear, "
     "satisfy the product rule, and commute with the usual identities (the curl of a gradient and the divergence of a curl vanish).",
     ["inputs"],
     "all polynomials up to a degree bound (symbolic coefficients), all points and directions",
     "tests differentiate a few polynomials",
     ["symfem/functions.py", "symfem/basis_functions.py", "symfem/piecewise_functions.py"],
     [("derivatives", "AnyFunction.diff/directional_derivative/jacobian_component/jacobian/grad/div/curl/laplacian/norm")],
     ["AnyFunction.diff", "grad", "div", "curl", "laplacian"])
prop("C11", "Substitution into functions is simultaneous and complete",
     "Substituting values or expressions for the variables of a scalar, vector, matrix, basis or piecewise function "
     "replaces every occurrence at once, so that the replacement of one variable is never substituted again. "
     "Substituting a point gives the value there (for a piecewise function, that of a piece containing it), and functions that do not contain a variable are unchanged.",
     ["inputs"],
     "all replacement expressions in the same variables (symbolic), every function type, every accepted form of the arguments",
     "tests only substitute numbers",
     ["symfem/functions.py", "symfem/basis_functions.py", "symfem/piecewise_functions.py"],
     [("simultaneous substitution", "AnyFunction.subs")],
     ["AnyFunction.subs", "AnyFunction.__call__"])
prop("C12", "Quadrature rules are exact to their nominal degree",
     "Every one-dimensional rule returns points in the unit interval in increasing order with weights that sum to one and integrates every polynomial "
     "up to the degree of its family exactly (Gauss-Legendre 2n-1, Gauss-Lobatto-Legendre 2n-3, Radau 2n-2, equispaced 1). "
     "The Lobatto and Radau rules contain the endpoints they are named for.",
     ["inputs", "configurations"],
     "all polynomial coefficients up to the nominal degree; every rule and supported number of points",
     "tests compare a few rules against stored values",
     ["symfem/quadrature.py"],
     [("rules", "symfem/quadrature.py")],
     ["symfem.quadrature.get_quadrature"])
prop("C13", "Orthogonal, Lobatto and dual polynomial bases are what they claim",
     "The orthonormal bases on every cell are orthonormal and span the full polynomial space of the cell of each degree, "
     "and the one-dimensional orthogonal bases satisfy their defining integrals. The Lobatto bases vanish at both ends of the interval, the dual Lobatto "
     "bases are biorthogonal to them, and l2 duals of a polynomial set are biorthogonal to it. The derivatives returned with a basis are the derivatives of its functions.",
     ["inputs", "configurations"],
     "all coefficients of combinations of the basis functions; all supported cells and bounded degree",
     "tests check a few degrees",
     ["symfem/polynomials/legendre.py", "symfem/polynomials/lobatto.py", "symfem/polynomials/dual.py"],
     [("recurrences", "symfem/polynomials/legendre.py"), ("mass matrix inverse", "symfem/polynomials/dual.py")],
     ["orthogonal_basis", "orthonormal_basis", "lobatto_basis", "lobatto_dual_basis", "l2_dual"])
prop("C14", "The on-disk matrix cache never changes a result",
     "Whatever was written to the cache, by whom and however a write was interrupted, an element computes the same basis "
     "functions as without a cache; a matrix is read back exactly as it was stored, and a file that does not hold a complete matrix "
     "of the right size is ignored. Distinct elements never share a cache entry.",
     ["crash_points", "inputs", "histories", "configurations"],
     "every prefix of a written entry, every matrix content (symbolic), every pair of elements",
     "the test only checks that an entry is written and read once",
     ["symfem/caching.py", "symfem/finite_element.py"],
     [("serialisation", "symfem/caching.py"), ("use", "CiarletElement.get_dual_matrix")],
     ["symfem.caching", "CiarletElement.get_dual_matrix", "create_element"])
prop("C15", "Element creation admits exactly the documented elements and orders",
     "For every cell, family name and integer order, creating an element succeeds exactly when the order lies in the range the family documents for that cell, and otherwise raises an "
     "error rather than returning another element. The element created has the requested cell, order and family, every alias of a family gives the "
     "same element, and it can be recreated from what it reports about itself.",
     ["inputs", "configurations"],
     "all integer orders (symbolic), all names and cells",
     "tests create each element at a few valid orders",
     ["symfem/create.py", "symfem/finite_element.py", "symfem/elements"],
     [("registry and order test", "symfem/create.py, order_is_allowed")],
     ["symfem.create_element", "symfem.add_element"])
prop("C16", "Degrees of freedom are attached to the right sub-entities",
     "Every degree of freedom of an element belongs to exactly one sub-entity of the cell, and sub-entities of the same kind carry the same number of them (transition and Fortin-Soulie "
     "elements excepted, whose definition treats edges differently). The value of a degree of freedom depends only on the function at its sub-entity. A point-based degree of freedom sits on its sub-entity, an integral one integrates over it, and the counts agree with those the element reports. The position at which a degree of freedom is drawn is in its sub-entity, including those of enriched and directly defined elements. Functions of barycentric dual elements are attached to every second vertex of the polygon, from the first, or to the cell if they are constant; apart from the constant one, their traces (values, fluxes, tangential components) vanish on sides of the polygon that do not reach that vertex or its neighbours, and their directions are along the line to the centre.",
     ["inputs", "configurations"],
     "all elements, variants and (bounded) orders; all polynomial functions applied to the degrees of freedom",
     "tests count degrees of freedom for a few elements",
     ["symfem/finite_element.py", "symfem/functionals.py", "symfem/elements"],
     [("entity attachment", "BaseFunctional.entity, FiniteElement.entity_dofs")],
     ["entity_dofs", "dof_entities", "dofs[i].entity", "dof_plot_positions", "dof_directions"])
prop("C17", "Tabulation lists the basis functions at the points in the requested order",
     "Tabulating an element at any list of points returns, in each of the documented orderings, exactly the values of each "
     "basis function (and each component) at each point, and symbolic points are treated like numerical ones.",
     ["inputs", "configurations"],
     "all (symbolic) point coordinates; every ordering; scalar, vector and matrix valued elements",
     "tests compare orderings at a few points",
     ["symfem/finite_element.py"],
     [("reordering", "FiniteElement.tabulate_basis")],
     ["FiniteElement.tabulate_basis"])
prop("C18", "Degrees of freedom evaluate what their type says",
     "Every degree of freedom is a linear functional of its argument, and its value is the point value, derivative, component, moment or integral "
     "that its type names, on the named sub-entity. Where the type involves a direction vector, the one it reports is the one it uses.",
     ["inputs"],
     "all polynomial functions up to a degree bound (symbolic coefficients) and all symbolic points and directions",
     "tests only use degrees of freedom through elements",
     ["symfem/functionals.py", "symfem/moments.py"],
     [("functionals", "symfem/functionals.py")],
     ["BaseFunctional.eval", "dof_direction"])
prop("C19", "Geometric quantities of cells are correct",
     "Volumes, Jacobians, midpoints, tangents, normals, axes and sub-entities of a cell are the geometric ones for every position of its "
     "vertices: tangents are unit vectors along the edge (from its first vertex to its second), normals are unit vectors orthogonal to the cell and oriented by the order of its "
     "vertices, sub-entities have the vertices of the cell in the documented numbering, and volumes are those of the cell (of affine cells for hexahedra, prisms and pyramids).",
     ["inputs"],
     "all (symbolic, non-degenerate) vertex coordinates in one to three dimensions",
     "tests check default cells only",
     ["symfem/references.py"],
     [("geometry", "Reference.volume/jacobian/midpoint/tangent/normal/sub_entity")],
     ["Reference.volume", "jacobian", "midpoint", "tangent", "normal", "sub_entity"])
prop("C20", "Bernstein and Lagrange functions partition unity",
     "At every point of the cell the basis functions of Lagrange elements with point evaluation degrees of freedom, and of Bernstein elements, sum to one. "
     "Bernstein functions are non-negative and lie between zero and one, and those of each sub-entity of the cell are the classical Bernstein polynomials that belong to it. Dual Lagrange functions on dual polygons also sum to one, and "
     "(rotated) Buffa-Christiansen functions have the same flux out of (circulation around) every triangle of the polygon.",
     ["inputs", "configurations"],
     "all points of the cell; all cells and (bounded) orders",
     "tests check values at a few points",
     ["symfem/elements/bernstein.py", "symfem/elements/lagrange.py", "symfem/elements/q.py", "symfem/elements/dual.py"],
     [("basis functions", "symfem/elements")],
     ["get_basis_functions"])
prop("C21", "Tensor factorisations reproduce the element",
     "Whenever an element on a quadrilateral or hexahedron can be factorised, the tensor products of its factors' basis functions, "
     "placed by the reported permutation, equal the element's own basis functions at every point. An element that cannot be factorised says so.",
     ["inputs", "configurations"],
     "all points; every element, variant and (bounded) order that offers a factorisation",
     "tests check low orders only",
     ["symfem/finite_element.py", "symfem/elements/q.py", "symfem/elements/lagrange.py"],
     [("factorisation", "get_tensor_factorisation")],
     ["get_tensor_factorisation"])
prop("C22", "Reported polynomial degrees of functions are correct",
     "The degree a function reports on a cell is the smallest one whose full polynomial space on that cell contains it: total degree on simplices, degree per variable on "
     "tensor-product cells, and the corresponding mixed degree on prisms.",
     ["inputs"],
     "all polynomials within a degree bound (presence of every monomial symbolic)",
     "tests check a few functions",
     ["symfem/functions.py"],
     [("degree", "AnyFunction.maximum_degree")],
     ["AnyFunction.maximum_degree"])
prop("C23", "Equality of functions and cells means equality",
     "Comparing two functions, cells or nested lists of values says equal exactly when they are equal everywhere, and objects that are "
     "equal have equal hashes; comparison never modifies or depends on the form in which the value is written, and iterating over a vector visits every entry in order however often it is done, nested iterations included.",
     ["inputs", "histories"],
     "all values (symbolic entries), all shapes, nested and concurrent iterations",
     "tests compare equal values only",
     ["symfem/functions.py", "symfem/references.py", "symfem/utils.py", "symfem/piecewise_functions.py"],
     [("equality", "__eq__/__hash__/allequal")],
     ["symfem.utils.allequal", "AnyFunction.__eq__", "Reference.__eq__"])
prop("C24", "Pictures place what they draw where it was asked for",
     "Every line, dot, label, filled area or bezier curve added to a picture appears in the written image at the affine image of its coordinates, inside the image, "
     "in each output format, with the requested scaling or size. Writing several formats at once writes all of them. The arrow of a degree of freedom starts at its marker and points along its direction, and the plot of a function is made of curves on its graph or of arrows along its values. The diagram of an element has each edge and face of the cell and each degree of freedom once, in the colour of its entity, at its position and along its direction, moved aside only if it shares its position; the plot of a basis function has that function, scaled so that the largest value is one, with its degree of freedom and entity marked. The diagram of a cell shows it once for each dimension, side by side, with every sub-entity of that dimension numbered at its midpoint.",
     ["inputs", "configurations"],
     "all coordinates (symbolic), widths, heights, scales and axes orientations",
     "tests only check that files are produced",
     ["symfem/plotting.py"],
     [("layout", "Picture.compute_scale/map_vector/to_2d"), ("diagrams", "FiniteElement.plot_dof_diagram/plot_basis_function"), ("functions", "AnyFunction.plot"), ("cells", "Reference.plot_entity_diagrams")],
     ["symfem.plotting.Picture"])
prop("C25", "Lattices are the interior or closed lattices they name",
     "Every lattice a cell makes is the requested regular lattice mapped to that cell: interior lattices lie strictly inside, closed ones inside, all points "
     "are distinct and there are as many as the order implies. The lines returned with a lattice join exactly the neighbouring points of the lattice, each pair once, and the float versions hold the same points.",
     ["inputs", "configurations"],
     "all (symbolic) cell vertices, bounded number of points",
     "tests check default cells and a few sizes",
     ["symfem/references.py"],
     [("lattices", "Reference.make_lattice and make_lattice_with_lines")],
     ["Reference.make_lattice", "make_lattice_with_lines"])
prop("C26", "Queries do not change an element, and order of queries does not matter",
     "Asking an element, function, cell or degree of freedom for anything it offers leaves it and all other objects unchanged: the answers to any sequence of "
     "queries are the same whatever was asked before. Evaluating a function at every point after such a sequence gives the same value as before it.",
     ["histories"],
     "all sequences of queries up to a bounded length, all points",
     "tests ask each query once on a fresh object",
     ["symfem/finite_element.py", "symfem/functions.py", "symfem/references.py", "symfem/functionals.py"],
     [("memoised state", "CiarletElement._basis_functions, _dual_inv, Reference._map_to_self")],
     ["FiniteElement", "Reference"])
prop("C27", "Elements on arbitrary cells agree with the push-forward from the reference",
     "Mapping the basis functions of an element to any affine cell gives, in the same order, the push-forward of each basis function that keeps what the element is conforming in: values "
     "for scalar and discontinuous elements, tangential components for H(curl), normal ones for H(div), and tangential-tangential or normal-normal ones for the matrix-valued elements. Elements with derivative degrees of freedom "
     "give the functions dual to values and derivatives in global directions on that cell. An element created directly on a non-default cell spans the push-forward of the reference element's space and its functions are dual to its degrees of freedom there.",
     ["inputs", "configurations"],
     "all (symbolic) cell vertices and all points; bounded orders",
     "tests use a handful of fixed cells",
     ["symfem/finite_element.py", "symfem/mappings.py", "symfem/references.py"],
     [("push-forward", "map_to_cell"), ("cells as references", "create_element(vertices=...)")],
     ["create_element(..., vertices=...)", "map_to_cell"])
prop("C28", "Polynomial sets are bases of the spaces they name",
     "Every polynomial set the library generates (full, homogeneous, tensor-product, prism, pyramid, serendipity, Nedelec, Raviart-Thomas and so on) is linearly independent and spans exactly the space of that name, "
     "for every dimension and degree.",
     ["inputs", "configurations"],
     "all coefficients of a combination; every set, dimension and bounded degree",
     "tests check the size of a few sets",
     ["symfem/polynomials/polysets.py"],
     [("polynomial sets", "symfem/polynomials/polysets.py")],
     ["symfem.polynomials.*"])
prop("C29", "Basis functions of every element are linearly independent and regular",
     "Basis functions of every element, including those defined directly and on dual polygons, are linearly independent, have the element's value "
     "shape, and take finite values at every point of the closed cell (enriched Galerkin sets, which are dependent on a single cell by definition, excepted).",
     ["inputs", "configurations"],
     "all coefficients; every element and bounded order",
     "tests check values at a few points",
     ["symfem/finite_element.py", "symfem/elements"],
     [("bases", "get_basis_functions")],
     ["get_basis_functions"])
prop("C30", "What is written in TeX is what is meant",
     "The TeX description of every degree of freedom denotes the functional it applies, for every function, point, direction and weight, and explains each "
     "symbol it uses. The TeX of a scalar, vector, matrix or piecewise function denotes that function at every point, and names the cells its pieces live on.",
     ["inputs", "configurations"],
     "all polynomials up to a degree bound, all points, directions and weights; every type of functional and the elements within a cost bound",
     "tests only print the descriptions",
     ["symfem/functionals.py", "symfem/functions.py", "symfem/piecewise_functions.py"],
     [("descriptions", "symfem/functionals.py"), ("functions", "as_tex")],
     ["BaseFunctional.get_tex", "AnyFunction.as_tex"])
prop("C31", "The self tests of an element accept it and reject what is wrong",
     "Running the tests an element offers succeeds for an element that is right. They fail if a basis function is replaced by any other combination of the basis functions, so that "
     "degrees of freedom and basis functions are no longer dual, and if a function of the neighbouring cell that the continuity test builds is changed by anything that alters its trace "
     "(value, derivatives, normal or tangential component) on the shared facet, whichever sub-entity of that facet it belongs to; changes that do not alter the trace are accepted.",
     ["inputs", "configurations"],
     "all changes by combinations of the basis and by functions of degree one; elements on all cells within a cost bound",
     "tests only run the self tests on correct elements, on which a test that compares nothing also passes",
     ["symfem/finite_element.py"],
     [("self tests", "FiniteElement.test, test_continuity, CiarletElement.test_functionals")],
     ["FiniteElement.test", "FiniteElement.test_continuity", "CiarletElement.test_functionals"])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
