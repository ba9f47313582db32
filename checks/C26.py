"""C26: queries do not change an element, and their order does not matter."""
import os
import pickle
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.realpath(__file__))))
from lib import boot, elements, fun, harness, runner, smt, symexec  # noqa: E402,F401

import sympy  # noqa: E402

import symfem  # noqa: E402
from symfem import functions, plotting  # noqa: E402
from symfem.functionals import BaseFunctional  # noqa: E402
from symfem.piecewise_functions import PiecewiseFunction  # noqa: E402
from symfem.references import Reference  # noqa: E402

guard, sym = harness.guard, harness.sym
R = sympy.Rational
X = fun.X


# ---------------------------------------------------------------- answers as (shape, terms)
def norm(v, terms):
    """A hashable description of an answer; the terms in it go to the list."""
    if isinstance(v, str):
        # decimal numbers in texts up to rounding
        return repr(re.sub(r"-?\d+\.\d+(e-?\d+)?", lambda m: f"{round(float(m.group(0)), 6) + 0.0}", v))
    if v is None or isinstance(v, bool):
        return repr(v)
    if isinstance(v, PiecewiseFunction):
        return ("pieces", tuple((norm(s, terms), norm(f, terms)) for s, f in v.pieces.items()))
    if isinstance(v, functions.AnyFunction):
        return ("function", v.is_scalar, v.is_vector, v.is_matrix, norm(v.as_sympy(), terms))
    if isinstance(v, Reference):
        return ("cell", v.name, v.tdim, v.gdim, norm(v.vertices, terms), norm(v.axes, terms), norm(v.origin, terms), norm(v.edges, terms))
    if isinstance(v, BaseFunctional):
        return ("dof", type(v).__name__, v.entity, norm(v.reference, terms))
    if isinstance(v, sympy.MatrixBase):
        return ("matrix", v.shape, tuple(norm(i, terms) for i in v))
    if isinstance(v, sympy.Expr):
        terms.append(v)
        return "term"
    if isinstance(v, (int, float)):
        terms.append(sympy.sympify(v))
        return "term"
    if isinstance(v, dict):
        return ("dict", tuple((norm(a, terms), norm(b, terms)) for a, b in v.items()))
    if isinstance(v, (list, tuple)):
        return ("list", tuple(norm(i, terms) for i in v))
    if isinstance(v, sympy.Basic):
        return ("sympy", str(v))
    return ("object", type(v).__name__)


def answer(q, obj):
    """(shape, terms) of the answer; arguments that the query changed are part of it."""
    try:
        v = q(obj)
    except Exception as e:  # noqa: BLE001 - refusing to answer is an answer
        return ("raises", type(e).__name__), []
    terms = []
    return norm(v, terms), terms


def keep(fn, *args):
    """fn(*args), and whether the arguments are as they were."""
    before = []
    shape = norm(list(args), before)
    out = fn(*args)
    after = []
    if norm(list(args), after) != shape or after != before:
        return "ARGUMENT CHANGED"
    return out


def elsewhere(fn):
    """What fn() returns in a process of its own, so that nothing it leaves behind is seen by others."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                data = pickle.dumps(fn())
            except Exception as e:  # noqa: BLE001
                data = pickle.dumps(("failed", f"{type(e).__name__}: {e}"))
            with os.fdopen(w, "wb") as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise smt.Inconclusive("a process ended without an answer")
    out = pickle.loads(data)
    if isinstance(out, tuple) and out and out[0] == "failed":
        raise smt.Inconclusive(out[1])
    return out


# ---------------------------------------------------------------- histories
def differences(got, want, label):
    """What a history changed: a message, or the pairs of terms that are not written the same."""
    if "ARGUMENT CHANGED" in repr(got[0]):
        return f"{label}: changes its arguments"
    if got[0] != want[0] or len(got[1]) != len(want[1]):
        return f"{label}: answers {str(got[0])[:120]} instead of {str(want[0])[:120]}"
    return [(a, b) for a, b in zip(got[1], want[1]) if a != b]


def histories(make, queries, what, part=(0, 1), others=()):
    """After any other query, and after long chains of them, every query gives the answer it gives when asked first."""
    rep = harness.Rep(max_violations=3)
    names = list(queries)
    base = {n: elsewhere(lambda: answer(queries[n], make())) for n in names}

    def follow(first):
        """What every query answers right after `first`: on the same object, and (a few) on one made afterwards."""
        obj = make()
        answer(queries[first], obj)
        out = []
        for k, n in enumerate(names):
            # the state after `first` is copied for each query
            out.append(elsewhere(lambda: differences(answer(queries[n], obj), base[n], f"{what}: {n} after {first}")))
            if n != first and (k + names.index(first)) % 4 == 0:
                out.append(elsewhere(lambda: differences(answer(queries[n], make()), base[n], f"{what}: {n} on another object after {first}")))
        return out

    def chain(order):
        obj = make()
        return [differences(answer(queries[n], obj), base[n], f"{what}: {n} after {i} queries") for i, n in enumerate(order)]

    results = []
    # part None: chains only
    mine = names[part[0]::part[1]] if part else []
    for n in mine:
        results += elsewhere(lambda: follow(n))
    if not part or part[0] == 0:
        half = len(names) // 2
        for order in (names, names[::-1], names[half:] + names[:half], names[::2] + names[1::2] + names[::2]):
            results += elsewhere(lambda: chain(order))
        for label, make2, queries2 in others:
            base2 = {n: elsewhere(lambda: answer(queries2[n], make2())) for n in queries2}

            def after():
                obj = make()
                for n in names:
                    answer(queries[n], obj)
                obj2 = make2()
                return [differences(answer(queries2[n], obj2), base2[n], f"{label}: {n} after all queries to {what}") for n in queries2]

            results += elsewhere(after)
    rep.info["obligations"] += len(results)
    rep.info["histories"] = len(results)
    rep.info["answers"] = sum(len(base[n][1]) for n in names)
    ctx = smt.Ctx()
    for r in results:
        if rep.full():
            return rep.result()
        if isinstance(r, str):
            rep.violate(r)
        elif r:
            a, b = [x for x, _ in r], [y for _, y in r]
            symbols = sorted(set().union(*[t.free_symbols for t in a + b]), key=str)

            def replay(mod):
                vals = {s: mod.get(s, R(1)) for s in symbols}
                return harness.differ([t.subs(vals) for t in a], [t.subs(vals) for t in b])

            rep.equal(a, b, f"{what}: the answer depends on earlier queries", guard(replay), ctx=ctx, symbols=symbols)
    # the terms of the answers themselves, as the solver sees them
    ga = [t for n in names for t in base[n][1]]
    again = [t for n in names for t in elsewhere(lambda: answer(queries[n], make()))[1]] if not part or part[0] == 0 else []
    if again and len(again) == len(ga):
        try:
            syms = sorted(set().union(*[t.free_symbols for t in ga]), key=str)
            rep.equal(again, ga, f"{what}: asked twice of new objects", guard(lambda mod: "answers differ"), ctx=smt.Ctx(), symbols=syms)
        except smt.Inconclusive:
            rep.info["terms compared as written"] = len(ga)
    return rep.result()


# ---------------------------------------------------------------- queries
PTS = [(sym("u0"), sym("u1"), sym("u2")), (sym("v0"), sym("v1"), sym("v2"))]
CELL1 = {1: ((1,), (3,)), 2: ((1, 0), (3, 1), (0, 2)), 3: ((1, 0, 0), (3, 1, 0), (0, 2, 0), (0, 1, 2))}
CELL2 = {1: ((-2,), (2,)), 2: ((0, 0), (0, 3), (1, 1)), 3: ((0, 0, 0), (0, 0, 2), (1, 0, 1), (0, 3, 1))}


def vertices(cell, which):
    td = {"interval": 1, "triangle": 2, "quadrilateral": 2, "tetrahedron": 3, "hexahedron": 3}[cell]
    v = [tuple(sympy.Integer(i) for i in p) for p in (CELL1 if which == 1 else CELL2)[td]]
    if cell == "quadrilateral":
        v.append(tuple(v[1][k] + v[2][k] - v[0][k] for k in range(2)))
    if cell == "hexahedron":
        o = v[0]
        ax = [tuple(a - b for a, b in zip(p, o)) for p in v[1:]]
        v = [tuple(o[k] + sum(b * a[k] for b, a in zip((i, j, m), ax)) for k in range(3)) for m in (0, 1) for j in (0, 1) for i in (0, 1)]
    return tuple(v)


def generic(shape, td, deg, tag):
    if shape == ():
        return functions.ScalarFunction(fun.P.gen(tag, td, deg).expr())
    if len(shape) == 1:
        return functions.VectorFunction([fun.P.gen(f"{tag}{i}", td, deg).expr() for i in range(shape[0])])
    return functions.MatrixFunction([[fun.P.gen(f"{tag}{i}{j}", td, deg).expr() for j in range(shape[1])] for i in range(shape[0])])


def picture_text(plot):
    got = []
    real = plotting.Picture.save

    def save(self, filename, plot_options={}):  # noqa: B006
        got.append(self.as_svg())

    plotting.Picture.save = save
    try:
        plot()
    finally:
        plotting.Picture.save = real
    return got


def element_queries(cell, td, shape, plots, maps, dual):
    pts = [p[:td] for p in PTS]
    q = {
        "basis": lambda e: e.get_basis_functions(),
        "factorised basis": lambda e: e.get_basis_functions(use_tensor_factorisation=True),
        "single function": lambda e: [e.get_basis_function(0).as_sympy(), e.get_basis_function(e.space_dim - 1).diff(X[0]).as_sympy()],
        "table": lambda e: keep(lambda p: e.tabulate_basis(p, "xyz,xyz"), pts),
        "table by component": lambda e: keep(lambda p: e.tabulate_basis(p, "xxyyzz"), pts[:1]),
        "float table": lambda e: e.tabulate_basis_float([[sympy.Float(0.25)] * td]),
        "polynomials": lambda e: e.get_polynomial_basis(),
        "names": lambda e: [e.name, e.order, e.init_kwargs(), e.lagrange_subdegree, e.polynomial_superdegree, e.space_dim, e.range_dim, e.maximum_degree],
        "entities": lambda e: [e.entity_dofs(d, i) for d in range(td + 1) for i in range(e.reference.sub_entity_count(d))] + [e.dof_entities()],
        "positions": lambda e: [e.dof_plot_positions(), e.dof_directions()],
        "cell": lambda e: [e.reference, e.reference.volume(), e.reference.get_map_to_self()],
        "factors": lambda e: e.get_tensor_factorisation(),
    }
    if dual:
        q["dual matrix"] = lambda e: e.get_dual_matrix()
        q["inverse matrix"] = lambda e: e.get_dual_matrix(inverse=True)
        q["dofs of a function"] = lambda e: [d.eval(generic(shape, td, 2, "f")) for d in e.dofs]
        q["dofs of another function"] = lambda e: [d.eval(generic(shape, td, 1, "g") * 3) for d in e.dofs]
        q["dof texts"] = lambda e: [d.get_tex() for d in e.dofs]
        q["dof points"] = lambda e: [[d.dof_point(), d.dof_direction(), d.adjusted_dof_point(), d.entity, d.mapping] for d in e.dofs]
    if maps:
        q["on a cell"] = lambda e: keep(e.map_to_cell, list(vertices(cell, 1)))
        q["on another cell"] = lambda e: keep(e.map_to_cell, list(vertices(cell, 2)))
    if plots:
        q["diagram"] = lambda e: picture_text(lambda: e.plot_dof_diagram("a.svg"))
        q["plot"] = lambda e: picture_text(lambda: e.plot_basis_function(0, "a.svg"))
    return q


def function_queries(td, make):
    tri = {1: "interval", 2: "triangle", 3: "tetrahedron"}[td]
    quad = {1: "interval", 2: "quadrilateral", 3: "hexahedron"}[td]
    p = [q[:td] for q in PTS]
    q = {
        "value": lambda f: f,
        "dx": lambda f: f.diff(X[0]),
        "dlast": lambda f: f.diff(X[td - 1]),
        "at a point": lambda f: keep(lambda a: f.subs(X[:td], a), list(p[0])),
        "at another point": lambda f: f.subs(X[:td], p[1]),
        "one variable": lambda f: f.subs(X[0], sympy.Integer(2)),
        "direction": lambda f: f.directional_derivative(tuple(sym(f"d{i}") for i in range(td))),
        "jacobian": lambda f: f.jacobian(td),
        "gradient": lambda f: f.grad(td),
        "divergence": lambda f: f.div(),
        "curl": lambda f: f.curl(),
        "norm": lambda f: f.norm(),
        "integral": lambda f: f.integral(symfem.create_reference(tri), X),
        "integral elsewhere": lambda f: f.integral(symfem.create_reference(tri, vertices(tri, 1)), X),
        "integral over a box": lambda f: f.integral(symfem.create_reference(quad), X),
        "transpose": lambda f: f.transpose(),
        "determinant": lambda f: f.det(),
        "sum": lambda f: f + f,
        "difference": lambda f: f - make(),
        "multiple": lambda f: f * sym("k"),
        "quotient": lambda f: f / 3,
        "negative": lambda f: -f,
        "power": lambda f: f**2,
        "equal": lambda f: f == make(),
        "tex": lambda f: f.as_tex(),
        "text": lambda f: repr(f),
        "shape": lambda f: f.shape,
        "entries": lambda f: [i for i in f],
        "degree": lambda f: f.maximum_degree(symfem.create_reference(tri)),
        "other degree": lambda f: f.maximum_degree(symfem.create_reference(quad)),
    }
    return q


def plot_queries(td):
    cell = {1: "interval", 2: "triangle"}[td]
    other = {1: "interval", 2: "quadrilateral"}[td]

    def plot(f, c, scale, n=4, v=None):
        img = plotting.Picture(svg_metadata="")
        f.plot_values(symfem.create_reference(c) if v is None else symfem.create_reference(c, v), img, scale, n)
        return [img.as_svg(), len(img.elements)]

    return {
        "plot": lambda f: plot(f, cell, sympy.Integer(1)),
        "taller plot": lambda f: plot(f, cell, sympy.Integer(2)),
        "finer plot": lambda f: plot(f, cell, sympy.Integer(1), 6),
        "plot elsewhere": lambda f: plot(f, cell, sympy.Integer(1), 4, vertices(cell, 1)),
        "plot on another cell": lambda f: plot(f, other, sympy.Integer(1)),
        "float version": lambda f: f.with_floats(),
        "derivative": lambda f: f.diff(X[0]),
        "value": lambda f: f,
    }


def cell_queries(cell, td):
    low = tuple(sym(f"w{i}") for i in range(td))
    mid = tuple(R(1, 5) for _ in range(td))
    out = tuple(R(6, 5) for _ in range(td))
    q = {
        "map": lambda r: keep(r.get_map_to, [tuple(i for i in p) for p in vertices(cell, 1)]) if cell in ("interval", "triangle", "quadrilateral", "tetrahedron", "hexahedron")
        else r.get_map_to(r.vertices),
        "other map": lambda r: r.get_map_to(vertices(cell, 2)) if cell in ("interval", "triangle", "quadrilateral", "tetrahedron", "hexahedron") else None,
        "inverse map": lambda r: r.get_inverse_map_to(vertices(cell, 1)) if cell in ("interval", "triangle", "quadrilateral", "tetrahedron", "hexahedron") else None,
        "map to itself": lambda r: r.get_map_to_self(),
        "inverse map to itself": lambda r: r.get_inverse_map_to_self(),
        "volume": lambda r: r.volume(),
        "midpoint": lambda r: r.midpoint(),
        "jacobian": lambda r: r.jacobian(),
        "axes": lambda r: r.scaled_axes(),
        "tangent": lambda r: r.tangent(),
        "normal": lambda r: r.normal(),
        "facets": lambda r: [r.sub_entity(td - 1, i) for i in range(r.sub_entity_count(td - 1))],
        "reference facets": lambda r: [r.sub_entity(td - 1, i, True) for i in range(r.sub_entity_count(td - 1))],
        "sub-entities": lambda r: [r.sub_entities(d) for d in range(td + 1)] + [r.sub_entities(codim=1)],
        "vertices": lambda r: [r.vertices, r.clockwise_vertices, r.reference_vertices, r],
        "lattice": lambda r: r.make_lattice(3),
        "finer lattice": lambda r: r.make_lattice(4),
        "lattice with lines": lambda r: r.make_lattice_with_lines(3),
        "float lattice": lambda r: r.make_lattice_float(2),
        "default": lambda r: r.default_reference(),
        "limits": lambda r: r.integration_limits(),
        "limits in x": lambda r: r.integration_limits(X),
        "point": lambda r: r.get_point(low),
        "inside": lambda r: [r.contains(mid), r.contains(out)],
        "at vertex": lambda r: [r.at_vertex(r.vertices[0]), r.at_vertex(mid), r.on_edge(mid), r.on_edge(r.vertices[-1]), r.on_face(mid)],
        "polynomials": lambda r: keep(r.map_polyset_from_default, [X[0], X[0] * X[td - 1], sympy.Integer(1)]),
        "order of drawing": lambda r: [r.z_ordered_entities(), r.z_ordered_entities_extra_dim()],
        "diagram": lambda r: picture_text(lambda: r.plot_entity_diagrams("a.svg")),
        "equality": lambda r: [r == r.default_reference(), hash(r) == hash(r)],
        "intersection": lambda r: r.intersection(r.default_reference()),
    }
    return q


# ---------------------------------------------------------------- jobs
ELEMENTS = [
    # cell, family, order, keywords, plots, maps
    ("interval", "P", 2, {}, True, True), ("interval", "P", 2, {"variant": "legendre"}, False, True), ("interval", "Hermite", 3, {}, False, True),
    ("interval", "Bernstein", 2, {}, False, True), ("interval", "P1-iso-P2", 1, {}, False, False),
    ("triangle", "P", 1, {}, True, True), ("triangle", "P", 2, {}, False, True), ("triangle", "vP", 1, {}, True, True), ("triangle", "N1curl", 1, {}, True, True),
    ("triangle", "RT", 1, {}, False, True), ("triangle", "Regge", 0, {"variant": "point"}, False, True), ("triangle", "HHJ", 0, {}, False, True),
    ("triangle", "CR", 1, {}, False, True), ("triangle", "Taylor", 1, {}, False, False), ("triangle", "bubble", 3, {}, False, True),
    ("triangle", "bubble enriched Lagrange", 1, {}, False, True), ("triangle", "EG", 1, {}, False, False), ("triangle", "Morley", 2, {}, False, True),
    ("triangle", "Bernstein", 1, {}, False, True), ("triangle", "P1-iso-P2", 1, {}, False, False),
    ("quadrilateral", "Q", 1, {}, True, True), ("quadrilateral", "Q", 2, {}, False, True), ("quadrilateral", "Qcurl", 1, {}, False, True),
    ("quadrilateral", "serendipity", 1, {}, False, True), ("quadrilateral", "Q", 2, {"variant": "legendre"}, False, True),
    ("tetrahedron", "P", 1, {}, False, True), ("tetrahedron", "N1curl", 1, {}, False, True), ("hexahedron", "Q", 1, {}, False, True),
    ("triangle", "transition", 1, {"edge_orders": [1, 2, 1]}, False, False),
]
SLOW = [("quadrilateral", "Q", 2, {"variant": "legendre"}), ("interval", "Bernstein", 2, {}), ("tetrahedron", "N1curl", 1, {}), ("interval", "P", 2, {"variant": "legendre"})]
THOROUGH = [
    ("triangle", "N2curl", 1, {}, True, True), ("triangle", "BDM", 1, {}, True, True), ("triangle", "Hermite", 3, {}, True, True), ("triangle", "P", 3, {}, True, True),
    ("triangle", "vP", 2, {}, True, True), ("triangle", "P1 macro", 1, {}, False, False), ("triangle", "Regge", 1, {"variant": "point"}, False, True),
    ("quadrilateral", "Qdiv", 1, {}, True, True), ("quadrilateral", "serendipity", 2, {}, True, True), ("quadrilateral", "BDMcf", 1, {}, False, True),
    ("tetrahedron", "RT", 1, {}, False, True), ("tetrahedron", "P", 2, {}, True, True), ("hexahedron", "serendipity", 1, {}, False, True), ("prism", "P", 1, {}, False, False),
    ("triangle", "KMV", 1, {}, True, True), ("triangle", "Bernardi-Raugel", 1, {}, False, True), ("quadrilateral", "dPc", 1, {}, True, True),
]


def element(cell, fam, order, kw, plots, maps, part):
    def maker(cell, fam, order, kw):
        return lambda: symfem.create_element(cell, fam, order, **kw)

    def label(cell, fam, order, kw):
        return f"{fam} {order} on {cell} {kw or ''}".strip()

    others = []
    if not part or part[0] == 0:
        same = [o for o in ELEMENTS if o[0] == cell and o[:4] != (cell, fam, order, kw) and o[:4] not in SLOW]
        same.sort(key=lambda o: (o[1] != fam, o[2]))
        alike = [o for o in ELEMENTS if o[0] != cell and o[1] == fam and o[:4] not in SLOW]
        others = [(label(*o[:4]), maker(*o[:4]), queries_for(*o[:4], False, o[5])) for o in same[:1] + alike[:1]]
    return histories(maker(cell, fam, order, kw), queries_for(cell, fam, order, kw, plots, maps), label(cell, fam, order, kw), part, others)


def info(cell, fam, order, kw):
    """(topological dimension, value shape, has dofs) found out in a process of its own."""
    def go():
        e = symfem.create_element(cell, fam, order, **kw)
        f = e.get_polynomial_basis()[0] if hasattr(e, "_basis") else e.get_basis_functions()[0]
        s = f.shape if f.is_matrix else (len(f),) if f.is_vector else ()
        return e.reference.tdim, tuple(s), hasattr(e, "dofs")
    return elsewhere(go)


def queries_for(cell, fam, order, kw, plots, maps):
    try:
        td, shape, dual = info(cell, fam, order, kw)
    except smt.Inconclusive:
        td, shape, dual = {"interval": 1, "triangle": 2, "quadrilateral": 2}.get(cell, 3), (), False
    return element_queries(cell, td, shape, plots, maps, dual)


def function(kind, td, plots, part):
    def make(tag="f", shift=0):
        if kind == "piecewise":
            tri = [((0, 0), (1, 0), (R(1, 2), R(1, 2))), ((0, 0), (0, 1), (R(1, 2), R(1, 2))), ((1, 0), (0, 1), (R(1, 2), R(1, 2)))]
            tri = [tuple(tuple(sympy.sympify(i) for i in p) for p in t) for t in tri]
            return PiecewiseFunction({t: generic((), 2, 1, tag + f"p{i}") for i, t in enumerate(tri)}, 2)
        if kind == "piecewise vector":
            tri = [((0, 0), (1, 0), (0, 1)), ((1, 0), (1, 1), (0, 1))]
            tri = [tuple(tuple(sympy.sympify(i) for i in p) for p in t) for t in tri]
            return PiecewiseFunction({t: generic((2,), 2, 1, tag + f"p{i}") for i, t in enumerate(tri)}, 2)
        if plots:
            a = generic((), td, 2, tag) if kind == "scalar" else generic((td,), td, 1, tag)
            return a.subs([s for s in fs(a)], [R(2 * i + 1, i + 3 + shift) * (-1)**i for i, _ in enumerate(fs(a))])
        return generic({"scalar": (), "vector": (td,), "matrix": (td, td)}[kind], td, 2 if kind == "scalar" else 1, tag)

    def fs(a):
        flat = harness.flat(a)
        return sorted({s for e in flat for s in e.free_symbols if s.name.startswith("hs_")}, key=str)

    q = plot_queries(td) if plots else function_queries(td, make)
    others = [(f"another {kind} function", lambda: make("g", 2), q)]
    return histories(make, q, f"{kind} function in {td} dimensions", part, others)


def cell(name, td, default, part):
    def make(default=default):
        r = symfem.create_reference(name)
        return r if default else symfem.create_reference(name, vertices(name, 2))

    q = cell_queries(name, td)
    others = [(f"another {name}", lambda: make(not default), q)] if name not in ("prism", "pyramid") else []
    return histories(make, q, f"{name}{'' if default else ' elsewhere'}", part, others)


PAIRS = [("triangle", "P", 1), ("triangle", "vP", 1), ("triangle", "RT", 1), ("quadrilateral", "Q", 1), ("interval", "P", 2), ("triangle", "bubble enriched Lagrange", 1),
         ("quadrilateral", "serendipity", 1)]
LATER = [("quadrilateral", "Q", 2, "legendre"), ("interval", "Bernstein", 2, None)]


def jobs(tier):
    out = []
    n = 4
    deep = tier == "thorough"

    def parts(pairs):
        return [(k, n) for k in range(n)] if pairs or deep else [None]

    for spec in ELEMENTS + (THOROUGH if deep else []):
        c, f, o, kw, plots, maps = spec
        if not deep and (c, f, o, kw.get("variant")) in LATER:
            continue
        plots = plots or deep
        for k in parts((c, f, o) in PAIRS and not kw):
            out.append((f"{f} {o} on {c} {kw or ''}: {k}", element, (c, f, o, kw, plots, maps, k)))
    for kind, td in (("scalar", 1), ("scalar", 2), ("scalar", 3), ("vector", 2), ("vector", 3), ("matrix", 2), ("matrix", 3), ("piecewise", 2), ("piecewise vector", 2)):
        for k in parts((kind, td) in (("scalar", 1), ("vector", 2))):
            out.append((f"{kind} function {td}: {k}", function, (kind, td, False, k)))
    for kind, td in (("scalar", 1), ("scalar", 2), ("vector", 2)):
        out.append((f"plots of {kind} function {td}", function, (kind, td, True, (0, 1))))
    for name, td, defaults in (("interval", 1, (True, False)), ("triangle", 2, (True, False)), ("quadrilateral", 2, (True, False)), ("tetrahedron", 3, (True, False)),
                               ("hexahedron", 3, (True, False)), ("prism", 3, (True,)), ("pyramid", 3, (True,))):
        for d in defaults:
            for k in parts((name, d) in (("triangle", False), ("quadrilateral", True))):
                out.append((f"{name} {d}: {k}", cell, (name, td, d, k)))
    return out


if __name__ == "__main__":
    runner.main(
        "C26", jobs, "other",
        "ordered pairs of queries and long chains of queries are run on the real code, each in a process of its own, with symbolic points, coefficients and cells; "
        "z3 refutes values of the symbols for which an answer differs from the one given when asked first, on the same object and on one made later",
        "27 (46) elements with up to 22 queries, functions of each kind with 30, cells with 30; chains of all queries in four orders, and all ordered pairs of queries "
        "for seven elements, two kinds of functions and two cells (thorough: for all); "
        "all points, all coefficients of functions of degree up to 2",
        ["terms that are written the same are compared as such", "changes made by the user to lists the code hands out"],
        ["FiniteElement.*", "CiarletElement.*", "DirectElement.*", "EnrichedElement.*", "Reference.*", "AnyFunction.*", "BaseFunctional.*"],
        "Answers after any other query against answers when asked first.",
    )
