"""C07: point-location predicates and cell intersections."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.realpath(__file__))))
from lib import boot, cells, harness, runner, smt, symexec  # noqa: E402,F401

import sympy  # noqa: E402
import z3  # noqa: E402

import symfem  # noqa: E402
from symfem import geometry  # noqa: E402

at, guard = harness.at, harness.guard
And, Or, Eq = sympy.And, sympy.Or, sympy.Eq


def t_params(td):
    return tuple(harness.sym(f"t{i}") for i in range(td))


def place(o, axes, tt):
    return tuple(c + sum(q * a[j] for q, a in zip(tt, axes)) for j, c in enumerate(o))


def on_entity(cell, td, dim, tt):
    """Independent condition: the point with default-cell coordinates tt lies on a dim-entity."""
    ref = [sympy.Matrix(v) for v in cells.DEFAULT[cell]]
    p = sympy.Matrix(tt)
    out = []
    for vs in ENTITIES[cell][dim]:
        v0 = ref[vs[0]]
        if dim == 0:
            out.append(And(*[Eq(a, b) for a, b in zip(p, v0)]))
            continue
        dirs = [ref[vs[i + 1]] - v0 for i in range(dim)]
        A = sympy.Matrix([[a.dot(b) for a in dirs] for b in dirs]).inv()
        co = A * sympy.Matrix([d.dot(p - v0) for d in dirs])
        rest = p - v0
        for c, d in zip(co, dirs):
            rest = rest - c * d
        kind = {(1, 2): "interval", (2, 3): "triangle", (2, 4): "quadrilateral"}[(dim, len(vs))]
        out.append(And(*[Eq(sympy.expand(r), 0) for r in rest], cells.inside(kind, tuple(co))))
    return Or(*out)


# the numbering of sub-entities is irrelevant here: only the point sets count
ENTITIES = {
    "interval": [[(0,), (1,)], [(0, 1)], []],
    "triangle": [[(0,), (1,), (2,)], [(1, 2), (0, 2), (0, 1)], [(0, 1, 2)]],
    "quadrilateral": [[(i,) for i in range(4)], [(0, 1), (0, 2), (1, 3), (2, 3)], [(0, 1, 2, 3)]],
    "tetrahedron": [[(i,) for i in range(4)], [(2, 3), (1, 3), (1, 2), (0, 3), (0, 2), (0, 1)],
                    [(1, 2, 3), (0, 2, 3), (0, 1, 3), (0, 1, 2)]],
    "hexahedron": [[(i,) for i in range(8)],
                   [(0, 1), (0, 2), (0, 4), (1, 3), (1, 5), (2, 3), (2, 6), (3, 7), (4, 5), (4, 6), (5, 7), (6, 7)],
                   [(0, 1, 2, 3), (0, 1, 4, 5), (0, 2, 4, 6), (1, 3, 5, 7), (2, 3, 6, 7), (4, 5, 6, 7)]],
    "prism": [[(i,) for i in range(6)],
              [(0, 1), (0, 2), (0, 3), (1, 2), (1, 4), (2, 5), (3, 4), (3, 5), (4, 5)],
              [(0, 1, 2), (0, 1, 3, 4), (0, 2, 3, 5), (1, 2, 4, 5), (3, 4, 5)]],
    "pyramid": [[(i,) for i in range(5)],
                [(0, 1), (0, 2), (0, 4), (1, 3), (1, 4), (2, 3), (2, 4), (3, 4)],
                [(0, 1, 2, 3), (0, 1, 4), (0, 2, 4), (1, 3, 4), (2, 3, 4)]],
}
FIXED = {
    "default": lambda td, gd: ([tuple(0 for _ in range(gd))] + [tuple(int(i == j) for j in range(gd)) for i in range(td)]),
    "skew": lambda td, gd: ([tuple([1, -2, 3][:gd])] + [tuple([[3, -1, 4], [0, 1, 2], [2, -3, 7]][i][:gd]) for i in range(td)]),
    "mirrored": lambda td, gd: ([tuple([0, 1, -1][:gd])] + [tuple([[-2, 1, -1], [1, 3, 0], [1, 2, 1]][i][:gd]) for i in range(td)]),
}


def cell_at(cell, gdim, where):
    """Vertices, origin and axes for a fixed copy or a copy with one free vertex, or a fully free one."""
    td = cells.TDIM[cell]
    if where == "free":
        return cells.affine(cell, gdim)
    if where in FIXED:
        pts = FIXED[where](td, gdim)
    else:
        k = int(where[4:])
        pts = FIXED["skew"](td, gdim)
        pts[k] = tuple(harness.sym(f"m{j}") for j in range(gdim))
    o = tuple(sympy.sympify(c) for c in pts[0])
    axes = [tuple(sympy.sympify(e[j]) - o[j] for j in range(gdim)) for e in pts[1:]]
    return tuple(place(o, axes, r) for r in cells.DEFAULT[cell]), o, axes


def truth(v):
    """The outcome of a predicate as a plain bool (numpy/sympy booleans included)."""
    if isinstance(v, sympy.core.relational.Relational):
        return bool(v)
    if v in (True, False) or v in (sympy.true, sympy.false):
        return bool(v)
    raise TypeError(f"not a boolean: {v!r}")


def predicate(rep, call, oracle, V, gr, p, tt, what):
    """call(vertices, point) returns oracle (a condition on tt) for every point and cell."""
    syms = sorted({s for v in V for c in v if hasattr(c, "free_symbols") for s in c.free_symbols}
                  | {s for c in p for s in c.free_symbols}, key=str)
    ctx = smt.Ctx()
    assume = [] if gr.is_number else [ctx.bool(sympy.Ne(gr, 0))]
    O = ctx.bool(oracle)

    def replay(vals):
        got = truth(call(at(V, vals), at(p, vals)))
        want = bool(oracle.subs(vals)) if hasattr(oracle, "subs") else bool(oracle)
        if got != want:
            return f"returns {got} for point {at(p, vals)} of cell {at(V, vals)}, geometry says {want}"

    _, paths = symexec.explore(lambda: truth(call(V, p)), ctx, assume, max_paths=3000)
    rep.info["paths"] += len(paths)
    for path in paths:
        if path.error is not None:
            rep.never(ctx, z3.And(*path.pc), syms, f"{what} raised {type(path.error).__name__}", guard(replay), assume)
        else:
            bad = z3.Not(O) if path.value else O
            rep.never(ctx, z3.And(*path.pc, bad), syms, what, guard(replay), assume)
    for flavour in (O, z3.Not(O)):
        rep.reachable(ctx, assume + [flavour], what)


def reference_predicate(cell, gdim, where, name):
    rep = harness.Rep(timeout_ms=40000)
    V, o, axes = cell_at(cell, gdim, where)
    td = cells.TDIM[cell]
    tt = t_params(td)
    gr = sympy.expand(cells.gram(axes))
    if gdim == td:
        p = place(o, axes, tt)
        off = []
    else:
        # a point off the cell's plane as well
        h = harness.sym("h")
        if gdim == 3 and td == 2:
            n = sympy.Matrix(axes[0]).cross(sympy.Matrix(axes[1]))
        else:
            n = sympy.Matrix([-axes[0][1], axes[0][0]] + [0] * (gdim - 2))
        p = tuple(c + h * q for c, q in zip(place(o, axes, tt), n))
        off = [Eq(h, 0)]

    def call(verts, point):
        return getattr(symfem.create_reference(cell, verts), name)(point)

    if name == "contains":
        oracle = cells.inside(cell, tt)
    else:
        oracle = And(on_entity(cell, td, {"at_vertex": 0, "on_edge": 1, "on_face": 2}[name], tt), *off)
    predicate(rep, call, oracle, V, gr, p, tt, f"{cell} {name}")
    return rep.result()


def geometry_predicate(fname, cell, gdim, where):
    rep = harness.Rep(timeout_ms=40000)
    V, o, axes = cell_at(cell, gdim, where)
    tt = t_params(cells.TDIM[cell])
    p = place(o, axes, tt)
    gr = sympy.expand(cells.gram(axes))

    def call(verts, point):
        return getattr(geometry, fname)(tuple(sympy.sympify(c) for c in point), verts)

    predicate(rep, call, cells.inside(cell, tt), V, gr, p, tt, fname)
    return rep.result()


def general_quad():
    """point_in_quadrilateral for convex quadrilaterals with one free vertex (both orientations)."""
    rep = harness.Rep()
    q = tuple(harness.sym(f"q{i}") for i in range(2))
    p = tuple(harness.sym(f"p{i}") for i in range(2))
    for base in [((0, 0), (1, 0), (0, 1)), ((0, 0), (0, 1), (1, 0)), ((2, -1), (5, 1), (1, 3))]:
        V = tuple(tuple(sympy.sympify(c) for c in v) for v in base) + (q,)
        ring = [V[0], V[1], V[3], V[2]]

        def side(a, b, c):
            return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])

        turns = [side(ring[i], ring[(i + 1) % 4], ring[(i + 2) % 4]) for i in range(4)]
        sgn = 1 if side(V[0], V[1], V[2]) > 0 else -1
        convex = And(*[sgn * u > 0 for u in turns])
        oracle = And(*[sgn * side(ring[i], ring[(i + 1) % 4], p) >= 0 for i in range(4)])
        ctx = smt.Ctx()
        assume = [ctx.bool(convex)]
        O = ctx.bool(oracle)

        def replay(vals):
            got = truth(geometry.point_in_quadrilateral(at(p, vals), at(V, vals)))
            want = bool(oracle.subs(vals))
            if got != want:
                return f"{got} for {at(p, vals)} in {at(V, vals)}"

        _, paths = symexec.explore(lambda: truth(geometry.point_in_quadrilateral(p, V)), ctx, assume)
        rep.info["paths"] += len(paths)
        for path in paths:
            if path.error is not None:
                rep.never(ctx, z3.And(*path.pc), list(p + q), "point_in_quadrilateral raised", guard(replay), assume)
            else:
                rep.never(ctx, z3.And(*path.pc, z3.Not(O) if path.value else O), list(p + q),
                          "point_in_quadrilateral", guard(replay), assume)
        rep.reachable(ctx, assume + [O], "general quadrilateral")
    return rep.result()


def intersection(cell, gdim, base, mode, other=None):
    """The intersection of a fixed cell and a moving one: a returned cell is contained in both, None
    means no common interior point, and a contained cell is never refused."""
    rep = harness.Rep()
    other = other or cell
    A, oA, aA = cell_at(cell, gdim, base)
    B0, oB, aB = cell_at(other, gdim, "default" if mode == "move" else "skew")
    if mode == "move":
        h = [harness.sym(f"h{j}") for j in range(2)] + [sympy.Integer(0)] * (gdim - 2)
        scale = sympy.Rational(1, 2)
        oB = tuple(oB[j] + h[j] for j in range(gdim))
        aB = [tuple(scale * c for c in a) for a in aB]
    elif mode == "shift":
        h = [harness.sym("h0"), harness.sym("h1"), sympy.Integer(1)][:gdim]
        oB = tuple(sympy.sympify(h[j]) for j in range(gdim))
        aB = [tuple(sympy.Integer([-1, 2, 1][(i + j) % 3] + (i == j)) for j in range(gdim)) for i in range(cells.TDIM[other])]
    B = tuple(place(oB, aB, r) for r in cells.DEFAULT[other])
    syms = sorted({s for v in B for c in v for s in c.free_symbols}, key=str)
    ctx = smt.Ctx()

    def run(V, W):
        a, b = symfem.create_reference(cell, V), symfem.create_reference(other, W)
        r = a.intersection(b)
        if r is None:
            return None
        if tuple(r.vertices) == tuple(a.vertices):
            return "first"
        if tuple(r.vertices) == tuple(b.vertices):
            return "second"
        return "neither"

    def coords(o, axes, p):
        m = sympy.Matrix([[a[i] for a in axes] for i in range(gdim)])
        return tuple(m.inv() * sympy.Matrix([c - d for c, d in zip(p, o)]))

    q = tuple(harness.sym(f"q{j}") for j in range(gdim))
    inA, inB = cells.inside(cell, coords(oA, aA, q)), cells.inside(other, coords(oB, aB, q))
    both = And(cells.strict_inside(cell, coords(oA, aA, q)), cells.strict_inside(other, coords(oB, aB, q)))
    bad = {None: both, "first": And(inA, sympy.Not(inB)), "second": And(inB, sympy.Not(inA)), "neither": sympy.true}
    BinA = And(*[cells.inside(cell, coords(oA, aA, v)) for v in B])
    AinB = And(*[cells.inside(other, coords(oB, aB, v)) for v in A])

    def replay(vals):
        W = at(B, vals)
        V = at(A, vals)
        try:
            r = run(V, W)
        except NotImplementedError:
            if BinA.subs(vals) == True or AinB.subs(vals) == True:  # noqa: E712
                return f"refused for {V} and {W} although one contains the other"
            return None
        c = bad[r]
        if c == sympy.true or c.subs(vals) == True:  # noqa: E712
            return f"returned {r} for {V} and {W}; witness point {at(q, vals)}"

    _, paths = symexec.explore(lambda: run(A, B), ctx, [], max_paths=2000)
    rep.info["paths"] += len(paths)
    seen = set()
    for path in paths:
        pc = z3.And(*path.pc)
        if isinstance(path.error, NotImplementedError):
            seen.add("refused")
            rep.never(ctx, z3.And(pc, ctx.bool(Or(BinA, AinB))), syms, "intersection refused", guard(replay))
        elif path.error is not None:
            rep.never(ctx, pc, syms, f"intersection raised {path.error!r}", guard(replay))
        else:
            seen.add(path.value)
            rep.never(ctx, z3.And(pc, ctx.bool(bad[path.value])), syms + list(q), "intersection", guard(replay))
    if None not in seen:
        raise smt.Inconclusive("no path returns an empty intersection")
    return rep.result()


def point_cell(gdim):
    """A vertex of a cell, as a cell of its own, contains itself and nothing else."""
    rep = harness.Rep()
    cell = {1: "interval", 2: "quadrilateral", 3: "prism"}[gdim]
    for where in ["default", "skew"]:
        V = cell_at(cell, gdim, where)[0]
        p = tuple(harness.sym(f"p{j}") for j in range(gdim))
        for n, v in enumerate(V):
            oracle = And(*[Eq(a, b) for a, b in zip(p, v)])

            def call(verts, point, n=n):
                return symfem.create_reference(cell, verts).sub_entity(0, n).contains(point)

            predicate(rep, call, oracle, V, sympy.Integer(1), p, p, f"vertex {n} of {cell}")
    return rep.result()


FORMS = {
    "tuple": tuple,
    "list": list,
    "row": lambda p: sympy.Matrix([list(p)]),
    "column": lambda p: sympy.Matrix(list(p)),
}


def forms(cell, dim, n):
    """The answer does not depend on the form in which the point is written (tuple, list or matrix)."""
    rep = harness.Rep()
    td = cells.TDIM[cell]
    p = t_params(td)
    V = cell_at(cell, td, "default")[0]
    oracle = cells.inside(cell, p) if dim == td else And(*[Eq(a, b) for a, b in zip(p, V[n])])
    for form, make in FORMS.items():
        def call(verts, point, make=make):
            r = symfem.create_reference(cell, verts)
            return (r if dim == td else r.sub_entity(dim, n)).contains(make(point))

        predicate(rep, call, oracle, V, sympy.Integer(1), p, p, f"contains ({form})")
    return rep.result()


class _FloatType(type):
    def __instancecheck__(cls, e):
        return isinstance(e, sympy.Float) or symexec.is_sym(e)


class _Float(metaclass=_FloatType):
    """Stands for sympy.Float in the geometry module: symbolic values count as floating point numbers."""

    def __new__(cls, *a, **k):
        return sympy.Float(*a, **k)


class _Sympy:
    Float = _Float

    def __getattr__(self, name):
        return getattr(sympy, name)


def float_predicate(fname, cell, gdim, where):
    """For floating point coordinates a point of the closed cell is always accepted, and every point that
    is accepted is within 1e-6 (in reference coordinates) of the cell."""
    rep = harness.Rep(timeout_ms=40000)
    V, o, axes = cell_at(cell, gdim, where)
    tt = t_params(cells.TDIM[cell])
    p = place(o, axes, tt)
    e = sympy.Rational(1, 10**6)
    bigger = tuple((c + e) / (1 + 4 * e) for c in tt)
    O, B = cells.inside(cell, tt), cells.inside(cell, bigger)
    ctx = smt.Ctx()
    zO, zB = ctx.bool(O), ctx.bool(B)

    def run(verts, point):
        had = getattr(geometry, "sympy", sympy)
        geometry.sympy = _Sympy()
        try:
            return truth(getattr(geometry, fname)(tuple(sympy.sympify(c) for c in point), verts))
        finally:
            geometry.sympy = had

    def replay(vals):
        # the point found by the solver, and points next to it (so that its coordinates are not integers)
        for d in itertools.product([0, 1, -1], repeat=len(tt)):
            near = {**vals, **{t: vals[t] + sympy.Rational(k, 10**12) for t, k in zip(tt, d)}}
            q = [sympy.Float(c, 30) for c in at(p, near)]
            got = truth(getattr(geometry, fname)(tuple(q), V))
            if bool(O.subs(near)) and not got:
                return f"{fname}: {q} is refused"
            if got and not bool(B.subs(near)):
                return f"{fname}: {q} is accepted"

    _, paths = symexec.explore(lambda: run(V, p), ctx, [], max_paths=3000)
    rep.info["paths"] += len(paths)
    for path in paths:
        if path.error is not None:
            rep.never(ctx, z3.And(*path.pc), list(tt), f"{fname} raised {type(path.error).__name__}", guard(replay))
        else:
            rep.never(ctx, z3.And(*path.pc, z3.Not(zB) if path.value else zO), list(tt),
                      f"{fname} with floating point coordinates", guard(replay))
    rep.reachable(ctx, [zO], fname)
    return rep.result()


def jobs(tier):
    out = []
    for g in [1, 2, 3]:
        out.append((f"contains point gdim {g}", point_cell, (g,)))
    for cell, td in cells.TDIM.items():
        out.append((f"forms {cell}", forms, (cell, td, 0)))
        out.append((f"forms vertex of {cell}", forms, (cell, 0, td)))
    for f, cell in [("point_in_interval", "interval"), ("point_in_triangle", "triangle"),
                    ("point_in_quadrilateral", "quadrilateral"), ("point_in_tetrahedron", "tetrahedron")]:
        for where in ["default", "skew", "mirrored"]:
            out.append((f"{f} floats {where}", float_predicate, (f, cell, cells.TDIM[cell], where)))
    # the default cell of every type: the point is free
    for cell, td in cells.TDIM.items():
        out.append((f"contains {cell} default", reference_predicate, (cell, td, "default", "contains")))
        for name in ["at_vertex", "on_edge", "on_face"]:
            if name == "on_face" and td < 2:
                continue
            for where in ["default", "skew", "mirrored"]:
                if tier == "quick" and name == "on_edge" and where == "mirrored" and td == 3:
                    continue
                out.append((f"{name} {cell} {where}", reference_predicate, (cell, td, where, name)))
            if td < 3:
                for g in range(td, 4):
                    out.append((f"{name} {cell} gdim {g}", reference_predicate, (cell, g, "skew", name)))
    for cell in ["triangle", "tetrahedron"]:
        td = cells.TDIM[cell]
        for where in ["skew", "mirrored"] + [f"free{k}" for k in range(td + 1)]:
            out.append((f"contains {cell} {where}", reference_predicate, (cell, td, where, "contains")))
    out.append(("contains triangle free", reference_predicate, ("triangle", 2, "free", "contains")))
    for f, cell in [("point_in_interval", "interval"), ("point_in_triangle", "triangle"),
                    ("point_in_quadrilateral", "quadrilateral"), ("point_in_tetrahedron", "tetrahedron")]:
        td = cells.TDIM[cell]
        for where in ["default", "skew", "mirrored"] + [f"free{k}" for k in range(td + 1)]:
            if cell == "tetrahedron" and where.startswith("free") and tier == "quick":
                continue
            out.append((f"{f} {where}", geometry_predicate, (f, cell, td, where)))
        if td < 3:
            out.append((f"{f} free", geometry_predicate, (f, cell, td, "free")))
    out.append(("point_in_quadrilateral convex", general_quad, ()))
    out.append(("intersection triangle default/moving", intersection, ("triangle", 2, "default", "move")))
    out.append(("intersection triangle skew/shifted", intersection, ("triangle", 2, "skew", "shift")))
    out.append(("intersection tetrahedron default/moving", intersection, ("tetrahedron", 3, "default", "move")))
    out.append(("intersection quad/triangle", intersection, ("quadrilateral", 2, "default", "move", "triangle")))
    return out


if __name__ == "__main__":
    runner.main(
        "C07", jobs, "other",
        "path-forking symbolic execution of the predicates on a symbolic point (and symbolic vertices); z3 decides each path",
        "every point (unbounded reals); cells: default, fixed skew and mirrored copies, copies with one or all vertices "
        "free (triangles; tetrahedra one vertex at a time); intersections: one fixed cell against a translated one",
        ["for floating point coordinates the geometry helpers are shown to accept the closed cell and nothing further "
         "than 1e-6 (reference coordinates) from it; rounding of the coordinates themselves is outside"],
        ["Reference.contains", "Reference.at_vertex", "Reference.on_edge", "Reference.on_face", "Reference.intersection",
         "geometry.point_in_interval/triangle/quadrilateral/tetrahedron"],
        "Each predicate is executed with a symbolic point along every feasible path; for each path z3 shows that no "
        "point on that path is classified differently from the cell's set definition.")
