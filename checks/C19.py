"""C19: geometric quantities of cells are correct."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.realpath(__file__))))
from lib import boot, cells, fun, harness, runner, smt, symexec  # noqa: E402,F401

import symfem  # noqa: E402
import sympy  # noqa: E402
import z3  # noqa: E402

guard, differ, sym, flat = harness.guard, harness.differ, harness.sym, harness.flat
symexec.install()
R = sympy.Rational
ALL = list(cells.DEFAULT)


def dot(a, b):
    return sum((p * q for p, q in zip(a, b)), sympy.Integer(0))


def sub(a, b):
    return tuple(p - q for p, q in zip(a, b))


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def symbols_of(vs):
    return sorted({s for v in vs for c in v for s in sympy.sympify(c).free_symbols}, key=str)


def put(vs, m):
    return tuple(tuple(sympy.sympify(c).subs({s: m.get(s, sympy.Integer(0)) for s in sympy.sympify(c).free_symbols}) for c in v) for v in vs)


def length(got, square, root, hs, what, rep, replay, nondeg, ctx=None):
    """Obligation: got is the non-negative root of `square`: got**2 == square and got >= 0."""
    ctx = ctx or smt.Ctx()
    g = sympy.sympify(got)
    z = ctx.real(g)
    rep.never(ctx, z < 0, hs, f"{what} is negative", replay, assume=nondeg(ctx))
    q = sympy.expand(g**2) if not g.atoms(sympy.Abs) else g**2
    ctx2 = smt.Ctx()
    rep.equal(q, square, what, replay, ctx=ctx2, assume=nondeg(ctx2), symbols=hs)


def value(cell, vs, what):
    ref = symfem.create_reference(cell, vs)
    return getattr(ref, what)()


def measures(cell, gdim):
    """Volume, Jacobian, midpoint, axes and points of an affine cell with symbolic vertices."""
    rep = harness.Rep(max_violations=2)
    vs, o, axes = cells.affine(cell, gdim)
    hs = symbols_of(vs)
    g = sympy.expand(cells.gram(axes))
    ref = symfem.create_reference(cell, vs)
    td = cells.TDIM[cell]

    def nondeg(ctx):
        return [ctx.real(g) > 0]

    def measure(what, factor):
        def replay(m):
            cv = put(vs, m)
            got = value(cell, cv, what)
            want = factor * sympy.sqrt(cells.gram([sub(cv[list(cells.DEFAULT[cell]).index(tuple(int(i == j) for j in range(td)))], cv[0]) for i in range(td)]))
            return differ(got, want)

        length(getattr(ref, what)(), factor**2 * g, None, hs, f"{what} of the {cell} in {gdim}D", rep, guard(replay), nondeg)

    measure("jacobian", sympy.Integer(1))
    measure("volume", cells.VOLUME[cell])
    # in 1D and 3D the measure comes from a determinant: its sign must not matter
    n = len(vs)
    mid = [sum(v[j] for v in vs) / n for j in range(gdim)]
    rep.equal(ref.midpoint(), mid, f"midpoint of the {cell} in {gdim}D",
              guard(lambda m: differ(value(cell, put(vs, m), "midpoint"), [sum(v[j] for v in put(vs, m)) / n for j in range(gdim)])), symbols=hs)
    rep.equal(ref.axes, axes, f"axes of the {cell} in {gdim}D",
              guard(lambda m: differ(symfem.create_reference(cell, put(vs, m)).axes, put(axes, m))), symbols=hs)
    rep.equal(ref.origin, o, f"origin of the {cell}",
              guard(lambda m: differ(symfem.create_reference(cell, put(vs, m)).origin, put([o], m)[0])), symbols=hs)
    ps = [sym(f"p{i}") for i in range(td)]
    want = [o[j] + sum(p * a[j] for p, a in zip(ps, axes)) for j in range(gdim)]

    def point(m):
        cp = [m.get(p, sympy.Integer(0)) for p in ps]
        w = [sympy.sympify(c).subs({s: m.get(s, sympy.Integer(0)) for s in hs + ps}) for c in want]
        return differ(symfem.create_reference(cell, put(vs, m)).get_point(tuple(cp)), w)

    rep.equal(ref.get_point(tuple(ps)), want, f"points of the {cell} in {gdim}D", guard(point), symbols=hs + ps)
    # scaled axes: unit vectors along the axes
    for i, (s, a) in enumerate(zip(ref.scaled_axes(), axes)):
        unit(s, a, hs, f"scaled axis {i} of the {cell} in {gdim}D", rep,
             guard(lambda m, i=i: axis_replay(symfem.create_reference(cell, put(vs, m)).scaled_axes()[i], put([axes[i]], m)[0])))
        if rep.full():
            break
    return rep.result()


def axis_replay(got, a):
    n = sympy.sqrt(dot(a, a))
    return differ(got, [c / n for c in a])


def unit(u, a, hs, what, rep, replay):
    """Obligation: u = a / |a| for every a != 0."""
    ctx = smt.Ctx()
    sq = sympy.expand(dot(a, a))
    root = sym("root")
    r = ctx.real(root)
    assume = [r > 0, r * r == ctx.real(sq)]
    got = [fun.unify_root(sympy.sympify(c), sq, root) for c in u]
    if any(fun.atoms(c) for c in got):
        # nested normalisation: (c / n) / |a / n|, decided with the root's own square
        got = [fun.unify_root(sympy.simplify(sympy.powdenest(c, force=True)), sq, root) for c in got]
    rep.equal([sympy.together(c * root) for c in got], list(a), what, replay, ctx=ctx, assume=assume, symbols=hs)


def directions(cell, gdim, which, free):
    """Tangents and normals of a cell or of its sub-entities, for symbolic vertices."""
    rep = harness.Rep(max_violations=2)
    if free:
        vs = cells.free(cell, gdim)
    else:
        vs = cells.affine(cell, gdim)[0]
    hs = symbols_of(vs)
    ref = symfem.create_reference(cell, vs)
    td = cells.TDIM[cell]
    ents = [(1, i) for i in range(len(cells.ENT[cell][1]))] if td >= 1 else []
    if gdim == 3 and td >= 2:
        ents += [(2, i) for i in range(len(cells.ENT[cell][2]))]
    for dim, i in ents:
        kind, o, axes = cells.entity(cell, dim, i, vs)

        def entity(v, dim=dim, i=i):
            return symfem.create_reference(cell, v).sub_entity(dim, i)

        if dim == 1 and which == "tangent":
            rp = guard(lambda m, e=entity, d=dim, i=i: axis_replay(e(put(vs, m)).tangent(), cells.entity(cell, d, i, put(vs, m))[2][0]))
            unit(entity(vs).tangent(), axes[0], hs, f"tangent of edge {i} of the {cell} in {gdim}D", rep, rp)
        if which == "normal" and ((dim == 1 and gdim == 2) or (dim == 2 and gdim == 3)):
            def normal(ax):
                if len(ax) == 1:
                    return (-ax[0][1], ax[0][0])
                return cross(ax[0], ax[1])

            rp = guard(lambda m, e=entity, d=dim, i=i: axis_replay(e(put(vs, m)).normal(), normal(cells.entity(cell, d, i, put(vs, m))[2])))
            unit(entity(vs).normal(), normal(axes), hs, f"normal of entity {dim},{i} of the {cell} in {gdim}D", rep, rp)
        if rep.full():
            break
    rep.info["obligations"] += 1
    # directions that are not defined are refused
    for what, dims in (("tangent", [d for d in (0, 2, 3) if d <= td]), ("normal", [0, td] if td == gdim else [0])):
        for d in dims:
            if what == "normal" and (d, gdim) in ((1, 2), (2, 3)):
                continue
            try:
                got = getattr(ref.sub_entity(d, 0), what)()
            except Exception:  # noqa: BLE001
                continue
            rep.violate(f"the {what} of a {d}-dimensional entity in {gdim}D is {got}")
    return rep.result()


TYPES = {(0, 1): "point", (1, 2): "interval", (2, 3): "triangle", (2, 4): "quadrilateral"}


def entities(cell, gdim):
    """Sub-entities have the documented vertices, type and dimension wherever the cell is."""
    rep = harness.Rep(max_violations=2)
    vs = cells.free(cell, gdim)
    hs = symbols_of(vs)
    ref = symfem.create_reference(cell, vs)
    td = cells.TDIM[cell]

    def bad(ref, vs):
        for dim in range(td + 1):
            ids = cells.ENT[cell][dim]
            if ref.sub_entity_count(dim) != len(ids) or ref.sub_entity_count(codim=td - dim) != len(ids):
                return f"{ref.sub_entity_count(dim)} entities of dimension {dim}"
            if tuple(map(tuple, ref.sub_entities(dim))) != tuple(ids) or tuple(map(tuple, ref.sub_entities(codim=td - dim))) != tuple(ids):
                return f"entities of dimension {dim} are {ref.sub_entities(dim)}"
            for n, iv in enumerate(ids):
                want = TYPES.get((dim, len(iv)), cell)
                e = ref.sub_entity(dim, n)
                if e.name != want or e.tdim != dim or e.gdim != gdim or len(e.vertices) != len(iv):
                    return f"entity {dim},{n} is a {e.name} of dimension {e.tdim} in {e.gdim}D"
                if e.origin != e.vertices[0]:
                    return f"origin of entity {dim},{n}"
                r = ref.sub_entity(dim, n, True)
                if r.name != want or r.tdim != dim:
                    return f"reference entity {dim},{n} is a {r.name}"
        return None

    rep.info["obligations"] += 1
    msg = bad(ref, vs)
    if msg:
        rep.violate(f"{cell} in {gdim}D: {msg}")
        return rep.result()
    got, want, gr, wr = [], [], [], []
    for dim in range(td + 1):
        for n, iv in enumerate(cells.ENT[cell][dim]):
            got.append(ref.sub_entity(dim, n).vertices)
            want.append([vs[i] for i in iv])
            gr.append(ref.sub_entity(dim, n, True).vertices)
            wr.append([cells.DEFAULT[cell][i] for i in iv])

    def replay(m):
        cv = put(vs, m)
        r = symfem.create_reference(cell, cv)
        for dim in range(td + 1):
            for n, iv in enumerate(cells.ENT[cell][dim]):
                d = differ(r.sub_entity(dim, n).vertices, [cv[i] for i in iv])
                if d:
                    return f"entity {dim},{n}: {d}"
        return None

    rep.equal(got, want, f"sub-entities of the {cell} in {gdim}D", guard(replay), symbols=hs)
    rep.equal(gr, wr, f"reference sub-entities of the {cell}", guard(lambda m: differ(gr, wr)))
    rep.equal(ref.vertices, vs, f"vertices of the {cell}", guard(lambda m: differ(symfem.create_reference(cell, put(vs, m)).vertices, put(vs, m))), symbols=hs)
    rep.equal(ref.reference_vertices, cells.DEFAULT[cell], f"reference vertices of the {cell}", guard(lambda m: differ(symfem.create_reference(cell).vertices, cells.DEFAULT[cell])))
    rep.equal(ref.default_reference().vertices, cells.DEFAULT[cell], f"default {cell}",
              guard(lambda m: differ(symfem.create_reference(cell, put(vs, m)).default_reference().vertices, cells.DEFAULT[cell])))
    n = len(vs)
    rep.equal(ref.midpoint(), [sum(v[j] for v in vs) / n for j in range(gdim)], f"midpoint of any {cell}",
              guard(lambda m: differ(value(cell, put(vs, m), "midpoint"), [sum(v[j] for v in put(vs, m)) / n for j in range(gdim)])), symbols=hs)
    return rep.result()


def skewed(cell):
    """Volume of cells that are not affine copies of the default one (one vertex moves freely)."""
    rep = harness.Rep(max_violations=1)
    base = [tuple(sympy.Integer(c) for c in v) for v in cells.DEFAULT[cell]]
    gd = len(base[0])
    mv = {"quadrilateral": 3, "hexahedron": 7, "prism": 5, "pyramid": 3}[cell]
    d = [sym(f"d{i}") for i in range(gd)]
    if cell == "quadrilateral":
        vs = cells.free(cell, 2)
        hs = symbols_of(vs)
        v = vs
        corners = [(0, 1, 2), (1, 3, 0), (2, 0, 3), (3, 2, 1)]

        def det2(a, b, c, v):
            return (v[b][0] - v[a][0]) * (v[c][1] - v[a][1]) - (v[b][1] - v[a][1]) * (v[c][0] - v[a][0])

        def area(v):
            return (det2(0, 1, 2, v) + det2(3, 2, 1, v)) / 2

        def assume(ctx, sign):
            # convex, with either orientation
            return [ctx.real(sign * det2(a, b, c, v)) > 0 for a, b, c in corners]
    else:
        vs = list(base)
        moved = 4 if cell == "hexahedron" else mv
        vs = [tuple(c) for c in vs]
        # prism: the top slides and shrinks; hexahedron: the top face is scaled (a frustum); pyramid: the base corner moves in its plane
        if cell == "hexahedron":
            vs = [v if v[2] == 0 else (d[0] * v[0], d[1] * v[1], v[2]) for v in vs]
        elif cell == "prism":
            vs = [v if v[2] == 0 else (v[0], v[1], v[2] + d[0] * v[0] + d[1] * v[1]) for v in vs]
        else:
            vs[3] = (d[0], d[1], sympy.Integer(0))
        hs = symbols_of(vs)
        v = vs

        def area(v):
            if cell == "hexahedron":
                a, b = v[7][0], v[7][1]
                return (2 + a + b + 2 * a * b) / 6
            if cell == "prism":
                a, b = v[4][2] - 1, v[5][2] - 1
                return R(1, 2) + (a + b) / 6
            return (v[3][0] + v[3][1]) / 6

        def assume(ctx, sign):
            if cell == "hexahedron":
                return [ctx.real(c) > 0 for c in hs]
            if cell == "prism":
                return [ctx.real(c) > -1 for c in hs]
            return [ctx.real(sum(hs)) > 1] + [ctx.real(c) > 0 for c in hs]

    ref = symfem.create_reference(cell, tuple(vs))
    vol = ref.volume()
    for sign in ((1, -1) if cell == "quadrilateral" else (1,)):
        def replay(m, sign=sign):
            cv = put(v, m)
            return differ(symfem.create_reference(cell, cv).volume(), sign * area(cv))

        ctx = smt.Ctx()
        rep.equal(vol, sign * area(v), f"volume of a {cell} that is not an affine copy", guard(replay), ctx=ctx, assume=assume(ctx, sign), symbols=hs,
                  key=f"volume of a {cell} that is not an affine copy")
    return rep.result()


def plane_quadrilateral():
    """Area of a plane, not necessarily affine, quadrilateral in space."""
    rep = harness.Rep(max_violations=1)
    p, q, a, b = [sym(c) for c in "pqab"]
    o = tuple(sym(f"o{i}") for i in range(3))
    # the plane is spanned by two orthogonal vectors of known length, so the area is rational
    vs = [o, tuple(c + k for c, k in zip(o, (3, 4, 0))), tuple(c + p * k for c, k in zip(o, (0, 0, 5))),
          tuple(c + a * k + b * k2 for c, k, k2 in zip(o, (3, 4, 0), (0, 0, 5)))]
    hs = symbols_of(vs)

    def area(p, a, b):
        return R(25, 2) * (p * a + b)

    def replay(m):
        return differ(symfem.create_reference("quadrilateral", put(vs, m)).volume(),
                      area(m.get(p, sympy.Integer(0)), m.get(a, sympy.Integer(0)), m.get(b, sympy.Integer(0))))

    ctx = smt.Ctx()
    assume = [ctx.real(p) > 0, ctx.real(a) > 0, ctx.real(b) > 0, ctx.real(a * p + b - p) > 0]
    got = symfem.create_reference("quadrilateral", tuple(vs)).volume()
    z = ctx.real(sympy.sympify(got))
    rep.never(ctx, z < 0, hs, "area in space is negative", guard(replay), assume=assume)
    rep.equal(sympy.expand(sympy.sympify(got) ** 2), sympy.expand(area(p, a, b) ** 2), "area of a plane quadrilateral in space", guard(replay), ctx=ctx,
              assume=assume, symbols=hs)
    return rep.result()


def dual(n):
    """Dual polygons: vertices, midpoint and edges."""
    rep = harness.Rep(max_violations=2)
    ref = symfem.create_reference(f"dual polygon({n})")
    vs = ref.vertices
    rep.info["obligations"] += 1
    if len(vs) != 2 * n or ref.sub_entity_count(1) != 2 * n:
        rep.violate(f"dual polygon({n}) has {len(vs)} vertices and {ref.sub_entity_count(1)} edges")
        return rep.result()
    k = sympy.cos(sympy.pi / n)
    want = []
    for i in range(n):
        a, b = 2 * sympy.pi * i / n, 2 * sympy.pi * (i + 1) / n
        p, q = (sympy.cos(a), sympy.sin(a)), (sympy.cos(b), sympy.sin(b))
        want += [p, tuple((s + t) / 2 for s, t in zip(p, q))]
    for i, (g, w) in enumerate(zip(vs, want)):
        d = [sympy.simplify(s - t) for s, t in zip(g, w)]
        rep.equal(d, [0, 0], f"vertex {i} of dual polygon({n})", guard(lambda m, g=g, w=w: differ(sympy.N(sum(g), 30), sympy.N(sum(w), 30), 1e-20)))
    for i in range(2 * n):
        e = ref.sub_entity(1, i)
        rep.equal([sympy.simplify(c - d) for p, q in zip(e.vertices, (want[i], want[(i + 1) % (2 * n)])) for c, d in zip(p, q)], [0] * 4,
                  f"edge {i} of dual polygon({n})", guard(lambda m, i=i: f"edge {i}"))
    del k
    return rep.result()


def jobs(tier):
    out = []
    for c in ALL:
        td = cells.TDIM[c]
        for gd in range(td, 4):
            out.append((f"measures {c} {gd}D", measures, (c, gd)))
            out.append((f"entities {c} {gd}D", entities, (c, gd)))
            out.append((f"tangents {c} {gd}D", directions, (c, gd, "tangent", True)))
            if gd > 1:
                out.append((f"normals {c} {gd}D", directions, (c, gd, "normal", True)))
    for c in ("quadrilateral", "hexahedron", "prism", "pyramid"):
        out.append((f"skewed {c}", skewed, (c,)))
    out.append(("plane quadrilateral in 3D", plane_quadrilateral, ()))
    for n in (3, 4, 5, 6) if tier == "quick" else range(3, 13):
        out.append((f"dual polygon {n}", dual, (n,)))
    return out


if __name__ == "__main__":
    runner.main(
        "C19", jobs, "other",
        "cells created with symbolic vertex coordinates; z3 refutes positions for which a quantity the cell reports differs from the geometric one "
        "(lengths and areas through their squares and signs, unit vectors through the root of the squared length)",
        "all non-degenerate positions (affine for measures of hexahedra, prisms and pyramids); every geometric dimension up to 3; dual polygons of 3-6 (12) triangles",
        ["sympy's square roots are read as the non-negative root of their argument"],
        ["Reference.volume", "Reference.jacobian", "Reference.midpoint", "Reference.tangent", "Reference.normal", "Reference.scaled_axes",
         "Reference.get_point", "Reference.sub_entity", "Reference.sub_entities", "create_reference"],
        "Volumes, Jacobians, midpoints, axes, tangents, normals and sub-entities.",
    )
