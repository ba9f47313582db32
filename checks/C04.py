"""C04: cell maps and their inverses."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.realpath(__file__))))
from lib import boot, cells, harness, runner, smt  # noqa: E402,F401

import sympy  # noqa: E402

import symfem  # noqa: E402
from symfem.symbols import x  # noqa: E402

at, flat, differ, guard = harness.at, harness.flat, harness.differ, harness.guard
AFFINE = [("interval", 1), ("interval", 2), ("interval", 3), ("triangle", 2), ("quadrilateral", 2),
          ("quadrilateral", 3), ("tetrahedron", 3), ("hexahedron", 3), ("prism", 3), ("pyramid", 3)]
# self maps also exist for triangles embedded in 3D
SELF = AFFINE + [("triangle", 3)]


def mp(m, p):
    """Evaluate a map (tuple of terms in x) at a point (one coordinate after the other: at the apex
    of a pyramid the map to a cell with a general base is only defined as such a limit)."""
    out = []
    for i in m:
        i = sympy.sympify(i)
        for v, q in zip(x, p):
            i = i.subs(v, q)
        out.append(i)
    return tuple(out)


def params(td):
    return tuple(harness.sym(f"p{i}") for i in range(td))


def fwd_inv(cell, gdim, own):
    """map then inverse map is the identity on the reference cell; vertices go to vertices."""
    rep = harness.Rep()
    V, o, axes = cells.affine(cell, gdim)
    td = cells.TDIM[cell]
    p = params(td)

    def maps(verts):
        if own:
            r = symfem.create_reference(cell, verts)
            return r.get_map_to_self(), r.get_inverse_map_to_self()
        r = symfem.create_reference(cell)
        return r.get_map_to(verts), r.get_inverse_map_to(verts)

    f, g = maps(V)
    syms = sorted({s for v in V for c in v for s in c.free_symbols} | set(p), key=str)
    gr = cells.gram(axes)

    def replay_rt(vals):
        f, g = maps(at(V, vals))
        q = tuple(vals[s] for s in p)
        return differ(mp(g, mp(f, q)), q)

    ctx = smt.Ctx()
    nondeg = ctx.bool(sympy.Ne(gr, 0))
    assume = [nondeg]
    if cell == "pyramid":
        assume.append(ctx.bool(sympy.Ne(p[2], 1)))
    rep.reachable(ctx, assume, f"{cell} {gdim}")
    back = mp(g, mp(f, p))
    rep.equal(back, p, "inverse map after map is not the identity", guard(replay_rt), ctx, assume, symbols=syms)
    if cell != "pyramid":
        rep.defined(ctx, syms, "map is undefined on a non-degenerate cell", guard(replay_rt), assume)
    # the inverse is zero/one on the vertices
    ref = cells.DEFAULT[cell]
    for i, r in enumerate(ref):
        def replay_v(vals, i=i, r=r):
            f, g = maps(at(V, vals))
            return differ(mp(g, at(V[i], vals)), r) or differ(mp(f, r), at(V[i], vals))

        c = smt.Ctx()
        rep.equal(mp(f, r), V[i], f"vertex {i} is not mapped to vertex {i}", guard(replay_v), c, symbols=syms)
        c = smt.Ctx()
        rep.equal(mp(g, V[i]), r, f"inverse map of vertex {i}", guard(replay_v), c,
                  [c.bool(sympy.Ne(gr, 0))], symbols=syms)
    if gdim == td:
        X = tuple(harness.sym(f"X{i}") for i in range(gdim))

        def replay_fr(vals):
            f, g = maps(at(V, vals))
            q = tuple(vals[s] for s in X)
            return differ(mp(f, mp(g, q)), q)

        c = smt.Ctx()
        a = [c.bool(sympy.Ne(gr, 0))]
        q = mp(g, X)
        if cell == "pyramid":
            a.append(c.bool(sympy.Ne(q[2], 1)))
        rep.equal(mp(f, q), X, "map after inverse map is not the identity", guard(replay_fr), c, a,
                  symbols=[s for s in syms if s not in p] + list(X))
    return rep.result()


def free_vertices(cell, gdim):
    """Any vertices (no affinity assumed): vertices to vertices, edges and faces to edges and faces."""
    rep = harness.Rep()
    V = cells.free(cell, gdim)
    syms = [s for v in V for s in v]
    r = symfem.create_reference(cell)
    ref = cells.DEFAULT[cell]
    f = r.get_map_to(V)
    fs = symfem.create_reference(cell, V).get_map_to_self()
    for i, q in enumerate(ref):
        def replay(vals, i=i, q=q):
            W = at(V, vals)
            return (differ(mp(symfem.create_reference(cell).get_map_to(W), q), W[i])
                    or differ(mp(symfem.create_reference(cell, W).get_map_to_self(), q), W[i]))

        rep.equal(mp(f, q), V[i], f"vertex {i}", guard(replay), symbols=syms)
        rep.equal(mp(fs, q), V[i], f"vertex {i} (own map)", guard(replay), symbols=syms)
    td = cells.TDIM[cell]
    for dim in range(1, td):
        for n, vs in enumerate(r.sub_entities(dim)):
            et = r.sub_entity(dim, n).name
            s = params(dim)
            e0 = mp(symfem.create_reference(et).get_map_to(tuple(ref[v] for v in vs)), s)
            sub = symfem.create_reference(et).get_map_to(tuple(V[v] for v in vs))

            def replay(vals, vs=vs, et=et, s=s):
                W = at(V, vals)
                q = tuple(vals[k] for k in s)
                a = mp(symfem.create_reference(et).get_map_to(tuple(sympy.S(c) for c in ref[v]) for v in vs) if False
                       else symfem.create_reference(et).get_map_to(tuple(ref[v] for v in vs)), q)
                lhs = mp(symfem.create_reference(cell).get_map_to(W), a)
                rhs = mp(symfem.create_reference(et).get_map_to(tuple(W[v] for v in vs)), q)
                return differ(lhs, rhs)

            rep.equal(mp(f, e0), mp(sub, s), f"map does not take entity ({dim},{n}) to that entity",
                      guard(replay), symbols=syms + list(s))
    return rep.result()


def point(gdim):
    """The map from the reference point to any point, and its inverse."""
    rep = harness.Rep()
    v = tuple(harness.sym(f"v{j}") for j in range(gdim))
    cell = {1: "interval", 2: "triangle", 3: "pyramid"}[gdim]
    V = cells.free(cell, gdim)

    def maps(w):
        r = symfem.create_reference("point")
        s = symfem.create_reference("point", (w,))
        return [r.get_map_to((w,)), s.get_map_to_self(), s.default_reference().get_map_to((w,))]

    def backs(w):
        r = symfem.create_reference("point")
        s = symfem.create_reference("point", (w,))
        return [r.get_inverse_map_to((w,)), s.get_inverse_map_to_self(), s.default_reference().get_inverse_map_to((w,))]

    for k, m in enumerate(maps(v)):
        rep.equal(tuple(m), v, "map to a point", guard(lambda vals, k=k: differ(maps(at(v, vals))[k], at(v, vals))), symbols=list(v))
    for m in backs(v):
        if tuple(m) != ():
            rep.violate(f"inverse map of a point is {m}", {}, f"map to a point in dimension {gdim}")
    for i, w in enumerate(V):
        def own(vals, i=i):
            W = at(V, vals)
            return differ(symfem.create_reference(cell, W).sub_entity(0, i).get_map_to_self(), W[i])

        got = symfem.create_reference(cell, V).sub_entity(0, i).get_map_to_self()
        rep.equal(tuple(got), w, f"map to vertex {i} of {cell}", guard(own), symbols=[c for p in V for c in p])
    return rep.result()


def jobs(tier):
    out = []
    for g in [1, 2, 3]:
        out.append((f"point gdim {g}", point, (g,)))
    for c, g in AFFINE:
        out.append((f"map {c} gdim {g}", fwd_inv, (c, g, False)))
    for c, g in SELF:
        out.append((f"own map {c} gdim {g}", fwd_inv, (c, g, True)))
    for c, g in [("interval", 1), ("interval", 2), ("interval", 3), ("triangle", 2), ("triangle", 3),
                 ("quadrilateral", 2), ("quadrilateral", 3), ("tetrahedron", 3), ("hexahedron", 3),
                 ("prism", 3), ("pyramid", 3)]:
        out.append((f"free vertices {c} gdim {g}", free_vertices, (c, g)))
    return out


if __name__ == "__main__":
    runner.main(
        "C04", jobs, "other",
        "symbolic execution of the real map builders on symbolic vertices, z3 (QF_NRA) refutes every difference",
        "every cell type except dual polygons, geometric dimension 1-3; vertices are unbounded reals "
        "(non-degenerate; affine copies where an inverse is claimed), points unbounded reals",
        ["sympy arithmetic and Matrix.inv build the terms (trusted)", "pyramid: points with z != 1 (apex limit excluded)"],
        ["Reference.get_map_to", "Reference.get_inverse_map_to", "Reference.get_map_to_self",
         "Reference.get_inverse_map_to_self", "create_reference"],
        "For each cell the real map and inverse-map builders are executed on symbolic vertices; z3 shows that the "
        "compositions are the identity for all vertices and points, or returns vertices that are replayed.")
