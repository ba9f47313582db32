"""C25: lattices are the interior or closed lattices they name."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.realpath(__file__))))
from lib import boot, cells, harness, runner, smt, symexec  # noqa: E402,F401

import symfem  # noqa: E402
import sympy  # noqa: E402
import z3  # noqa: E402

guard, differ, sym = harness.guard, harness.differ, harness.sym
symexec.install()
R = sympy.Rational


def symbols_of(vs):
    return sorted({s for v in vs for c in v for s in sympy.sympify(c).free_symbols}, key=str)


def put(vs, m):
    return tuple(tuple(sympy.sympify(c).subs({s: m.get(s, sympy.Integer(0)) for s in sympy.sympify(c).free_symbols}) for c in v) for v in vs)


def interior(cell, n):
    """Indices of the points of the lattice offset from the boundary."""
    td = cells.TDIM[cell]
    if cell == "interval":
        return [(i,) for i in range(n)]
    if cell == "triangle":
        return [(i, j) for i in range(n) for j in range(n - i)]
    if cell == "tetrahedron":
        return [(i, j, k) for i in range(n) for j in range(n - i) for k in range(n - i - j)]
    if cell == "prism":
        return [(i, j, k) for i in range(n) for j in range(n - i) for k in range(n + 1)]
    if td == 2:
        return [(i, j) for i in range(n + 1) for j in range(n + 1)]
    return [(i, j, k) for i in range(n + 1) for j in range(n + 1) for k in range(n + 1)]


def closed(cell, n):
    if cell == "interval":
        return [(i,) for i in range(n)]
    if cell == "triangle":
        return [(i, j) for i in range(n) for j in range(n - i)]
    return [(i, j) for i in range(n) for j in range(n)]


def inside_formula(ctx, cell, lam, strict):
    lt = (lambda a, b: a < b) if strict else (lambda a, b: a <= b)
    x = [ctx.real(c) for c in lam]
    zero, one = z3.RealVal(0), z3.RealVal(1)
    low = [lt(zero, c) for c in x]
    if cell in ("triangle", "tetrahedron"):
        return z3.And(*low, lt(z3.Sum(x), one))
    if cell == "prism":
        return z3.And(*low, lt(x[0] + x[1], one), lt(x[2], one))
    return z3.And(*low, *[lt(c, one) for c in x])


def make(cell, vs, n, lines):
    ref = symfem.create_reference(cell, vs)
    if lines:
        return ref.make_lattice_with_lines(n)
    return ref.make_lattice(n), None


def scaled(cell, n, gdim, lines):
    """The lattice of a cell with symbolic vertices, as coordinates along its axes."""
    rep = harness.Rep(max_violations=2)
    what = f"{'closed' if lines else 'interior'} lattice of {n} points on the {cell} in {gdim}D"
    if cell in ("hexahedron", "prism"):
        vs = tuple(tuple(sympy.Integer(c) for c in v) for v in cells.DEFAULT[cell])
        o, axes = vs[0], [tuple(sympy.Integer(int(i == j)) for j in range(3)) for i in range(3)]
    else:
        vs, o, axes = cells.affine(cell, gdim)
    hs = symbols_of(vs)
    pts, pairs = make(cell, vs, n, lines)
    ids = closed(cell, n) if lines else interior(cell, n)
    pos = [tuple(R(i, n - 1) if lines else R(2 * i + 1, 2 * (n + 1)) for i in e) for e in ids]
    want = [tuple(c + sum(k * a[j] for k, a in zip(p, axes)) for j, c in enumerate(o)) for p in pos]

    def replay(m):
        cv = put(vs, m)
        got, _ = make(cell, cv, n, lines)
        w = put(want, m)
        if len(got) != len(w):
            return f"{len(got)} points instead of {len(w)}"
        miss = [p for p in w if p not in got]
        if miss:
            return f"{miss[0]} is not among the points {got}"
        return None

    rep.info["obligations"] += 1
    if len(pts) != len(want):
        rep.violate(f"{what}: {len(pts)} points instead of {len(want)}")
        return rep.result()
    # the order of the points is free: match them by their coordinates along the axes
    probe = {s: R(i * i + 3 * i + 5, 7 + i) for i, s in enumerate(hs)}
    where = {tuple(p): i for i, p in enumerate(put(want, probe))}
    order = [where.get(tuple(p)) for p in put(pts, probe)]
    if None in order or len(set(order)) != len(order):
        msg = replay(probe)
        rep.violate(f"{what}: {msg or 'points coincide'}")
        return rep.result()
    rep.equal(pts, [want[i] for i in order], what, guard(replay), symbols=hs)
    if rep.full():
        return rep.result()
    # the points are established to have these coordinates along the axes: they lie (strictly) inside, and none coincide
    for n_, i in enumerate(order):
        ctx = smt.Ctx()
        lam = [sym(f"l{j}") for j in range(len(axes))]
        zl = [ctx.real(c) for c in lam]
        eq = [z == ctx.real(c) for z, c in zip(zl, pos[i])]

        def outside(m, n_=n_):
            q = make(cell, vs, n, lines)[0][n_]
            return f"point {put([q], probe)[0]} of the cell {put(vs, probe)} lies outside or on the boundary"

        rep.never(ctx, z3.Not(inside_formula(ctx, cell, lam, not lines)), lam, f"{what}: position of point {n_}", guard(outside), assume=eq)
        if rep.full():
            return rep.result()
    ctx = smt.Ctx()
    same = [z3.And(*[ctx.real(a) == ctx.real(b) for a, b in zip(pos[i], pos[j])]) for k, i in enumerate(order) for j in order[:k]]
    rep.never(ctx, z3.Or(*same, z3.BoolVal(False)), [], f"{what}: distinct points", guard(lambda m: "points coincide"))
    if lines:
        rep.info["obligations"] += 1
        msg = bad_lines(pairs, [ids[i] for i in order], cell)
        if msg:
            rep.violate(f"{what}: {msg}")
    return rep.result()


def bad_lines(pairs, ids, cell):
    """The lines are the segments between neighbouring points, each once."""
    steps = {1: [(1,)], 2: [(1, 0), (0, 1), (1, -1)]}[len(ids[0])]
    seen = set()
    for a, b in pairs:
        if not (0 <= a < len(ids) and 0 <= b < len(ids)):
            return f"line ({a}, {b}) joins points that are not there"
        d = tuple(q - p for p, q in zip(ids[a], ids[b]))
        if d not in steps and tuple(-c for c in d) not in steps:
            return f"line ({a}, {b}) joins points that are not neighbours"
        k = tuple(sorted((a, b)))
        if k in seen:
            return f"line {k} is there twice"
        seen.add(k)
    where = {e: i for i, e in enumerate(ids)}
    for e in ids:
        for s in steps:
            f = tuple(p + q for p, q in zip(e, s))
            if f in where and tuple(sorted((where[e], where[f]))) not in seen:
                return f"points {where[e]} and {where[f]} are not joined"
    return None


def floats(cell, n, lines):
    """Float lattices are the exact ones, rounded."""
    rep = harness.Rep(max_violations=1)
    for vs in (cells.DEFAULT[cell], [tuple(R(3 * i * i + 5 * j + 2 * i * j + 1, 7) for j in range(cells.TDIM[cell])) for i in range(len(cells.DEFAULT[cell]))]):
        if cell not in ("interval", "triangle") and vs is not cells.DEFAULT[cell]:
            continue
        ref = symfem.create_reference(cell, tuple(vs))
        if lines:
            exact, p1 = ref.make_lattice_with_lines(n)
            got, p2 = ref.make_lattice_with_lines_float(n)
        else:
            exact, p1 = ref.make_lattice(n), None
            got, p2 = ref.make_lattice_float(n), None
        rep.info["obligations"] += 1
        if len(got) != len(exact) or (p1 is not None and list(map(tuple, p1)) != list(map(tuple, p2))):
            rep.violate(f"{cell} {n}: float lattice has {len(got)} points")
            continue
        if not all(isinstance(c, (sympy.Float, float)) for p in got for c in p):
            rep.violate(f"{cell} {n}: entries of the float lattice are not floats")
        d = [abs(R(str(c)) - e) for p, q in zip(got, exact) for c, e in zip(p, q)]
        ctx = smt.Ctx()
        rep.never(ctx, z3.Or(*[ctx.real(c) > ctx.real(R(1, 10**12)) for c in d]), [], f"{cell} {n}: float lattice", guard(lambda m, d=d: f"differs by {max(d)}"))
    return rep.result()


def dual(n, k):
    """Lattice of a dual polygon: the lattices of its triangles."""
    rep = harness.Rep(max_violations=1)
    ref = symfem.create_reference(f"dual polygon({k})")
    pts = ref.make_lattice(n)
    h = n // 2
    want = []
    for v, w in zip(ref.vertices, ref.vertices[1:] + ref.vertices[:1]):
        want += [tuple(R(2 * i + 1, 2 * (h + 1)) * a + R(2 * j + 1, 2 * (h + 1)) * b for a, b in zip(v, w)) for i in range(h) for j in range(h - i)]
    rep.info["obligations"] += 1
    if len(pts) != len(want):
        rep.violate(f"dual polygon({k}): {len(pts)} points instead of {len(want)}")
        return rep.result()
    num = [tuple(round(float(c), 9) + 0.0 for c in p) for p in pts]
    where = {p: i for i, p in enumerate(tuple(round(float(c), 9) + 0.0 for c in q) for q in want)}
    order = [where.get(p) for p in num]
    if None in order or len(set(order)) != len(order):
        rep.violate(f"dual polygon({k}): point {num[order.index(None)] if None in order else num} is not in the lattice")
        return rep.result()
    d = [sympy.radsimp(sympy.expand(a - b)) for p, i in zip(pts, order) for a, b in zip(p, want[i])]
    rep.equal(d, [0] * len(d), f"dual polygon({k})", guard(lambda m: None))
    return rep.result()


def jobs(tier):
    quick = tier == "quick"
    top = 6 if quick else 14
    out = []
    for cell, gds in (("interval", (1, 2, 3)), ("triangle", (2, 3)), ("quadrilateral", (2, 3)), ("tetrahedron", (3,)), ("hexahedron", (3,)), ("prism", (3,))):
        for n in range(1, top + 1):
            if cells.TDIM[cell] == 3 and n > (4 if quick else 7):
                continue
            for g in gds:
                out.append((f"interior {cell} {n} {g}D", scaled, (cell, n, g, False)))
                if n > 1 and cells.TDIM[cell] < 3:
                    out.append((f"closed {cell} {n} {g}D", scaled, (cell, n, g, True)))
            out.append((f"floats interior {cell} {n}", floats, (cell, n, False)))
            if n > 1 and cells.TDIM[cell] < 3:
                out.append((f"floats closed {cell} {n}", floats, (cell, n, True)))
    for k in (3, 4, 6):
        for n in (2, 3, 4) if quick else range(2, 9):
            out.append((f"dual polygon({k}) {n}", dual, (n, k)))
    return out


if __name__ == "__main__":
    runner.main(
        "C25", jobs, "other",
        "lattices made on cells with symbolic vertices; z3 refutes positions of the vertices for which a point is not where the regular lattice has it, "
        "is not (strictly) inside, or coincides with another",
        "up to 6 (14) points per edge, 4 (7) in 3D; all non-degenerate positions of intervals, triangles, parallelograms and tetrahedra in up to 3 dimensions; "
        "default hexahedra and prisms (others are refused); lines compared with the pairs of neighbours",
        ["the order of the points is free"],
        ["Reference.make_lattice", "Reference.make_lattice_with_lines", "Reference.make_lattice_float", "Reference.make_lattice_with_lines_float"],
        "Interior and closed lattices, their lines and float versions.",
    )
