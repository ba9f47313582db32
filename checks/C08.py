"""C08: piecewise functions act cell by cell."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.realpath(__file__))))
from lib import boot, cells, elem, elements, harness, runner, smt, symexec  # noqa: E402,F401
from lib.fun import P  # noqa: E402

import sympy  # noqa: E402
import z3  # noqa: E402

import symfem  # noqa: E402
from symfem.functions import parse_function_input  # noqa: E402
from symfem.piecewise_functions import PiecewiseFunction  # noqa: E402

guard, differ, sym, flat = harness.guard, harness.differ, harness.sym, harness.flat
symexec.install()
X = elem.X
R = sympy.Rational
H = R(1, 2)
SPLIT = {
    1: [((0,), (R(1, 3),)), ((R(1, 3),), (1,))],
    2: [((0, 0), (1, 0), (R(1, 3), R(1, 3))), ((1, 0), (0, 1), (R(1, 3), R(1, 3))), ((0, 1), (0, 0), (R(1, 3), R(1, 3)))],
    3: [((0, 0, 0), (1, 0, 0), (0, H, H), (0, 1, 0)), ((0, 0, 0), (1, 0, 0), (0, H, H), (0, 0, 1))],
    "mixed": [((0, 0), (H, 0), (0, 1), (H, 1)), ((H, 0), (1, 0), (H, 1)), ((1, 0), (1, 1), (H, 1))],
}


def dim(split):
    return 2 if split == "mixed" else split


def centre(cell):
    return tuple(sum(sympy.sympify(v[i]) for v in cell) / len(cell) for i in range(len(cell[0])))


def table(kind, tag, td, deg, k):
    """Component terms of the k-th piece."""
    if kind == "s":
        return P.gen(f"{tag}{k}_", td, deg).expr()
    n = {"v": td, "v2": 2, "v3": 3, "m": 2}[kind]
    if kind != "m":
        return [P.gen(f"{tag}{k}{i}_", td, deg).expr() for i in range(n)]
    return [[P.gen(f"{tag}{k}{i}{j}_", td, deg).expr() for j in range(2)] for i in range(2)]


def deep(f, d):
    return [deep(f, i) for i in d] if isinstance(d, list) else f(sympy.sympify(d))


def plain(d):
    if isinstance(d, list):
        return tuple(plain(i) for i in d)
    return d


def make(split, tabs, reverse=False):
    items = list(zip(SPLIT[split], tabs))
    if reverse:
        items.reverse()
    return PiecewiseFunction({c: plain(t) for c, t in items}, dim(split))


def piece_at(g, cell):
    """The components of a function on a sub-cell."""
    if hasattr(g, "get_piece"):
        g = g.get_piece(centre(cell))
    return flat(g)


def M(d):
    return sympy.Matrix(d)


def zipw(f, a, b):
    return [zipw(f, i, j) for i, j in zip(a, b)] if isinstance(a, list) else f(a, b)


def grad(e, n):
    return [sympy.diff(e, X[i]) for i in range(n)]


def FN(e):
    from symfem.functions import parse_function_input
    return parse_function_input(e)


def like(f, e):
    return (e, e) if f.is_vector else e


# name -> (kinds, real operation, value from the tables)
BINARY = {
    "+": ([("s", "s"), ("v", "v"), ("m", "m")], lambda f, g: f + g, lambda a, b: zipw(lambda p, q: p + q, a, b)),
    "-": ([("s", "s"), ("v", "v"), ("m", "m")], lambda f, g: f - g, lambda a, b: zipw(lambda p, q: p - q, a, b)),
    "*": ([("s", "s"), ("s", "v"), ("v", "s"), ("s", "m"), ("m", "s")], lambda f, g: f * g,
          lambda a, b: deep(lambda p: p * b, a) if not isinstance(b, list) else deep(lambda p: a * p, b)),
    "/": ([("s", "s"), ("v", "s"), ("m", "s")], lambda f, g: f / g, lambda a, b: deep(lambda p: p / b, a)),
    "@": ([("m", "m")], lambda f, g: f @ g, lambda a, b: (M(a) * M(b)).tolist()),
    "matrix times vector": ([("m", "v2")], lambda f, g: f @ g, lambda a, b: flat(M(a) * M(b))),
    "dot": ([("v", "v"), ("s", "s"), ("m", "m")], lambda f, g: f.dot(g), lambda a, b: sum(p * q for p, q in zip(flat(plain(a)), flat(plain(b))))),
    "reflected +": ([("s", "s"), ("v", "v"), ("m", "m")], lambda f, g: f.__radd__(g), lambda a, b: zipw(lambda p, q: p + q, a, b)),
    "reflected -": ([("s", "s"), ("v", "v"), ("m", "m")], lambda f, g: f.__rsub__(g), lambda a, b: zipw(lambda p, q: q - p, a, b)),
    "reflected *": ([("s", "s"), ("v", "s")], lambda f, g: f.__rmul__(g), lambda a, b: deep(lambda p: p * b, a)),
    "reflected /": ([("s", "s"), ("s", "v")], lambda f, g: f.__rtruediv__(g), lambda a, b: deep(lambda p: p / a, b)),
    "reflected @": ([("m", "m")], lambda f, g: f.__rmatmul__(g), lambda a, b: (M(b) * M(a)).tolist()),
    "cross": ([("v3", "v3")], lambda f, g: f.cross(g), lambda a, b: flat(M(a).cross(M(b)))),
}
UNARY = {
    "-": (("s", "v", "m"), lambda f, td: -f, lambda a, td: deep(lambda p: -p, a)),
    "** 2": (("s",), lambda f, td: f**2, lambda a, td: a**2),
    "plus an expression": (("s",), lambda f, td: f + (X[0] + 2), lambda a, td: a + X[0] + 2),
    "added to a function": (("s",), lambda f, td: FN(X[0] + 2) + f, lambda a, td: X[0] + 2 + a),
    "added to a number": (("s",), lambda f, td: 2 + f, lambda a, td: 2 + a),
    "minus an expression": (("s",), lambda f, td: f - (X[0] + 2), lambda a, td: a - X[0] - 2),
    "taken from a number": (("s",), lambda f, td: 2 - f, lambda a, td: 2 - a),
    "taken from a function": (("s", "v2"), lambda f, td: FN(like(f, X[0] + 2)) - f, lambda a, td: deep(lambda p: X[0] + 2 - p, a)),
    "times an expression": (("s", "v", "m"), lambda f, td: f * (X[0] + 2), lambda a, td: deep(lambda p: p * (X[0] + 2), a)),
    "multiple": (("s", "v", "m"), lambda f, td: 2 * f, lambda a, td: deep(lambda p: 2 * p, a)),
    "times a function from the left": (("s", "v"), lambda f, td: FN(X[0] + 2) * f, lambda a, td: deep(lambda p: p * (X[0] + 2), a)),
    "divided by a number": (("s", "v", "m"), lambda f, td: f / 3, lambda a, td: deep(lambda p: p / 3, a)),
    "a number divided by it": (("s",), lambda f, td: 3 / f, lambda a, td: 3 / a),
    "matrix applied": (("v2",), lambda f, td: FN([[1, 2], [X[0], 3]]) @ f, lambda a, td: flat(M([[1, 2], [X[0], 3]]) * M(a))),
    "times a matrix": (("m",), lambda f, td: f @ FN([[1, 2], [X[0], 3]]), lambda a, td: (M(a) * M([[1, 2], [X[0], 3]])).tolist()),
    "matrix times it": (("m",), lambda f, td: FN([[1, 2], [X[0], 3]]) @ f, lambda a, td: (M([[1, 2], [X[0], 3]]) * M(a)).tolist()),
    "diff": (("s", "v", "m"), lambda f, td: f.diff(X[td - 1]), lambda a, td: deep(lambda p: sympy.diff(p, X[td - 1]), a)),
    "directional derivative": (("s",), lambda f, td: f.directional_derivative(tuple(R(i + 1, 3) for i in range(td))),
                               lambda a, td: sum(R(i + 1, 3) * sympy.diff(a, X[i]) for i in range(td))),
    "grad": (("s",), lambda f, td: f.grad(td), lambda a, td: grad(a, td)),
    "jacobian": (("s",), lambda f, td: f.jacobian(td), lambda a, td: [grad(p, td) for p in grad(a, td)]),
    "hessian component": (("s",), lambda f, td: f.jacobian_component((0, td - 1)), lambda a, td: sympy.diff(a, X[0], X[td - 1])),
    "div": (("v",), lambda f, td: f.div(), lambda a, td: sum(sympy.diff(p, X[i]) for i, p in enumerate(a))),
    "curl": (("v3",), lambda f, td: f.curl(), lambda a, td: [sympy.diff(a[2], X[1]) - sympy.diff(a[1], X[2]),
                                                             sympy.diff(a[0], X[2]) - sympy.diff(a[2], X[0]), sympy.diff(a[1], X[0]) - sympy.diff(a[0], X[1])]),
    "transpose": (("m",), lambda f, td: f.transpose(), lambda a, td: [[a[j][i] for j in range(2)] for i in range(2)]),
    "det": (("m",), lambda f, td: f.det(), lambda a, td: a[0][0] * a[1][1] - a[0][1] * a[1][0]),
    "first entry": (("v2", "v3"), lambda f, td: f[0], lambda a, td: a[0]),
    "last entry": (("v2", "v3"), lambda f, td: f[-1], lambda a, td: a[-1]),
    "entry (1,0)": (("m",), lambda f, td: f[1, 0], lambda a, td: a[1][0]),
    "other variable substituted": (("s", "v", "m"), lambda f, td: f.subs(X[0], X[td - 1] + 2), lambda a, td: deep(lambda p: p.subs(X[0], X[td - 1] + 2), a)),
    "expressions substituted": (("s", "v"), lambda f, td: f.subs(X[:td], tuple(X[i] * 2 + 1 for i in range(td))),
                                lambda a, td: deep(lambda p: p.subs({X[i]: X[i] * 2 + 1 for i in range(td)}, simultaneous=True), a)),
    "norm": (("v2", "v3"), lambda f, td: f.norm(), None),
}


def shape_of(t):
    if not isinstance(t, list):
        return ()
    return (len(t), len(t[0])) if isinstance(t[0], list) else (len(t),)


def at_values(tabs, m):
    return [deep(lambda p: p.subs({k: v for k, v in m.items() if k not in X}), t) for t in tabs]


def numbers(tabs):
    ss = sorted(set().union(*[sympy.sympify(e).free_symbols for t in tabs for e in flat(plain(t))]) - set(X), key=str)
    return {s: R(i + 1, 2) for i, s in enumerate(ss)}


def confirm(what, call):
    """An exception for symbolic coefficients counts when it also happens for numbers."""
    try:
        call()
    except Exception as err:  # noqa: BLE001
        raise smt.RealCodeFailure(f"{what}: real code raised {type(err).__name__}: {err}") from err


def binary(split, op, kinds, other):
    """f op g (and g op f for the mirrored jobs) where g is piecewise, a function, a plain value or a number."""
    rep = harness.Rep(max_violations=2)
    td = dim(split)
    n = len(SPLIT[split])
    fn, oracle = BINARY[op][1:]
    ka, kb = kinds
    ta = [table(ka, "a", td, 1, k) for k in range(n)]
    tb = [table(kb, "b", td, 1, k if other.startswith("piecewise") else 9) for k in range(n)]
    if op == "dot" and ka == "m":
        want = [sum(p * q for p, q in zip(flat(plain(a)), flat(plain(b)))) for a, b in zip(ta, tb)]
    else:
        want = [oracle(a, b) for a, b in zip(ta, tb)] if not other.endswith("left") else [oracle(b, a) for a, b in zip(ta, tb)]
    what = f"{'mirrored ' if other.endswith('left') else ''}{op} of {ka} and {kb} ({other}), split {split}"

    def run(m=None):
        a, b = (ta, tb) if m is None else (at_values(ta, m), at_values(tb, m))
        f = make(split, a)
        if other == "piecewise reordered":
            g = make(split, b, True)
        elif other.startswith("piecewise"):
            g = make(split, b)
        elif other.startswith("function"):
            g = parse_function_input(plain(b[0]))
        elif other.startswith("matrix"):
            g = sympy.Matrix(b[0])
        else:
            g = plain(b[0])
        return fn(g, f) if other.endswith("left") else fn(f, g)

    try:
        got = run()
    except AssertionError:
        if other == "piecewise reordered":
            rep.info["refused"] = 1
            rep.info["obligations"] += 1
            return rep.result()
        confirm(what, lambda: run(numbers(ta + tb)))
        raise
    except Exception:
        confirm(what, lambda: run(numbers(ta + tb)))
        raise
    for c, w in zip(SPLIT[split], want):
        def replay(m, c=c, w=w):
            return differ([sympy.sympify(e).subs(m) for e in piece_at(run(m), c)], [sympy.sympify(e).subs(m) for e in flat(plain(w))])

        rep.equal(piece_at(got, c), flat(plain(w)), f"{what} on {c}", guard(replay))
        kind = (got.is_scalar, got.is_vector, got.is_matrix)
        rep.info["obligations"] += 1
        if kind != tuple(len(shape_of(w)) == i for i in range(3)):
            rep.violate(f"{what}: result is reported as scalar/vector/matrix {kind}")
    return rep.result()


def unary(split, op, kind):
    rep = harness.Rep(max_violations=2)
    td = dim(split)
    n = len(SPLIT[split])
    _, fn, oracle = UNARY[op]
    ta = [table(kind, "a", td, 2, k) for k in range(n)]
    what = f"{op} of a piecewise function ({kind}), split {split}"
    try:
        got = fn(make(split, ta), td)
    except Exception:
        confirm(what, lambda: fn(make(split, at_values(ta, numbers(ta))), td))
        raise
    for k, c in enumerate(SPLIT[split]):
        if op == "norm":
            def replay(m, c=c, k=k):
                g = piece_at(fn(make(split, at_values(ta, m)), td), c)[0].subs(m)
                return differ(sympy.N(g, 40), sympy.N(sympy.sqrt(sum(p.subs(m)**2 for p in ta[k])), 40))

            g = piece_at(got, c)[0]
            rep.equal([sympy.expand(g**2)], [sympy.expand(sum(p**2 for p in ta[k]))], f"{what} on {c}", guard(replay))
            continue
        w = oracle(ta[k], td)

        def replay(m, c=c, k=k):
            return differ([sympy.sympify(e).subs(m) for e in piece_at(fn(make(split, at_values(ta, m)), td), c)],
                          [sympy.sympify(e).subs(m) for e in flat(plain(oracle(ta[k], td)))])

        rep.equal(piece_at(got, c), flat(plain(w)), f"{what} on {c}", guard(replay))
    return rep.result()


def lengths(split):
    rep = harness.Rep()
    td = dim(split)
    n = len(SPLIT[split])
    for kind in ("v2", "v3"):
        ta = [table(kind, "a", td, 1, k) for k in range(n)]
        f = make(split, ta)
        rep.info["obligations"] += 1
        if len(f) != len(ta[0]) or tuple(f.shape) != (len(ta[0]),):
            rep.violate(f"piecewise vector of length {len(ta[0])} has length {len(f)} and shape {f.shape}")
        # the entries met when iterating
        for i, g in zip(range(len(ta[0])), (f[j] for j in range(len(f)))):
            for k, c in enumerate(SPLIT[split]):
                rep.equal(piece_at(g, c), [ta[k][i]], f"entry {i} on {c}", guard(lambda m: None))
        fl = f.with_floats()
        for k, c in enumerate(SPLIT[split]):
            for a, b in zip(piece_at(fl, c), ta[k]):
                rep.equal([sympy.nsimplify(sympy.expand(a))], [b], f"floats on {c}", guard(lambda m, a=a, b=b: (
                    None if abs(sympy.N((a - b).subs(m))) < 1e-9 else f"{a} and {b}")))
    tm = [table("m", "a", td, 1, k) for k in range(n)]
    rep.info["obligations"] += 1
    if tuple(make(split, tm).shape) != (2, 2):
        rep.violate(f"shape of a 2 by 2 matrix: {make(split, tm).shape}")
    return rep.result()


def moved(split, kind):
    """map_pieces moves the sub-cells with the map and leaves the functions on them alone."""
    rep = harness.Rep(max_violations=2)
    td = dim(split)
    n = len(SPLIT[split])
    A = [[sym(f"A{i}{j}") for j in range(td)] for i in range(td)]
    b = [sym(f"b{i}") for i in range(td)]
    ta = [table(kind, "a", td, 1, k) for k in range(n)]
    symbols = [s for r in A for s in r] + b

    def run(m=None):
        fm = [sum(A[i][j] * X[j] for j in range(td)) + b[i] for i in range(td)]
        if m is not None:
            fm = [e.subs({s: m.get(s, R(0)) for s in symbols}) for e in fm]
        f = make(split, ta if m is None else at_values(ta, m))
        f.map_pieces(tuple(fm))
        return f, fm

    def sides(f, fm):
        left, right = [], []
        for (c, g), k in zip(f.pieces.items(), range(n)):
            left += flat(c) + flat(g)
            right += [e.subs(dict(zip(X, v)), simultaneous=True) for v in SPLIT[split][k] for e in fm]
        return left, right

    f, fm = run()
    rep.info["obligations"] += 1
    if len(f.pieces) != n:
        rep.violate(f"map_pieces leaves {len(f.pieces)} of {n} pieces")
        return rep.result()
    for k, (c, g) in enumerate(f.pieces.items()):
        want = [e.subs(dict(zip(X, v)), simultaneous=True) for v in SPLIT[split][k] for e in fm] + flat(plain(ta[k]))

        def replay(m, k=k):
            f2, fm2 = run(m)
            c2, g2 = list(f2.pieces.items())[k]
            w = [e.subs(dict(zip(X, v)), simultaneous=True) for v in SPLIT[split][k] for e in fm2] + flat(plain(at_values(ta, m)[k]))
            return differ([sympy.sympify(e).subs(m) for e in flat(c2) + flat(g2)], [e.subs(m) for e in w])

        rep.equal(flat(c) + flat(g), want, f"map_pieces, piece {k} of split {split}", guard(replay))
    return rep.result()


# ---------------------------------------------------------------- macro elements
def halfspaces(cell):
    """Affine forms that are non-negative exactly in the (convex) sub-cell."""
    vs = [tuple(sympy.sympify(c) for c in v) for v in cell]
    td = len(vs[0])
    if td == 1:
        lo, hi = sorted([vs[0][0], vs[1][0]])
        return [X[0] - lo, hi - X[0]]
    if td == 2:
        order = [0, 1, 2] if len(vs) == 3 else [0, 1, 3, 2]
        faces = [(vs[a], vs[b]) for a, b in zip(order, order[1:] + order[:1])]
    else:
        faces = [tuple(v for j, v in enumerate(vs) if j != i) for i in range(4)]
    mid = centre(vs)
    out = []
    for f in faces:
        rows = [[X[i] - f[0][i] for i in range(td)]] + [[p[i] - f[0][i] for i in range(td)] for p in f[1:]]
        g = sympy.expand(sympy.Matrix(rows).det())
        s = g.subs(dict(zip(X, mid)))
        out.append(g if sympy.N(s) > 0 else -g)
    return out


def interior_z3(ctx, cell, strict):
    return z3.And(*[(ctx.real(h) > 0) if strict else (ctx.real(h) >= 0) for h in halfspaces(cell)])


def build_macro(spec):
    if spec[0].startswith("dual"):
        e = symfem.create_element(spec[0], spec[1], spec[2])
        e.get_basis_functions()
        return e
    return elements.make(spec)


def macro(spec):
    """The sub-cells tile the cell and the functions agree on shared sub-cell boundaries."""
    rep = harness.Rep(max_violations=3)
    e = build_macro(spec)
    name = elements.name(spec)
    td = e.reference.tdim
    basis = e.get_basis_functions()
    pts = list(X[:td])
    cont = e.continuity
    regions = None
    for i, f in enumerate(basis):
        ps = elem.pieces(f)
        if ps[0][0] is None:
            continue
        cs = [tuple(tuple(sympy.sympify(q) for q in v) for v in c) for c, _ in ps]
        if regions is None or set(cs) != set(regions):
            regions = cs
            ctx = smt.Ctx()
            if spec[0].startswith("dual"):
                # the cell is the union of the triangles between its midpoint and its edges
                vs = [tuple(v) for v in e.reference.vertices]
                cell_in = z3.Or(*[interior_z3(ctx, (tuple(e.reference.midpoint()), p, q), True) for p, q in zip(vs, vs[1:] + vs[:1])])
                cell_cl = None
            else:
                cell_in = ctx.bool(cells.strict_inside(spec[0], pts))
                cell_cl = ctx.bool(cells.inside(spec[0], pts))
            rep.reachable(ctx, [cell_in], f"{name}: interior of the cell")

            def replay(m, cs=cs):
                p = {v: m.get(v, R(0)) for v in pts}
                hit = [c for c in cs if all(h.subs(p) >= 0 for h in halfspaces(c))]
                strict = [c for c in cs if all(h.subs(p) > 0 for h in halfspaces(c))]
                return f"{tuple(p.values())} lies in {len(hit)} sub-cells, inside {len(strict)}"

            rep.never(ctx, z3.And(cell_in, *[z3.Not(interior_z3(ctx, c, False)) for c in cs]), pts, f"{name}: points in no sub-cell", replay)
            for a in range(len(cs)):
                for b in range(a):
                    rep.never(ctx, z3.And(interior_z3(ctx, cs[a], True), interior_z3(ctx, cs[b], True)), pts, f"{name}: sub-cells {a} and {b} overlap", replay)
                if cell_cl is not None:
                    rep.never(ctx, z3.And(interior_z3(ctx, cs[a], False), z3.Not(cell_cl)), pts, f"{name}: sub-cell {a} leaves the cell", replay)
        if cont == "L2" or rep.full():
            continue
        for a in range(len(cs)):
            for b in range(a):
                shared = [v for v in cs[a] if v in cs[b]]
                if len(shared) != td:
                    continue
                par = {X[j]: sum(v[j] * w for v, w in zip(shared, [1 - sum(sym(f"s{k}") for k in range(1, td))] + [sym(f"s{k}") for k in range(1, td)]))
                       for j in range(td)}
                va, vb = ([sympy.expand(sympy.sympify(q).subs(par, simultaneous=True)) for q in ps[k][1]] for k in (a, b))
                normal = None
                if cont == "H(div)" and len(va) == td:
                    rows = [[p[j] - shared[0][j] for j in range(td)] for p in shared[1:]]
                    normal = [rows[0][1], -rows[0][0]] if td == 2 else list(sympy.Matrix(rows[0]).cross(sympy.Matrix(rows[1])))
                    va, vb = [sum(n * q for n, q in zip(normal, va))], [sum(n * q for n, q in zip(normal, vb))]
                if cont in ("H(curl)", "inner H(curl)", "inner H(div)"):
                    continue

                def replay2(m, i=i, a=a, b=b, par=par, normal=normal):
                    s = {q: m.get(q, R(1, 3)) for q in [sym(f"s{k}") for k in range(1, td)]}
                    pt = {k: v.subs(s) for k, v in par.items()}
                    qs = elem.pieces(build_macro(spec).get_basis_functions()[i])
                    u, w = ([sympy.sympify(q).subs(pt, simultaneous=True) for q in qs[k][1]] for k in (a, b))
                    if normal:
                        u, w = [sum(n * q for n, q in zip(normal, u))], [sum(n * q for n, q in zip(normal, w))]
                    return differ(u, w)

                rep.equal(va, vb, f"{name}: function {i} on the boundary of sub-cells {a} and {b}", guard(replay2), symbols=[sym(f"s{k}") for k in range(1, td)])
    if regions is None:
        rep.info["not piecewise"] = 1
        rep.info["obligations"] += 1
        rep.violate(f"{name} is not a macro element any more")
    return rep.result()


MACRO = [("interval", "P1-iso-P2", 1), ("triangle", "P1-iso-P2", 1), ("quadrilateral", "P1-iso-P2", 1), ("triangle", "P1 macro", 1), ("triangle", "HCT", 3),
         ("triangle", "rHCT", 3), ("triangle", "Alfeld-Sorokina", 2), ("triangle", "Guzman-Neilan", 1), ("tetrahedron", "Guzman-Neilan", 1)]


def jobs(tier):
    quick = tier == "quick"
    sys.path.insert(0, os.path.dirname(os.path.realpath(__file__)))
    import C06
    import C11

    out = []
    for split in SPLIT:
        td = dim(split)
        for op, (pairs, _, _) in BINARY.items():
            for ka, kb in pairs:
                if td == 1 and "v" in (ka, kb):
                    continue
                if split == "mixed" and quick and (ka, kb) not in (("s", "s"), ("v", "v"), ("m", "m")):
                    continue
                others = ["piecewise", "piecewise reordered", "function"] if not op.startswith("reflected") else ["piecewise", "piecewise reordered"]
                if op.startswith("reflected"):
                    pass
                elif ka == "m" and op in ("@", "+", "-") and kb == "m":
                    others += ["function left"] if op == "@" else ["matrix", "function left"]
                elif op not in ("@", "matrix times vector", "dot", "cross"):
                    others += ["function left"] if ka == "s" != kb else ["plain", "function left"]
                    if ka == kb == "s" or (op == "*" and kb == "s"):
                        others.append("plain left")
                    if op == "/":
                        others = [o for o in others if not o.endswith("left")] + (["function left", "plain left"] if ka == "s" else [])
                for o in others:
                    out.append((f"{op} {ka} {kb} {o}, split {split}", binary, (split, op, (ka, kb), o)))
        for op, (kinds, _, _) in UNARY.items():
            for k in kinds:
                out.append((f"{op} {k}, split {split}", unary, (split, op, k)))
        out.append((f"shapes, split {split}", lengths, (split,)))
        for k in ("s", "v2", "m"):
            out.append((f"map_pieces {k}, split {split}", moved, (split, k)))
    for cell, fam, o in MACRO:
        spec = (cell, fam, o, {})
        if elements.cost(spec) < (8 if quick else 1000):
            out.append((f"macro {cell} {fam} {o}", macro, (spec,)))
    for n in (3, 4) if quick else (3, 4, 5, 6):
        for fam, o in (("dual", 0), ("dual", 1)):
            out.append((f"macro dual polygon({n}) {fam} {o}", macro, ((f"dual polygon({n})", fam, o, {}),)))
    # evaluation at points and integrals
    out += [("evaluation " + n, f, a) for n, f, a in C11.jobs(tier) if n.startswith("piecewise")]
    out += [("integral " + n, f, a) for n, f, a in C06.jobs(tier) if n.startswith("piecewise")]
    return out


if __name__ == "__main__":
    runner.main(
        "C08", jobs, "other",
        "operations of piecewise functions executed on pieces with symbolic coefficients; z3 refutes coefficients and points for which the result on a sub-cell is not "
        "the result for its piece; the sub-cells of macro elements as linear inequalities (no point outside all or inside two); evaluation at symbolic points by paths",
        "four subdivisions (1D, 2D, 3D, triangles with a quadrilateral); scalar, vector and 2x2 matrix pieces of degree 1 or 2, every operation, mixed with "
        "functions, plain values and numbers on both sides; macro elements in job_names, dual polygons of 3 and 4 (6) triangles",
        ["functions on different sub-cells are not combined", "combining equal sub-cells in a different order may be refused"],
        ["PiecewiseFunction.*", "geometry.point_in_*", "PiecewiseFunction.integral", "macro elements"],
        "Operators, calculus, indexing, substitution, mapping, integration, evaluation; tiling and continuity of macro elements.",
    )
