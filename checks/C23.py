"""C23: equality of functions and cells means equality."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.realpath(__file__))))
from lib import boot, cells, elem, elements, fun, harness, runner, smt, symexec  # noqa: E402,F401

import symfem  # noqa: E402
import sympy  # noqa: E402
import z3  # noqa: E402
from symfem.functions import MatrixFunction, ScalarFunction, VectorFunction, parse_function_input  # noqa: E402
from symfem.piecewise_functions import PiecewiseFunction  # noqa: E402
from symfem.utils import allequal  # noqa: E402

guard, sym = harness.guard, harness.sym
symexec.install()
X = elem.X
R = sympy.Rational
x0, x1, x2 = X
CELL2 = (((0, 0), (1, 0), (0, 1)), ((1, 0), (1, 1), (0, 1)))


def zero(e, ctx):
    """z3 formula: the term vanishes identically in x (all coefficients do)."""
    n, _ = sympy.fraction(sympy.together(sympy.sympify(e)))
    n = sympy.expand(n)
    if n == 0:
        return z3.BoolVal(True)
    return z3.And(*[ctx.real(c) == 0 for c in sympy.Poly(n, *X).coeffs()], z3.BoolVal(True))


def same(f, g, ctx):
    """z3 formula: the two (nested) component lists are equal everywhere; None when their shapes differ."""
    if isinstance(f, list) != isinstance(g, list):
        return None
    if not isinstance(f, list):
        return zero(f - g, ctx)
    if len(f) != len(g):
        return None
    out = [same(a, b, ctx) for a, b in zip(f, g)]
    return None if any(o is None for o in out) else z3.And(*out, z3.BoolVal(True))


def build(kind, comps):
    """An object of the given kind from its (nested) components."""
    if kind == "scalar function":
        return ScalarFunction(comps)
    if kind == "vector function":
        return VectorFunction(comps)
    if kind == "matrix function":
        return MatrixFunction(comps)
    if kind.startswith("basis "):
        return fun.Wrapped(build(kind[6:], comps))
    if kind == "expression":
        return comps
    if kind == "tuple":
        return tuple(comps)
    if kind == "list":
        return list(comps)
    if kind == "sympy matrix":
        return sympy.Matrix(comps)
    if kind == "nested tuple":
        return tuple(tuple(r) for r in comps)
    if kind == "nested list":
        return [list(r) for r in comps]
    if kind == "piecewise":
        return PiecewiseFunction({c: build("scalar function", f) for c, f in zip(CELL2, comps)}, 2)
    if kind == "piecewise vector":
        return PiecewiseFunction({c: build("vector function", f) for c, f in zip(CELL2, comps)}, 2)
    if kind == "reversed piecewise":
        return PiecewiseFunction({c: build("scalar function", f) for c, f in reversed(list(zip(CELL2, comps)))}, 2)
    raise ValueError(kind)


def value_at(comps, m):
    if isinstance(comps, list):
        return [value_at(c, m) for c in comps]
    e = sympy.sympify(comps)
    return e.subs({s: m.get(s, sympy.Integer(0)) for s in e.free_symbols if s.name.startswith("hs_")})


def truth(cf, cg):
    """Are concrete components equal everywhere?"""
    ctx = smt.Ctx()
    s = same(cf, cg, ctx)
    return s is not None and smt.check([s])[0] == "sat"


def ask(a, b, m, kind1, kind2, cf, cg, compare):
    f, g = value_at(cf, m), value_at(cg, m)
    got = bool(compare(build(kind1, f), build(kind2, g)))
    want = truth(f, g)
    return None if got == want else f"{kind1} {f} and {kind2} {g} are reported {'equal' if got else 'different'}"


COMPARE = {"==": lambda a, b: a == b, "!=": lambda a, b: not (a != b), "allequal": lambda a, b: allequal(a, b)}


def undecided_by_form(tag, kind1, kind2, cf, cg, hs, how, key=None):
    """f = g or not for all values of the symbols: the answer has to be the solver's."""
    rep = harness.Rep(max_violations=1)
    for order in (0, 1):
        k1, k2, f, g = (kind1, kind2, cf, cg) if order == 0 else (kind2, kind1, cg, cf)
        if k1 == "expression" and how != "allequal":
            continue  # sympy answers, by structure
        ctx = smt.Ctx()
        s = same(f, g, ctx)
        s = z3.BoolVal(False) if s is None else s

        def replay(m, k1=k1, k2=k2, f=f, g=g):
            return ask(None, None, m, k1, k2, f, g, COMPARE[how])

        def call(k1=k1, k2=k2, f=f, g=g):
            return bool(COMPARE[how](build(k1, f), build(k2, g)))

        try:
            _, paths = symexec.explore(call, ctx, [], max_paths=200)
        except smt.Inconclusive:
            rep.info["not_encoded"] = rep.info.get("not_encoded", 0) + 1
            rep.info["obligations"] += 1
            continue
        rep.info["paths"] += len(paths)
        for p in paths:
            if p.error is not None:
                bad = z3.And(*p.pc, z3.BoolVal(True))
            else:
                bad = z3.And(*p.pc, z3.Not(s) if p.value else s)
            try:
                rep.never(ctx, bad, hs, f"{tag}: {k1} {how} {k2}", guard(replay), key=key)
            except smt.Inconclusive as e:
                if "did not reproduce" not in str(e):
                    raise
                # the comparison is decided by means the path exploration does not see: the generic jobs remain
                rep.info["not_encoded"] = rep.info.get("not_encoded", 0) + 1
            if rep.full():
                return rep.result()
    return rep.result()


def generic(tag, kind1, kind2, cf, cg, hs, equal, how, key=None):
    """Values with symbols that are equal (different) for every non-zero value of the symbols."""
    rep = harness.Rep(max_violations=1)
    ctx = smt.Ctx()
    s = same(cf, cg, ctx)
    s = z3.BoolVal(False) if s is None else s
    nz = [ctx.real(v) != 0 for v in hs]
    # the solver establishes which of the two it is, for all values
    r, _ = smt.check(ctx.side + nz + [z3.Not(s) if equal else s])
    rep.info["obligations"] += 1
    if r != "unsat":
        raise smt.Inconclusive(f"{tag}: the two values are not {'equal' if equal else 'different'} for all values: {r}")
    for k1, k2, f, g in ((kind1, kind2, cf, cg), (kind2, kind1, cg, cf)):
        if k1 == "expression" and how != "allequal":
            continue  # sympy answers, by structure
        a, b = build(k1, f), build(k2, g)
        before = str(a), str(b)
        rep.info["obligations"] += 1
        m = {v: R(2 * i + 3, 5) for i, v in enumerate(hs)}
        for _ in range(2):
            if bool(COMPARE[how](a, b)) != equal:
                msg = ask(None, None, m, k1, k2, f, g, COMPARE[how])
                if msg is None:
                    msg = f"{k1} {f} and {k2} {g} are reported {'different' if equal else 'equal'} with symbolic coefficients"
                rep.violate(f"{tag}: {msg}", key=key)
                return rep.result()
        if (str(a), str(b)) != before:
            rep.violate(f"{tag}: comparing changed {before} to {(str(a), str(b))}", key=key)
    return rep.result()


def poly(tag):
    a = [sym(f"{tag}{i}") for i in range(3)]
    return a, a[0] + a[1] * x0 + a[2] * x0 * x1


SCALARS = ("scalar function", "basis scalar function", "expression")
VECTORS = ("vector function", "basis vector function", "tuple", "list")
MATRICES = ("matrix function", "basis matrix function", "sympy matrix", "nested tuple", "nested list")


def function_pairs(kinds):
    for a, b in itertools.combinations_with_replacement(kinds, 2):
        if "function" in a or "function" in b:
            yield a, b


def cell_equality(cell, gdim):
    """Cells with symbolic vertices are equal exactly when all vertices are."""
    rep = harness.Rep(max_violations=1)
    V = cells.free(cell, gdim, "v")
    if len(V) > 4:
        # one corner moves
        V = tuple(tuple(sympy.Integer(3 * i * i + 2 * j + 1) for j in range(gdim)) for i, v in enumerate(V[:-1])) + (V[-1],)
    W = tuple(tuple(sympy.Symbol(c.name + "w", real=True) if c.is_Symbol else c for c in v) for v in V)
    hs = [c for v in V + W for c in v if c.is_Symbol]
    ctx = smt.Ctx()
    s = z3.And(*[ctx.real(a) == ctx.real(b) for v, w in zip(V, W) for a, b in zip(v, w)])

    def call():
        return symfem.create_reference(cell, V) == symfem.create_reference(cell, W)

    def replay(m):
        cv, cw = value_at([list(v) for v in V], m), value_at([list(w) for w in W], m)
        a, b = (symfem.create_reference(cell, tuple(map(tuple, q))) for q in (cv, cw))
        if (a == b) != (cv == cw):
            return f"cells {cv} and {cw} are reported {'equal' if a == b else 'different'}"
        if a == b and hash(a) != hash(b):
            return f"equal cells {cv} have different hashes"
        return None

    _, paths = symexec.explore(call, ctx, [], max_paths=2000)
    rep.info["paths"] += len(paths)
    for p in paths:
        bad = z3.And(*p.pc, z3.Not(s) if p.value else s, z3.BoolVal(True))
        try:
            rep.never(ctx, bad, hs, f"{cell} in {gdim}D", guard(replay))
        except smt.Inconclusive as e:
            if "did not reproduce" not in str(e):
                raise
            rep.info["not_encoded"] = rep.info.get("not_encoded", 0) + 1
    # generic positions: a copy is equal and has the same hash; moving one coordinate by any d != 0 makes it different
    V = cells.free(cell, gdim, "v")
    a, b = symfem.create_reference(cell, V), symfem.create_reference(cell, tuple(list(v) for v in V))
    rep.info["obligations"] += 1
    if not (a == b) or (a != b) or hash(a) != hash(b):
        rep.violate(f"equal {cell} cells in {gdim}D: == {a == b}, hashes {hash(a) == hash(b)}")
    d = sym("d")
    for i in range(len(V)):
        for j in range(gdim):
            W = [list(v) for v in V]
            W[i][j] = W[i][j] + d
            rep.info["obligations"] += 1
            c = symfem.create_reference(cell, tuple(map(tuple, W)))
            if a == c or not (a != c) or c == a:
                rep.violate(f"{cell} cells in {gdim}D that differ in coordinate {j} of vertex {i} are reported equal")
                return rep.result()
    return rep.result()


def cell_kinds():
    """Cells of different kinds or in spaces of different dimension are different, whatever their vertices."""
    rep = harness.Rep(max_violations=2)
    made = []
    for c in cells.DEFAULT:
        for g in range(cells.TDIM[c], 4):
            made.append((c, g, symfem.create_reference(c, cells.free(c, g, "u"))))
    made.append(("point", 1, symfem.create_reference("point", ((sym("u0_0"),),))))
    for n in (3, 4, 6):
        made.append((f"dual {n}", 2, symfem.create_reference(f"dual polygon({n})")))
    for (a, g, p), (b, h, q) in itertools.product(made, made):
        rep.info["obligations"] += 1
        want = (a, g) == (b, h)
        if (p == q) != want or (p != q) == want:
            rep.violate(f"{a} in {g}D and {b} in {h}D are reported {'different' if want else 'equal'}")
        if want and hash(p) != hash(q):
            rep.violate(f"equal {a} cells have different hashes")
    for other in (1, "triangle", None, ()):
        rep.info["obligations"] += 1
        if made[0][2] == other:
            rep.violate(f"a cell is reported equal to {other!r}")
    return rep.result()


def cell_coordinates():
    """The way rational coordinates are given does not matter."""
    rep = harness.Rep(max_violations=2)
    a = symfem.create_reference("triangle", ((0, 0), (2, 0), (0, 1)))
    for vs in ([[0, 0], [2, 0], [0, 1]], ((sympy.Integer(0), 0), (sympy.Rational(4, 2), 0), (0, sympy.Integer(1)))):
        b = symfem.create_reference("triangle", vs)
        rep.info["obligations"] += 1
        if a != b or hash(a) != hash(b) or len({a, b}) != 1:
            rep.violate(f"triangle given as {vs} is different from the same triangle")
    d, e = symfem.create_reference("triangle"), symfem.create_reference("triangle", ((0, 0), (1, 0), (0, 1)))
    rep.info["obligations"] += 1
    if d != e or hash(d) != hash(e):
        rep.violate("the default triangle differs from itself")
    # a cell is the same after it has been used
    h = hash(d)
    d.get_map_to_self(), d.get_inverse_map_to_self(), d.volume(), d.midpoint()
    if d != e or hash(d) != h:
        rep.violate("a cell differs from itself after use")
    for c in cells.DEFAULT:
        r = symfem.create_reference(c)
        for i in range(r.tdim + 1):
            for n in range(r.sub_entity_count(i)):
                rep.info["obligations"] += 1
                p, q = r.sub_entity(i, n), r.sub_entity(i, n)
                if p != q or hash(p) != hash(q):
                    rep.violate(f"sub-entity {i},{n} of the {c} differs from itself")
    return rep.result()


def iteration(n):
    """Iterating over a vector visits every entry in order, however often and however nested."""
    rep = harness.Rep(max_violations=1)
    a = [sym(f"a{i}") for i in range(n)]
    comps = [c + (i + 1) * x0 for i, c in enumerate(a)]
    for kind in ("vector function", "basis vector function"):
        f = build(kind, comps)

        def check(got, what, want=comps):
            g = [sympy.sympify(c.as_sympy() if hasattr(c, "as_sympy") else c) for c in got]

            def replay(m):
                v = [value_at(c, m) for c in comps]
                h = build(kind, v)
                vis = [[c.as_sympy() for c in h] for _ in range(2)] + [[j.as_sympy() for i in h for j in h]]
                if vis[0] != v or vis[1] != v or vis[2] != v * n:
                    return f"iterating over {v} visits {vis}"
                return None

            if len(g) != len(want):
                rep.info["obligations"] += 1
                rep.violate(f"{kind}: {what} visits {len(g)} entries instead of {len(want)}: {g}")
                return
            rep.equal(g, want, f"{kind}: {what}", guard(replay), symbols=a)

        check(list(f), "iterating")
        check(list(f), "iterating again")
        check([j for i in f for j in f], "nested iteration", comps * n)
        it1, it2 = iter(f), iter(f)
        out = []
        for p, q in zip(it1, it2):
            out += [p, q]
        check(out, "two iterations at once", [c for c in comps for _ in range(2)])
        for stop in range(n):
            for k, c in enumerate(f):
                if k == stop:
                    break
            check(list(f), f"iterating after stopping at {stop}")
        check([f[i] for i in range(n)], "indexing")
        rep.info["obligations"] += 1
        if len(f if kind == "vector function" else f.get_function()) != n:
            rep.violate(f"{kind}: length")
        first, *rest = f
        check([first, *rest], "unpacking")
    return rep.result()


def element_functions(*spec):
    """Basis functions compare equal to themselves in every guise and different from the others."""
    rep = harness.Rep(max_violations=1)
    e = elements.make(spec)
    name = elements.name(spec)
    fs = e.get_basis_functions()
    n = len(fs)
    for i in range(min(n, 4)):
        lazy = e.get_basis_function(i)
        for j in range(min(n, 4)):
            want = i == j
            rep.info["obligations"] += 1
            # the solver establishes that the functions are (not) the same everywhere
            ctx = smt.Ctx()
            ps = [[c for _, cs in elem.pieces(f) for c in cs] for f in (fs[i], fs[j])]
            s = same([sympy.sympify(c) for c in ps[0]], [sympy.sympify(c) for c in ps[1]], ctx)
            r, _ = smt.check(ctx.side + [s])
            if (r == "sat") != want:
                raise smt.Inconclusive(f"{name}: functions {i} and {j}: {r}")
            for a, b, what in ((fs[i], fs[j], "functions"), (lazy, fs[j], "lazy function and function"), (fs[j], lazy, "function and lazy function"),
                               (lazy, e.get_basis_function(j), "lazy functions")):
                if (a == b) != want or (a != b) == want:
                    rep.violate(f"{name}: {what} {i} and {j} are reported {'different' if want else 'equal'}")
                    return rep.result()
    return rep.result()


def jobs(tier):
    out = []
    a, f = poly("a")
    b, g = poly("b")
    c = sym("c")
    ab = a + b
    for k1, k2 in function_pairs(SCALARS):
        for how in ("==", "!="):
            out.append((f"any {k1} {how} {k2}", undecided_by_form, ("any", k1, k2, f, g, ab, how)))
            for m, d in (("nothing", 0), ("a constant", c), ("x", c * x0), ("a high power", c * x1**5 * x2)):
                out.append((f"{k1} {how} {k2} up to {m}", generic, (f"differing by {m}", k1, k2, f, f + d, a + [c], m == "nothing", how)))
    l1, l2 = a[0] + a[1] * x0 + x1, 1 + a[2] * x1
    same_forms = [
        ("product", l1 * l2, sympy.expand(l1 * l2)), ("power", (x0 + l2) ** 3, sympy.expand((x0 + l2) ** 3)),
        ("quotient", (x0**2 - a[0]**2) / (x0 - a[0]), x0 + a[0]), ("common factor", x0 * (l1 + l2), x0 * l1 + l2 * x0),
        ("partial fractions", 1 / (x0 * (x0 + 1)), 1 / x0 - 1 / (x0 + 1)), ("cancelling", l1 - l1 + l2, l2),
        ("square roots", (sympy.sqrt(2) + x0) ** 2, x0**2 + 2 * sympy.sqrt(2) * x0 + 2),
        ("surds", x0 / (1 + sympy.sqrt(2)), x0 * (sympy.sqrt(2) - 1)),
        ("quotient in 3D", (x0 * x2 - x0 * x1) / (x2 - x1), x0),
    ]
    for tag, p, q in same_forms:
        for k1, k2 in function_pairs(SCALARS):
            for how in ("==", "!="):
                if "surd" in tag or tag in ("square roots",):
                    out.append((f"{tag} {k1} {how} {k2}", numbers, (tag, k1, k2, p, q, how)))
                else:
                    out.append((f"{tag} {k1} {how} {k2}", generic, (tag, k1, k2, p, q, a, True, how)))
                    out.append((f"{tag} apart {k1} {how} {k2}", generic, (tag, k1, k2, p, q + c * x1, a + [c], False, how)))
    for n in (1, 2, 3):
        fv = [sym(f"p{i}") + sym(f"q{i}") * x0 for i in range(n)]
        gv = [sym(f"r{i}") + sym(f"s{i}") * x0 for i in range(n)]
        hs = [sym(f"{t}{i}") for t in "pqrs" for i in range(n)]
        ps = [sym(f"{t}{i}") for t in "pq" for i in range(n)]
        for k1, k2 in function_pairs(VECTORS):
            for how in ("==", "!="):
                if n < 3:
                    out.append((f"any {n} {k1} {how} {k2}", undecided_by_form, ("any", k1, k2, fv, gv, hs, how)))
                out.append((f"same {n} {k1} {how} {k2}", generic, ("same", k1, k2, fv, [sympy.expand(2 * q) / 2 for q in fv], ps, True, how)))
                for i in range(n):
                    d = [q + (c * x1 if i == j else 0) for j, q in enumerate(fv)]
                    out.append((f"entry {i} of {n} {k1} {how} {k2}", generic, (f"differing in entry {i}", k1, k2, fv, d, ps + [c], False, how)))
                for d in (fv + [c], fv + [sympy.Integer(0)], fv[:-1] if n > 1 else fv * 2):
                    out.append((f"length {len(d)} and {n} {k1} {how} {k2}", generic, ("different lengths", k1, k2, fv, d, ps + [c], False, how)))
    for r, k in ((1, 2), (2, 1), (2, 2), (2, 3)):
        fm = [[sym(f"p{i}{j}") + sym(f"q{i}{j}") * x1 for j in range(k)] for i in range(r)]
        ps = [sym(f"{t}{i}{j}") for t in "pq" for i in range(r) for j in range(k)]
        for k1, k2 in function_pairs(MATRICES):
            for how in ("==", "!="):
                out.append((f"same {r}x{k} {k1} {how} {k2}", generic, ("same", k1, k2, fm, [[q for q in row] for row in fm], ps, True, how)))
                for i in range(r):
                    for j in range(k):
                        d = [[q + (c * x0 if (i, j) == (s, t) else 0) for t, q in enumerate(row)] for s, row in enumerate(fm)]
                        out.append((f"entry {i},{j} of {r}x{k} {k1} {how} {k2}", generic, (f"differing in entry {i},{j}", k1, k2, fm, d, ps + [c], False, how)))
                t = [list(col) for col in zip(*fm)]
                if r != k:
                    out.append((f"transpose of {r}x{k} {k1} {how} {k2}", generic, ("transposed", k1, k2, fm, t, ps, False, how)))
    # values of different kinds
    for how in ("==", "!="):
        for k1, c1 in (("scalar function", f), ("vector function", [f]), ("matrix function", [[f]])):
            for k2, c2 in (("scalar function", f), ("vector function", [f]), ("matrix function", [[f]]), ("expression", f), ("tuple", [f])):
                if nested(c1) != nested(c2):
                    out.append((f"{k1} {how} {k2}: different shapes", generic, ("different shapes", k1, k2, c1, c2, a, False, how)))
    # piecewise functions
    for how in ("==", "!="):
        pw = [f, g]
        for k1, k2 in (("piecewise", "piecewise"), ("piecewise", "basis piecewise"), ("basis piecewise", "basis piecewise"), ("piecewise", "reversed piecewise")):
            out.append((f"same {k1} {how} {k2}", generic, ("same", k1, k2, pw, [q for q in pw], ab, True, how)))
            for i in (0, 1):
                d = [q + (c * x0 if i == j else 0) for j, q in enumerate(pw)]
                out.append((f"piece {i} of {k1} {how} {k2}", generic, (f"differing in piece {i}", k1, k2, pw, d, ab + [c], False, how)))
            out.append((f"pieces swapped {k1} {how} {k2}", generic, ("swapped pieces", k1, k2, [f, f + c], [f + c, f], a + [c], False, how)))
        for i in (0, 1):
            vv = [[f, g], [g, f]]
            d = [[q + (c if (i, 1) == (s, t) else 0) for t, q in enumerate(r)] for s, r in enumerate(vv)]
            out.append((f"piecewise vectors {i} {how}", generic, ("differing in one component of a piece", "piecewise vector", "piecewise vector", vv, d, ab + [c], False, how)))
        out.append((f"piecewise {how} others", one_piece, (how,)))
    # nested lists
    for k1, k2, c1 in (("scalar function", "scalar function", f), ("tuple", "list", [f, g]), ("list", "list", [f, [g, 1], [[f]]]), ("list", "tuple", [[f, g], [1, 2]]),
                       ("nested list", "nested tuple", [[f, g], [g, f]]), ("vector function", "vector function", [f, g]), ("list", "list", [sympy.Integer(0), f])):
        out.append((f"allequal same {k1} {k2} {nested(c1)}", generic, ("same", k1, k2, c1, copy(c1), ab, True, "allequal")))
        for n, d in enumerate(changed(c1, c) if "function" not in k1 else []):
            # a sympy expression is compared with itself unless it is the first of the two and the other one is a number or function
            out.append((f"allequal change {n} {k1} {k2} {nested(c1)}", generic, (f"change {n}", k1, k2, c1, d, ab + [c], False, "allequal",
                                                                               "allequal ignores first value")))
    for k1, k2, c1 in (("scalar function", "basis scalar function", f), ("vector function", "basis vector function", [f, g]), ("matrix function", "matrix function", [[f, g]])):
        for n, d in enumerate(changed(c1, c)):
            out.append((f"allequal change {n} {k1} {k2}", generic, (f"change {n}", k1, k2, c1, d, ab + [c], False, "allequal")))
            out.append((f"allequal change {n} {k1} {k2} in lists", in_lists, (k1, k2, c1, d)))
    for p, q, tag in (([f, g], [f], "shorter"), ([[f], [g]], [[f]], "shorter rows"), ([f], [], "empty")):
        out.append((f"allequal {tag}", generic, (tag, "list", "list", p, q, ab, False, "allequal", "allequal ignores length")))
    for p, q, tag in (([sympy.Integer(1), 2], [1, sympy.Integer(2)], "numbers"),):
        out.append((f"allequal {tag}", generic, (tag, "list", "tuple", p, q, [], True, "allequal")))
    out.append(("allequal plain numbers", plain, ()))
    for cname in cells.DEFAULT:
        for gd in range(cells.TDIM[cname], 4):
            out.append((f"cells {cname} {gd}D", cell_equality, (cname, gd)))
    out.append(("cells of different kinds", cell_kinds, ()))
    out.append(("coordinates of cells", cell_coordinates, ()))
    for n in (1, 2, 3, 4) if tier == "quick" else range(1, 9):
        out.append((f"iteration {n}", iteration, (n,)))
    for s in (("triangle", "P", 1, {}), ("triangle", "RT", 1, {}), ("triangle", "Regge", 0, {"variant": "point"}), ("triangle", "P1-iso-P2", 1, {}),
              ("quadrilateral", "P1-iso-P2", 1, {}), ("interval", "P1-iso-P2", 1, {}), ("tetrahedron", "N1curl", 1, {}), ("triangle", "Bernstein", 2, {}),
              ("triangle", "HCT", 3, {}), ("triangle", "Bernardi-Raugel", 1, {}), ("triangle", "Guzman-Neilan", 1, {}), ("pyramid", "P", 1, {})):
        out.append((f"basis functions of {elements.name(s)}", element_functions, s))
    return out


def nested(c):
    return 1 + nested(c[0]) if isinstance(c, list) and c else 0


def copy(c):
    return [copy(i) for i in c] if isinstance(c, list) else c


def changed(c, d):
    """All nested lists that differ from c by d in one entry."""
    if not isinstance(c, list):
        return [c + d]
    out = []
    for i, v in enumerate(c):
        out += [copy(c[:i]) + [w] + copy(c[i + 1:]) for w in changed(v, d)]
    return out


def numbers(tag, kind1, kind2, p, q, how):
    """Irrational coefficients: the values agree (decided with exact radicals), so must the comparison."""
    rep = harness.Rep(max_violations=1)
    ctx = smt.Ctx()
    co = sympy.Poly(sympy.expand(p) - sympy.expand(q), *X).coeffs()
    r, _ = smt.check([z3.Or(*[ctx.real(c) != 0 for c in co], z3.BoolVal(False))] + ctx.side + [n != 0 for n in ctx.nz])
    rep.info["obligations"] += 1
    if r != "unsat":
        raise smt.Inconclusive(f"{tag}: {r}")
    for a, b in ((build(kind1, p), build(kind2, q)), (build(kind2, q), build(kind1, p))):
        if isinstance(a, sympy.Basic):
            continue  # sympy answers, by structure
        rep.info["obligations"] += 1
        if not COMPARE[how](a, b):
            rep.violate(f"{tag}: {a} and {b} are reported different")
            return rep.result()
        c = build(kind2, q + x1 * sympy.sqrt(2) / 10**6)
        if COMPARE[how](build(kind1, p), c):
            rep.violate(f"{tag}: {p} and {c} are reported equal")
    return rep.result()


def one_piece(how):
    """A piecewise function whose pieces agree equals that function, in either order; else it equals no plain function."""
    rep = harness.Rep(max_violations=1)
    a, f = poly("a")
    c = sym("c")
    eq = build("piecewise", [f, f])
    ne = build("piecewise", [f, f + c])
    for other in (build("scalar function", f), build("basis scalar function", f)):
        for p, q, want in ((eq, other, True), (other, eq, True), (ne, other, False), (other, ne, False)):
            rep.info["obligations"] += 1
            if bool(COMPARE[how](p, q)) != want:
                rep.violate(f"{p} and {q} are reported {'different' if want else 'equal'}")
    ctx = smt.Ctx()
    rep.never(ctx, ctx.real(c) == 0, [c], "the pieces differ", guard(lambda m: None), assume=[ctx.real(c) != 0])
    return rep.result()


def in_lists(k1, k2, c1, c2):
    """Nested lists of functions."""
    rep = harness.Rep(max_violations=1)
    a, b = build(k1, c1), build(k2, c2)
    other = ScalarFunction(x0 + 1)
    for u, v, want in (([a], [b], False), ([other, a], [other, b], False), ([[other], [a, other]], ((other,), (b, other)), False), ([a, b], [a, b], True),
                       ([[a], other], [[build(k1, c1)], other], True), ([b, a], [a, b], False)):
        rep.info["obligations"] += 1
        if bool(allequal(u, v)) != want:
            rep.violate(f"allequal({u}, {v}) is {not want}")
    return rep.result()


def plain():
    rep = harness.Rep(max_violations=2)
    for a, b, want in ((1, 1, True), (1, 2, False), ([1, 2], [1, 2], True), ([1, 2], (1, 3), False), ([[1], [2]], [[1], [3]], False), (ScalarFunction(x0), ScalarFunction(x1), False),
                       (VectorFunction((x0, 1)), VectorFunction((x0, 1)), True), (VectorFunction((x0, 1)), VectorFunction((x0, 2)), False), ("a", "a", True), ("a", "b", False),
                       ([ScalarFunction(x0), 1], [ScalarFunction(x0), 2], False)):
        rep.info["obligations"] += 1
        if bool(allequal(a, b)) != want:
            rep.violate(f"allequal({a!r}, {b!r}) is {not want}")
    return rep.result()


if __name__ == "__main__":
    runner.main(
        "C23", jobs, "other",
        "comparisons executed on functions and cells with symbolic coefficients and coordinates (every comparison of terms forks the path); z3 refutes "
        "values for which the answer differs from equality of all coefficients; values that are (un)equal for all symbols have to be reported so",
        "scalar, vector (up to 3), matrix (up to 2x3), basis and piecewise functions, plain expressions, tuples, lists and matrices in both orders; all cells",
        ["cells have rational coordinates; nested radicals are not compared, nor is a plain sympy expression on the left of ==, which sympy answers; piecewise functions are compared on the same sub-cells",
         "comparisons decided by means the path exploration does not see are covered by the generic jobs only"],
        ["AnyFunction.__eq__", "AnyFunction.__ne__", "PiecewiseFunction.__eq__", "VectorFunction.__iter__", "Reference.__eq__", "Reference.__hash__", "utils.allequal"],
        "Equality, hashes and iteration.",
    )
