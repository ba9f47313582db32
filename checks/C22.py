"""C22: reported polynomial degrees of functions are correct."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.realpath(__file__))))
from lib import boot, cells, elem, elements, fun, harness, runner, smt, spaces, span, symexec  # noqa: E402,F401

import symfem  # noqa: E402
import sympy  # noqa: E402
import z3  # noqa: E402
from symfem.functions import MatrixFunction, VectorFunction, parse_function_input  # noqa: E402

guard, sym = harness.guard, harness.sym
symexec.install()
X = elem.X
R = sympy.Rational
CELLS = ("interval", "triangle", "tetrahedron", "quadrilateral", "hexahedron", "prism")


def degree(cell, e):
    """Degree of one monomial with exponents e, as a list of terms whose maximum it is."""
    e = list(e)[: cells.TDIM[cell]]
    if cell in ("quadrilateral", "hexahedron"):
        return e
    if cell == "prism":
        return [e[0] + e[1], e[2]]
    return [sum(e)]


def full(cell, d):
    """Exponents of the full space of degree d (none for d < 0)."""
    td = cells.TDIM[cell]
    return [e for e in itertools.product(range(d + 1), repeat=td) if max(degree(cell, e)) <= d] if d >= 0 else []


def wrap(kind, parts):
    """A function of the given kind with the given scalar components."""
    if kind == "scalar":
        return parse_function_input(parts[0])
    if kind == "vector":
        return VectorFunction(parts)
    if kind == "matrix":
        return MatrixFunction([parts[:2], parts[2:4]])
    return fun.Wrapped(wrap(kind[6:], parts))


NPARTS = {"scalar": 1, "vector": 2, "matrix": 4}


def symbolic(cell, kind, nmon):
    """The exponents of the monomials are symbolic integers."""
    rep = harness.Rep(max_violations=2)
    td = cells.TDIM[cell]
    n = NPARTS[kind.replace("basis ", "")]
    marks, exps = {}, []
    parts = []
    for i in range(n):
        f = 0
        # every component has at most nmon monomials; the later ones of a matrix have one
        for j in range(nmon if i < 2 or n == 2 else 1):
            m = sympy.Symbol(f"hs_mark{i}_{j}")
            e = tuple(sym(f"e{i}_{j}_{k}") for k in range(td)) + (sympy.Integer(0),) * (3 - td)
            marks[m] = e
            exps.append(e)
            f = f + (j + 2) * m
        parts.append(f)
    ints = [s for e in exps for s in e[:td]]
    ctx = smt.Ctx(ints=ints)
    assume = [ctx.real(s) >= 0 for s in ints]
    real_poly = sympy.Poly

    class Opaque:
        """What the library learns of a polynomial: its monomials."""

        def __init__(self, expr):
            self._ms = [(m, marks[m]) for m in marks if expr.has(m)]

        def monoms(self, *a, **k):
            return [e for _, e in self._ms]

        def terms(self, *a, **k):
            return [(e, sympy.Integer(1)) for _, e in self._ms]

        def as_dict(self, *a, **k):
            return {e: sympy.Integer(1) for _, e in self._ms}

        def coeffs(self, *a, **k):
            return [sympy.Integer(1) for _ in self._ms]

        def __getattr__(self, name):
            raise smt.Inconclusive(f"Poly.{name} is not modelled")

    def poly(expr, *gens, **kw):
        expr = sympy.sympify(expr)
        if expr.free_symbols & set(marks):
            return Opaque(expr)
        return real_poly(expr, *gens, **kw)

    def call():
        f = wrap(kind, parts)
        ref = symfem.create_reference(cell)
        sympy.Poly = poly
        try:
            return f.maximum_degree(ref)
        finally:
            sympy.Poly = real_poly

    try:
        _, paths = symexec.explore(call, ctx, assume, max_paths=3000)
    except smt.Inconclusive:
        # the code asks for something else of the polynomial: decided by the other jobs only
        rep.info["not_encoded"] = 1
        rep.info["obligations"] += 1
        return rep.result()
    if any(isinstance(p.error, (AttributeError, TypeError)) for p in paths):
        rep.info["not_encoded"] = 1
        rep.info["obligations"] += 1
        return rep.result()
    terms = [ctx.real(t) for e in exps for t in degree(cell, e)]
    rep.info["paths"] += len(paths)

    def replay(m):
        at = {e: tuple(int(sympy.sympify(c).subs(m)) for c in e) for e in exps}
        if max(max(v) for v in at.values()) > 60:
            raise smt.Inconclusive("exponents too large to replay")
        sub = {k: sympy.prod([v**p for v, p in zip(X, at[e])]) for k, e in marks.items()}
        # distinct positive coefficients: no monomial cancels
        cp = [sympy.sympify(p).xreplace(sub) for p in parts]
        got = wrap(kind, cp).maximum_degree(symfem.create_reference(cell))
        want = max(max(degree(cell, e)) for e in at.values())
        return None if got == want else f"degree of {cp} on a {cell} reported as {got} instead of {want}"

    for p in paths:
        if p.error is not None:
            f = z3.And(*p.pc) if p.pc else z3.BoolVal(True)
        else:
            try:
                v = ctx.real(sympy.sympify(p.value))
            except Exception as e:  # noqa: BLE001
                raise smt.Inconclusive(f"degree {p.value!r}: {e}")
            f = z3.And(*p.pc, z3.Or(*[t > v for t in terms], z3.And(*[t < v for t in terms])))
        small = [ctx.real(s) <= 40 for s in ints]
        rep.never(ctx, f, ints, f"{kind} of {nmon} monomials on a {cell}", guard(replay), assume=assume + small)
        if rep.full():
            break
    return rep.result()


def members(cell, dmax):
    """The reported degree of generic combinations of monomials is that of the smallest full space that contains them."""
    rep = harness.Rep(max_violations=2)
    td = cells.TDIM[cell]
    ref = symfem.create_reference(cell)
    mons = [e for e in itertools.product(range(dmax + 1), repeat=td)]
    expr = {e: sympy.prod([v**k for v, k in zip(X, e)]) for e in mons}
    a, b = sym("a"), sym("b")
    pairs = [(e, e) for e in mons] + list(itertools.combinations(mons, 2))
    ctx = smt.Ctx()
    za, zb = ctx.real(a), ctx.real(b)
    for e1, e2 in pairs:
        f = a * expr[e1] + (b * expr[e2] if e2 != e1 else 0)
        d = int(parse_function_input(f).maximum_degree(ref))

        def replay(m, e1=e1, e2=e2):
            f = m.get(a, sympy.Integer(1)) * expr[e1] + (m.get(b, sympy.Integer(1)) * expr[e2] if e1 != e2 else 0)
            got = parse_function_input(f).maximum_degree(symfem.create_reference(cell))
            want = max(degree(cell, e1) + degree(cell, e2))
            return None if got == want else f"degree of {f} on a {cell} reported as {got} instead of {want}"

        low, high = set(full(cell, d - 1)), set(full(cell, d))
        # coefficients of f outside each space, as the solver sees them
        co = {e1: za, e2: zb} if e1 != e2 else {e1: za}
        out_high = z3.Or(*[c != 0 for e, c in co.items() if e not in high], z3.BoolVal(False))
        in_low = z3.And(*[c == 0 for e, c in co.items() if e not in low], z3.BoolVal(True))
        nz = [za != 0, zb != 0]
        rep.never(ctx, z3.Or(out_high, in_low), [a, b], f"{f} on a {cell}", guard(replay), assume=nz)
        if rep.full():
            break
    return rep.result()


def forms(cell):
    """The degree does not depend on how the polynomial is written: products, powers, cancelling terms, zeros."""
    rep = harness.Rep(max_violations=2)
    td = cells.TDIM[cell]
    ref = symfem.create_reference(cell)
    a = [sym(f"a{i}") for i in range(4)]
    l1 = a[0] + sum(c * v for c, v in zip(a[1:], X[:td]))
    l2 = 3 + sum((i + 2) * v for i, v in enumerate(X[:td]))
    big = sympy.prod([v**2 for v in X[:td]])
    cases = [
        ("zero", sympy.Integer(0)), ("constant", a[0] + 1), ("linear", l1), ("product", l1 * l2), ("power", l1**3), ("nested", (l1**2 + l2) ** 2),
        ("cancelling", l1 * l2 - sympy.expand(l1 * l2) + X[0] * a[0]), ("cancelled high", big * l1 - sympy.expand(big * l1) + l2**2),
        ("difference of squares", (l1 + l2) ** 2 - (l1 - l2) ** 2), ("over a constant", l1**2 / 7 + l2 / sympy.sqrt(2)),
        ("floats", sympy.Float(1.5) * l1 * X[0]), ("only the last variable", a[0] * X[td - 1] ** 4 + X[0]),
        ("bubble", big * a[0] - X[0]), ("vanishing product", (l1 - l1) * big + X[td - 1]),
    ]
    for tag, f in cases:
        nzs = a
        terms = [(m, c) for m, c in sympy.Poly(sympy.expand(f), *X[:td]).terms() if c != 0]
        ctx = smt.Ctx()
        nz = [ctx.real(s) != 0 for s in nzs]
        co = [(m, ctx.real(sympy.nsimplify(c, rational=True) if c.has(sympy.Float) else c)) for m, c in terms]

        def replay(m, f=f):
            g = sympy.sympify(f).subs({s: m.get(s, sympy.Integer(1)) for s in a})
            got = parse_function_input(g).maximum_degree(symfem.create_reference(cell))
            ms = [k for k, c in sympy.Poly(sympy.expand(g), *X[:td]).terms() if c != 0]
            want = max([max(degree(cell, k)) for k in ms] + [0])
            return None if got == want else f"degree of {g} on a {cell} reported as {got} instead of {want}"

        for kind in ("scalar", "vector", "matrix", "basis scalar", "basis vector", "basis matrix"):
            n = NPARTS[kind.replace("basis ", "")]
            for pos in range(n):
                parts = [sympy.Integer(0)] * n
                parts[pos] = f
                d = wrap(kind, parts).maximum_degree(ref)
                low, high = set(full(cell, int(d) - 1)), set(full(cell, int(d)))
                bad = [c != 0 for m, c in co if m not in high]
                # it is contained in the smaller space when every coefficient outside that vanishes; generic coefficients do not
                inside = [c == 0 for m, c in co if m not in low] if d > 0 else [z3.BoolVal(False)]
                rest = [z3.Not(c == 0) for m, c in co]  # a generic member: no coefficient vanishes by accident

                def replay2(m, kind=kind, pos=pos, n=n, f=f):
                    r = replay(m, f)
                    if r:
                        return r
                    g = sympy.sympify(f).subs({s: m.get(s, sympy.Integer(1)) for s in a})
                    ps = [sympy.Integer(0)] * n
                    ps[pos] = g
                    one = parse_function_input(g).maximum_degree(symfem.create_reference(cell))
                    got = wrap(kind, ps).maximum_degree(symfem.create_reference(cell))
                    return None if got == one else f"degree of {kind} {ps} on a {cell} reported as {got} instead of {one}"

                rep.never(ctx, z3.Or(*bad, z3.And(*inside)), a, f"{tag} {kind} {pos} on a {cell}", guard(replay2), assume=nz + rest)
                if rep.full():
                    return rep.result()
    return rep.result()


def whole(*spec):
    """The degree of an element: every member of its polynomial space is in the full space, and not every one in a smaller space."""
    rep = harness.Rep(max_violations=1)
    e = elements.make(spec, basis=False)
    name = elements.name(spec)
    try:
        basis = e.get_polynomial_basis()
    except NotImplementedError:
        rep.info["obligations"] += 1
        return rep.result()
    cell = spec[0]
    td = cells.TDIM[cell]
    fs = [elem.pieces(f) for f in basis]
    if any(len(p) > 1 for p in fs):
        rep.info["obligations"] += 1
        return rep.result()
    comps = [[(i, c) for i, c in enumerate(p[0][1])] for p in fs]
    if not all(sympy.sympify(c).is_polynomial(*X[:td]) for f in comps for _, c in f):
        rep.info["obligations"] += 1
        return rep.result()
    d = int(e.maximum_degree)
    _, rows = span.rows(comps, X[:td])
    cs = [sym(f"c{i}") for i in range(len(rows))]
    ctx = smt.Ctx()
    total = {}
    for c, r in zip(cs, rows):
        for k, v in r.items():
            total[k] = total.get(k, 0) + c * v
    high, low = set(full(cell, d)), set(full(cell, d - 1))

    def true_degree():
        e2 = elements.make(spec, basis=False)
        ms = [m for f in e2.get_polynomial_basis() for _, cc in elem.pieces(f) for q in cc
              for m, v in sympy.Poly(sympy.expand(q), *X[:td]).terms() if v != 0]
        return max([max(degree(cell, m)) for m in ms] + [0]), e2.maximum_degree

    def replay(m):
        want, got = true_degree()
        return None if got == want else f"maximum degree {got} of a space of degree {want}"

    outside = [ctx.nonzero(v) for k, v in total.items() if k[1] not in high]
    rep.never(ctx, z3.Or(*outside, z3.BoolVal(False)), cs, f"{name}: members beyond degree {d}", guard(replay))
    if d > 0:
        # a member that needs degree d exists
        need = [ctx.nonzero(v) for k, v in total.items() if k[1] not in low]
        rep.info["obligations"] += 1
        r, _ = smt.check(ctx.side + [z3.Or(*need, z3.BoolVal(False))])
        if r == "unsat":
            msg = replay({})
            if not msg:
                raise smt.Inconclusive(f"{name}: counterexample did not reproduce")
            rep.violate(f"{name}: {msg}")
        elif r != "sat":
            raise smt.Inconclusive(f"z3: {r}")
    return rep.result()


def refused():
    """Degrees that are not defined are refused instead of guessed."""
    rep = harness.Rep()
    for f in (1 / (1 + X[0]), sympy.sqrt(X[0]), sympy.sin(X[1])):
        rep.info["obligations"] += 1
        try:
            d = parse_function_input(f).maximum_degree(symfem.create_reference("triangle"))
        except Exception:  # noqa: BLE001
            continue
        rep.violate(f"{f} is reported to have degree {d}")
    return rep.result()


def jobs(tier):
    quick = tier == "quick"
    out = [("not a polynomial", refused, ())]
    for c in CELLS:
        for kind in ("scalar", "vector", "matrix", "basis scalar", "basis vector", "basis matrix"):
            for n in (1, 2, 3):
                if n == 3 and kind not in ("scalar", "basis scalar"):
                    continue
                if n == 2 and "matrix" in kind:
                    continue
                if n * (1 if "scalar" in kind else 2 if "vector" in kind else 4) > 3 and c in ("hexahedron", "tetrahedron", "prism") and quick:
                    continue
                out.append((f"symbolic {c} {kind} {n}", symbolic, (c, kind, n)))
        td = cells.TDIM[c]
        out.append((f"members {c}", members, (c, {1: 8, 2: 4, 3: 2}[td] + (0 if quick else 1))))
        out.append((f"forms {c}", forms, (c,)))
    for s in elements.select(0.6 if quick else 100):
        if s[0] != "pyramid" and s[1] != "dual":
            out.append((f"element {elements.name(s)}", whole, s))
    return out


if __name__ == "__main__":
    runner.main(
        "C22", jobs, "other",
        "maximum_degree executed on functions whose monomials have symbolic integer exponents (every comparison forks the path), and on polynomials "
        "with symbolic coefficients; z3 refutes exponents or coefficients for which the reported degree is not that of the smallest full space",
        "up to three monomials with exponents 0 to 40 per component, all six cells, scalar, vector, matrix and basis functions; all pairs of monomials of "
        "small degree; the polynomial spaces of the element configurations in job_names",
        ["degree on pyramids is refused by the library", "sympy.Poly is replaced by its monomials in the symbolic jobs"],
        ["ScalarFunction.maximum_degree", "VectorFunction.maximum_degree", "MatrixFunction.maximum_degree", "BasisFunction.maximum_degree",
         "CiarletElement.maximum_degree"],
        "Degrees reported for functions and elements.",
    )
