"""C13: orthogonal, orthonormal, Lobatto and dual bases are what they claim."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.realpath(__file__))))
from lib import boot, cells, elem, harness, runner, smt, spaces, span, symexec  # noqa: E402,F401

import sympy  # noqa: E402
import z3  # noqa: E402

from symfem.functions import ScalarFunction  # noqa: E402
from symfem.polynomials import l2_dual, lobatto_basis, lobatto_dual_basis, orthogonal_basis, orthonormal_basis  # noqa: E402
from symfem.symbols import t  # noqa: E402

guard, differ, sym = harness.guard, harness.differ, harness.sym
symexec.install()
X = elem.X
fac = sympy.factorial
R = sympy.Rational


def comp(f):
    """The term of a scalar function."""
    (c,) = harness.flat(f)
    return c


def moment(cell, e):
    a, b, c = (list(e) + [0, 0, 0])[:3]
    return {
        "interval": lambda: R(1, a + 1), "quadrilateral": lambda: R(1, (a + 1) * (b + 1)), "hexahedron": lambda: R(1, (a + 1) * (b + 1) * (c + 1)),
        "triangle": lambda: fac(a) * fac(b) / fac(a + b + 2), "tetrahedron": lambda: fac(a) * fac(b) * fac(c) / fac(a + b + c + 3),
        "prism": lambda: fac(a) * fac(b) / fac(a + b + 2) / (c + 1),
    }[cell]()


def integral(cell, e):
    """Integral over the default cell, from closed moments (pyramid: after x = u(1-z), y = v(1-z))."""
    td = cells.TDIM[cell]
    gens = X[:td]
    if cell == "pyramid":
        z = X[2]
        e = sympy.cancel(sympy.together(sympy.expand(e.subs({X[0]: X[0] * (1 - z), X[1]: X[1] * (1 - z)}, simultaneous=True)) * (1 - z)**2))
        return sum(c * R(1, (a + 1) * (b + 1) * (k + 1)) for (a, b, k), c in sympy.Poly(e, *gens).terms())
    return sum(c * moment(cell, m) for m, c in sympy.Poly(sympy.expand(e), *gens).terms())


def orderings(cell):
    """Multi-indices of the derivatives in the documented order."""
    td = cells.TDIM[cell]
    if td == 1:
        return lambda d: [(i,) for i in range(d + 1)]
    if td == 2:
        return lambda d: [(s - j, j) for s in range(d + 1) for j in range(s + 1)]
    return lambda d: [(s - q, q - r, r) for s in range(d + 1) for q in range(s + 1) for r in range(q + 1)]


def full_space(cell, k):
    z = X[2]
    if cell in ("quadrilateral", "hexahedron"):
        return spaces.Q(cells.TDIM[cell], k)
    if cell == "prism":
        return [p * z**i for p in spaces.P(2, k) for i in range(k + 1)]
    if cell == "pyramid":
        return spaces.pyramid(k)
    return spaces.P(cells.TDIM[cell], k)


def spans(rep, name, fs, cell, k):
    gens = X[:cells.TDIM[cell]]
    want = full_space(cell, k)
    rep.info["obligations"] += 3
    if len(fs) != len(want):
        rep.violate(f"{name}: {len(fs)} functions, the space has dimension {len(want)}")
        return
    for a, b, what in ((want, fs, "is not a combination of the basis"), (fs, want, "is not in the space")):
        sp = span.Span([[(0, g)] for g in b], [[(0, g)] for g in a], gens)
        r, i = sp.outside(sp.others)
        if r == "unknown":
            raise smt.Inconclusive(name)
        if r == "sat":
            rep.violate(f"{name}: {a[i]} {what}")
            return


def gram(rep, name, cell, fs, gs, remake, identity=True):
    """A generic combination of fs has inner products c_i with gs (identity), or only the diagonal remains."""
    n = len(fs)
    cs = [sym(f"c{i}") for i in range(n)]
    rows = [[sympy.expand(integral(cell, f * g)) for f in fs] for g in gs]
    for i in range(n):
        got = sympy.expand(sum(c * v for c, v in zip(cs, rows[i])))
        want = cs[i] if identity else cs[i] * rows[i][i]

        def replay(m, i=i):
            f2, g2 = remake()
            v = [m.get(c, 0) for c in cs]
            got = integral(cell, sum(a * b for a, b in zip(v, f2)) * g2[i])
            return differ(sympy.N(got, 50), sympy.N(v[i] if identity else v[i] * rows[i][i], 50))

        rep.equal(got, want, f"{name}: inner product with function {i}", guard(replay), symbols=cs)
        if not identity:
            rep.never(smt.Ctx(), z3.BoolVal(not sympy.simplify(rows[i][i]) > 0), [], f"{name} norm {i}", lambda m, i=i: f"{rows[i][i]}")
        if rep.full():
            return


def basis_case(cell, k, normal):
    rep = harness.Rep(max_violations=2)
    make = orthonormal_basis if normal else orthogonal_basis
    name = f"{make.__name__}({cell}, {k})"
    fs = [comp(f) for f in make(cell, k, 0)[0]]
    fs = [sympy.cancel(sympy.together(f)) if cell == "pyramid" else sympy.expand(f) for f in fs]
    spans(rep, name, fs, cell, k)
    if not rep.full() and not rep.violations:
        def remake():
            f = [comp(g) for g in make(cell, k, 0)[0]]
            return f, f

        gram(rep, name, cell, fs, fs, remake, identity=normal)
    return rep.result()


def variables_case(cell, k):
    """Other variables give the same functions of those variables."""
    rep = harness.Rep(max_violations=2)
    td = cells.TDIM[cell]
    base = {m.__name__: [comp(f) for f in m(cell, k, 0)[0]] for m in (orthogonal_basis, orthonormal_basis)}
    for vs in (tuple(t[:td]), tuple(reversed(X[:td])), tuple(sympy.symbols("u v w")[:td])):
        for m in (orthogonal_basis, orthonormal_basis):
            if m is orthonormal_basis and vs != tuple(t[:td]):
                continue  # the norm is an integral over these variables
            got = [comp(f) for f in m(cell, k, 0, list(vs))[0]]
            want = [f.xreplace(dict(zip(X[:td], vs))) for f in base[m.__name__]]
            got = [sympy.together(g) for g in got]
            want = [sympy.together(g) for g in want]

            def replay(mod, m=m, vs=vs):
                at = {v: mod.get(v, R(2 + i, 11)) for i, v in enumerate(vs)}
                a = [comp(f).subs(at) for f in m(cell, k, 0, list(vs))[0]]
                b = [comp(f).subs({x: at[v] for x, v in zip(X, vs)}) for f in m(cell, k, 0)[0]]
                return differ(a, b)

            rep.equal(got, want, f"{m.__name__}({cell}, {k}) in {vs}", guard(replay), symbols=vs)
    return rep.result()


def derivative_case(cell, k, d, normal):
    """The derivative tables are the derivatives of the functions, in the documented order."""
    rep = harness.Rep(max_violations=2)
    make = orthonormal_basis if normal else orthogonal_basis
    name = f"{make.__name__}({cell}, {k}, derivs={d})"
    tab = [[comp(f) for f in row] for row in make(cell, k, d)]
    td = cells.TDIM[cell]
    gens = X[:td]
    order = orderings(cell)(d)
    rep.info["obligations"] += 1
    if len(tab) != len(order):
        rep.violate(f"{name}: {len(tab)} tables for {len(order)} derivatives")
        return rep.result()
    first = [comp(f) for f in make(cell, k, 0)[0]]
    for idx, row in zip(order, tab):
        want = []
        for f in first:
            g = f
            for v, n in zip(gens, idx):
                g = sympy.diff(g, v, n) if n else g
            want.append(g)
        if cell == "pyramid":
            row, want = [sympy.cancel(sympy.together(r)) for r in row], [sympy.cancel(sympy.together(w)) for w in want]
        else:
            row, want = [sympy.expand(r) for r in row], [sympy.expand(w) for w in want]

        def replay(m, idx=idx):
            at = {v: m.get(v, R(2 + i, 11)) for i, v in enumerate(gens)}
            a = [comp(f).subs(at) for f in make(cell, k, d)[order.index(idx)]]
            b = []
            for f in make(cell, k, 0)[0]:
                g = comp(f)
                for v, n in zip(gens, idx):
                    g = sympy.diff(g, v, n) if n else g
                b.append(g.subs(at))
            return differ(a, b)

        rep.equal(row, want, f"{name}: derivative {idx}", guard(replay), symbols=gens,
                  assume=[], ctx=None)
        if rep.full():
            break
    return rep.result()


def lobatto_case(cell, k):
    """Ends, span and duals of the Lobatto bases."""
    rep = harness.Rep(max_violations=2)
    td = cells.TDIM[cell]
    inner = [sympy.expand(comp(f)) for f in lobatto_basis(cell, k, False)]
    closed = [sympy.expand(comp(f)) for f in lobatto_basis(cell, k, True)]
    name = f"lobatto_basis({cell}, {k})"
    rep.info["obligations"] += 1
    if len(inner) != max(k - 1, 0)**td:
        rep.violate(f"{name}: {len(inner)} interior functions")
        return rep.result()
    for v in X[:td]:
        for end in (0, 1):
            vals = [sympy.expand(f.subs(v, end)) for f in inner]
            if vals:
                rep.equal(vals, [0] * len(vals), f"{name} at {v} = {end}",
                          guard(lambda m, v=v, end=end: differ([comp(f).subs(v, end).subs({u: m.get(u, R(1, 3)) for u in X}) for f in lobatto_basis(cell, k, False)],
                                                               [0] * len(inner))), symbols=X[:td])
    # the interior functions span the polynomials of the order that vanish on the boundary
    b = sympy.prod([a * (1 - a) for a in X[:td]])
    want = [sympy.expand(b * p) for p in spaces.Q(td, k - 2)] if k >= 2 else []
    for a, c, what in ((want, inner, "is not spanned"), (inner, want, "is not of the order")):
        if not a:
            continue
        rep.info["obligations"] += 1
        sp = span.Span([[(0, g)] for g in c], [[(0, g)] for g in a], X[:td])
        r, i = sp.outside(sp.others)
        if r == "unknown":
            raise smt.Inconclusive(name)
        if r == "sat":
            rep.violate(f"{name}: {a[i]} {what}")
    spans(rep, name, closed, cell, k)
    if cell == "interval":
        # derivatives of the interior functions are orthonormal
        ds = [sympy.diff(f, X[0]) for f in inner]
        if ds:
            def remake():
                f = [sympy.diff(comp(g), X[0]) for g in lobatto_basis(cell, k, False)]
                return f, f

            gram(rep, f"derivatives of {name}", cell, ds, ds, remake)
    if rep.violations:
        return rep.result()
    for ends in (True, False):
        prim = closed if ends else inner
        dual = [sympy.expand(comp(f)) for f in lobatto_dual_basis(cell, k, ends)]
        if len(dual) != len(prim):
            rep.violate(f"lobatto_dual_basis({cell}, {k}, {ends}): {len(dual)} functions for {len(prim)}")
            continue
        if prim:
            def remake2(ends=ends):
                return ([comp(f) for f in lobatto_basis(cell, k, ends)], [comp(f) for f in lobatto_dual_basis(cell, k, ends)])

            gram(rep, f"lobatto_dual_basis({cell}, {k}, {ends})", cell, prim, dual, remake2)
    return rep.result()


def l2_case(cell, tag, polys):
    """l2 duals are biorthogonal to the set, for any coefficients."""
    rep = harness.Rep(max_violations=2)
    n = len(polys)
    name = f"l2_dual({cell}, {tag})"
    hs = sorted({s for p in polys for s in sympy.sympify(p).free_symbols if s.name.startswith("hs_")}, key=str)
    dual = [comp(f) for f in l2_dual(cell, [ScalarFunction(p) for p in polys])]
    rep.info["obligations"] += 1
    if len(dual) != n:
        rep.violate(f"{name}: {len(dual)} functions")
        return rep.result()
    gens = X[:cells.TDIM[cell]]
    G = sympy.Matrix([[integral(cell, sympy.expand(p * q)) for q in polys] for p in polys]).det()
    ctx = smt.Ctx()
    assume = [ctx.real(sympy.expand(G)) != 0]
    keys, rows = span.rows([[(0, d)] for d in dual], gens) if not hs else (None, None)
    for i, d in enumerate(dual):
        for j, p in enumerate(polys):
            num, den = sympy.fraction(sympy.together(d)) if hs else (d, sympy.Integer(1))
            got = integral(cell, sympy.expand(num * p))
            want = den if i == j else sympy.Integer(0)

            def replay(m, i=i, j=j):
                ps = [sympy.sympify(q).subs(m) for q in polys]
                ds = [comp(f) for f in l2_dual(cell, [ScalarFunction(q) for q in ps])]
                return differ(integral(cell, sympy.expand(ds[i] * ps[j])), [int(i == j)])

            rep.equal(sympy.expand(got), sympy.expand(want), f"{name} {i} {j}", guard(replay), ctx=ctx, assume=assume, symbols=hs)
            if rep.full():
                return rep.result()
    rep.reachable(ctx, assume, name)
    return rep.result()


def jobs(tier):
    quick = tier == "quick"
    out = []
    caps = {"interval": 7, "triangle": 4, "quadrilateral": 3, "tetrahedron": 2, "hexahedron": 1, "prism": 2, "pyramid": 2}
    for c, n in caps.items():
        for k in range(n + (0 if quick else 1) + 1):
            for normal in (False, True):
                out.append((f"{'orthonormal' if normal else 'orthogonal'} {c} {k}", basis_case, (c, k, normal)))
            if k <= 2 or not quick:
                out.append((f"variables {c} {k}", variables_case, (c, k)))
            for d in (1, 2, 3):
                if k <= (n if d < 3 else 2) and (k <= 3 or c == "interval"):
                    out.append((f"derivatives {c} {k} {d}", derivative_case, (c, k, d, False)))
            if k <= 2:
                out.append((f"derivatives {c} {k} 1 normal", derivative_case, (c, k, 1, True)))
    for c, n in (("interval", 6), ("quadrilateral", 4), ("hexahedron", 2)):
        for k in range(1, n + (0 if quick else 2)):
            out.append((f"lobatto {c} {k}", lobatto_case, (c, k)))
    a = [sym(f"a{i}") for i in range(9)]
    x, y, z = X
    out += [(f"l2 {c} {n}", l2_case, (c, n, p)) for c, n, p in (
        ("interval", "lines", (a[0] + a[1] * x, a[2] + a[3] * x)), ("interval", "parabolas", (1 + a[0] * x, x + a[1], x**2 + a[2] * x)),
        ("interval", "one", (a[0] + a[1] * x + a[2] * x**2,)), ("triangle", "planes", (a[0] + x, a[1] + y, 1)),
        ("triangle", "two", (a[0] + a[1] * x + a[2] * y, a[3] + x * y)), ("quadrilateral", "bilinear", (1, a[0] * x + y, x * y + a[1])),
        ("tetrahedron", "planes", (1 + a[0] * z, x, y + a[1])), ("hexahedron", "three", (1, a[0] + x * y * z, z + a[1] * y)),
        ("prism", "two", (1 + a[0] * z, x + a[1] * y)), ("pyramid", "two", (1 + a[0] * z, x + a[1] * y)),
        ("triangle", "degree 2", (1, x, y, x**2, x * y, y**2)), ("interval", "degree 4", tuple(x**i for i in range(5))),
        ("quadrilateral", "Q1", (1, x, y, x * y)))]
    return out


if __name__ == "__main__":
    runner.main(
        "C13", jobs, "other",
        "inner products of a generic combination of the basis with each function, from closed moments; z3 refutes coefficients for which they differ from "
        "the coefficient, functionals separating the span from the full space, points where a derivative table differs from the derivative, and "
        "coefficients of a polynomial set for which the l2 dual is not biorthogonal",
        "all coefficients and all points; cells and orders in job_names",
        ["orders above those listed"],
        ["polynomials.legendre.*", "polynomials.lobatto.*", "polynomials.dual.l2_dual"],
        "Orthonormality, span, derivatives and biorthogonality for all coefficients.",
    )
