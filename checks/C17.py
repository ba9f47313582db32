"""C17: tabulation lists the basis functions at the points in the requested order."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.realpath(__file__))))
from lib import boot, cells, elem, elements, harness, runner, smt, symexec  # noqa: E402,F401

import sympy  # noqa: E402

guard, differ, sym, flat = harness.guard, harness.differ, harness.sym, harness.flat
symexec.install()
X = elem.X
R = sympy.Rational
ORDERS = ("xyzxyz", "xyz,xyz", "xxyyzz", "xx,yy,zz")


def rows(v):
    """Nested sequences (sympy matrices count as one row-major list of entries)."""
    if isinstance(v, sympy.MatrixBase):
        return [v[i, j] for i in range(v.rows) for j in range(v.cols)]
    if isinstance(v, (list, tuple)):
        return [rows(i) for i in v]
    return sympy.sympify(v)


def inner_points(cell, n, td):
    """n rational points strictly inside one sub-cell of every macro decomposition, no coordinate repeated."""
    base = [(R(2, 11), R(1, 7), R(1, 13)), (R(1, 5), R(3, 17), R(2, 19)), (R(4, 23), R(5, 29), R(3, 31))]
    return [p[:td] for p in base[:n]]


def values(fs, p):
    """[function][component] at a point, by independent substitution; piecewise functions by the piece that contains it."""
    out = []
    sub = dict(zip(X, p))
    for f in fs:
        ps = elem.pieces(f)
        if len(ps) == 1:
            comps = ps[0][1]
        else:
            comps = None
            for region, c in ps:
                if locate(region, p):
                    comps = c
                    break
        out.append([sympy.sympify(c).subs(sub, simultaneous=True) for c in comps])
    return out


def locate(vertices, p):
    """Barycentric test for simplices (concrete points); tensor cells are not used by piecewise elements."""
    vs = [tuple(sympy.sympify(c) for c in v) for v in vertices]
    td = len(vs[0])
    if td == 2 and len(vs) == 4:
        return locate([vertices[i] for i in (0, 1, 2)], p) or locate([vertices[i] for i in (1, 3, 2)], p)
    if len(vs) != td + 1:
        raise smt.Inconclusive("region is not a simplex")
    M = sympy.Matrix([[vs[j + 1][i] - vs[0][i] for j in range(td)] for i in range(td)])
    lam = M.LUsolve(sympy.Matrix([p[i] - vs[0][i] for i in range(td)]))
    return all(q >= 0 for q in lam) and sum(lam) <= 1


def expected(vals, order):
    """vals: [function][component]."""
    if order == "xyz,xyz":
        return [list(v) for v in vals]
    if order == "xyzxyz":
        return [c for v in vals for c in v]
    if order == "xxyyzz":
        return [vals[j][i] for i in range(len(vals[0])) for j in range(len(vals))]
    return [[v[i] for v in vals] for i in range(len(vals[0]))]


def case(*spec):
    rep = harness.Rep(max_violations=2)
    e = elements.make(spec)
    name = elements.name(spec)
    td = cells.TDIM[spec[0]]
    fs = e.get_basis_functions()
    piecewise = elem.is_piecewise(e)
    ncomp = len(elem.pieces(fs[0])[0][1])
    if piecewise:
        pts, hs = inner_points(spec[0], 3, td), []
    else:
        # two symbolic points and one whose coordinates are expressions in them
        a, b = ([sym(f"{t}{i}") for i in range(td)] for t in "pq")
        pts = [tuple(a), tuple(b), tuple(reversed([2 * c + 1 for c in a]))]
        hs = a + b
        if spec[0] == "pyramid":
            pts = pts[:2]
    floats = [c.has(sympy.Float) for f in fs for _, cs in elem.pieces(f) for c in cs]
    if any(floats):
        return rep.result()
    vals = [values(fs, p) for p in pts]

    def compare(call, got, want, tag, replay):
        if shape(got) != shape(want):
            rep.info["obligations"] += 1
            m = {s: R(i + 2, 17) for i, s in enumerate(hs)}
            msg = replay(m)
            if not msg:
                raise smt.Inconclusive(f"{name} {tag}: shapes differ symbolically only")
            rep.violate(f"{name} {tag}: {msg}")
            return
        g, w = flat(got), flat(want)
        ctx = smt.Ctx()
        assume = []
        if spec[0] == "pyramid":
            assume = [ctx.real(p[2]) != 1 for p in pts]
            g, w = [sympy.together(c) for c in g], [sympy.together(c) for c in w]
        else:
            g, w = [sympy.expand(c) for c in g], [sympy.expand(c) for c in w]
        rep.equal(g, w, f"{name} {tag}", guard(replay), ctx=ctx, assume=assume, symbols=hs)

    orders = ORDERS
    for order in orders:
        got = [rows(r) for r in e.tabulate_basis(pts, order)]
        want = [expected(v, order) if ncomp > 1 else [c for q in v for c in q] for v in vals]

        def replay(m, order=order):
            cp = [tuple(sympy.sympify(c).subs(m) for c in p) for p in pts]
            e2 = elements.make(spec)
            g = [rows(r) for r in e2.tabulate_basis(cp, order)]
            v = [values(e2.get_basis_functions(), p) for p in cp]
            w = [expected(q, order) if ncomp > 1 else [c for k in q for c in k] for q in v]
            if shape(g) != shape(w):
                return f"{order}: table of shape {shape(g)} instead of {shape(w)}"
            return differ(g, w)

        compare(order, got, want, f"tabulated in {order} order", replay)
        if rep.full():
            return rep.result()
    # the default order, repeated calls, a single point, points as lists
    dflt = [rows(r) for r in e.tabulate_basis([list(p) for p in pts])]
    want = [expected(v, "xyzxyz") if ncomp > 1 else [c for q in v for c in q] for v in vals]

    def replay2(m):
        cp = [[sympy.sympify(c).subs(m) for c in p] for p in pts]
        e2 = elements.make(spec)
        v = [values(e2.get_basis_functions(), p) for p in cp]
        w = [expected(q, "xyzxyz") if ncomp > 1 else [c for k in q for c in k] for q in v]
        return differ([rows(r) for r in e2.tabulate_basis(cp)], w)

    compare("default", dflt, want, "tabulated in the default order", replay2)
    rep.info["obligations"] += 1
    if [rows(r) for r in e.tabulate_basis([])] != []:
        rep.violate(f"{name}: a table of no points is not empty")
    if ncomp > 1:
        rep.info["obligations"] += 1
        try:
            e.tabulate_basis(pts[:1], "no such order")
        except ValueError:
            pass
        else:
            rep.violate(f"{name}: an unknown order is not refused")
    rep.info["points"] = len(pts)
    return rep.result()


def shape(v):
    if isinstance(v, list):
        return (len(v), tuple(sorted({shape(i) for i in v}, key=str)))
    return ()


def float_case(*spec):
    """The float table approximates the exact one at every point: its coefficients are the exact ones, rounded."""
    rep = harness.Rep(max_violations=2)
    e = elements.make(spec)
    name = elements.name(spec)
    td = cells.TDIM[spec[0]]
    if elem.is_piecewise(e):
        return rep.result()
    p = tuple(sym(f"p{i}") for i in range(td))
    exact = values(e.get_basis_functions(), p)
    if not all(c.is_polynomial(*p) for v in exact for c in v):
        return rep.result()
    got = [rows(r) for r in e.tabulate_basis_float([p])][0]
    got = [g if isinstance(g, list) else [g] for g in got]
    rep.info["obligations"] += 1
    if [len(g) for g in got] != [len(v) for v in exact]:
        rep.violate(f"{name}: float table of shape {[len(g) for g in got]} instead of {[len(v) for v in exact]}")
        return rep.result()
    for i, (g, v) in enumerate(zip(got, exact)):
        for a, b in zip(g, v):
            d = sympy.Poly(sympy.expand(a - b), *p)
            big = sympy.Poly(sympy.expand(b), *p)
            size = max([abs(sympy.N(c, 30)) for c in big.coeffs()] + [1])
            # |difference| <= sum of |coefficient| on the unit box: every coefficient has to be at rounding level
            ctx = smt.Ctx()
            err = sum(abs(sympy.N(c, 30)) for c in d.coeffs())
            zs = [ctx.real(c) for c in p]
            box = [q for z in zs for q in (z >= 0, z <= 1)]
            bound = R(1, 10**9) * sympy.Rational(int(size) + 1)
            if err <= bound:
                rep.info["obligations"] += 1
                continue

            def replay(m, i=i):
                e2 = elements.make(spec)
                at = {s: m.get(s, R(1, 3)) for s in p}
                f2 = rows(e2.tabulate_basis_float([tuple(at[s] for s in p)])[0])[i]
                w = values(e2.get_basis_functions(), tuple(at[s] for s in p))[i]
                f2 = f2 if isinstance(f2, list) else [f2]
                for x, y in zip(f2, w):
                    if abs(sympy.N(x - y, 20)) > bound / 10:
                        return f"function {i}: {x} instead of {sympy.N(y, 15)}"
                return None

            z = ctx.real(sum(sympy.nsimplify(c, rational=True) * sympy.prod([q**k for q, k in zip(p, mon)]) for mon, c in d.terms()))
            bz = smt.zrat(smt.frac(bound))
            rep.never(ctx, sympy_or(z > bz, z < -bz), list(p), f"{name} float function {i}", guard(replay), assume=box)
            if rep.full():
                return rep.result()
    return rep.result()


def sympy_or(*a):
    import z3

    return z3.Or(*a)


def jobs(tier):
    quick = tier == "quick"
    out = []
    for s in elements.select(0.6 if quick else 200):
        if s[0] == "pyramid" and s[2] > 1:
            continue
        out.append((elements.name(s), case, s))
        if s[0] != "pyramid" and elements.cost(s) <= (0.15 if quick else 20):
            out.append((f"floats {elements.name(s)}", float_case, s))
    return out


if __name__ == "__main__":
    runner.main(
        "C17", jobs, "other",
        "tabulate_basis executed at points with symbolic coordinates in every documented order; z3 refutes points for which an entry differs from "
        "the value of the basis function and component that belongs there",
        "all pairs of points (plus one derived from them); element configurations in job_names; piecewise elements at concrete interior points",
        ["float tables: coefficients compared with the exact ones to 1e-9 relative"],
        ["FiniteElement.tabulate_basis", "FiniteElement.tabulate_basis_float"],
        "Shape and entries of tables in the orders xyzxyz, xyz,xyz, xxyyzz and xx,yy,zz.",
    )
