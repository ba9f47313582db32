"""C29: basis functions are linearly independent, have the value shape of the element, and are regular on the cell."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.realpath(__file__))))
from lib import boot, cells, elem, elements, harness, runner, smt, span, symexec  # noqa: E402,F401

import sympy  # noqa: E402
import z3  # noqa: E402

import symfem  # noqa: E402
from symfem.piecewise_functions import PiecewiseFunction  # noqa: E402

symexec.install()
X = elem.X

# dual polygon elements: (family, order)
DUAL = [("dual", 0), ("dual", 1), ("BC", 1), ("RBC", 1)]


def shape_of(f):
    if hasattr(f, "get_function") and not isinstance(f, PiecewiseFunction):
        f = f.get_function()
    fs = list(f.pieces.values()) if isinstance(f, PiecewiseFunction) else [f]
    out = set()
    for g in fs:
        out.add(() if g.is_scalar else tuple(g.shape))
    return out


def wanted_shape(e):
    if e.range_shape is not None:
        return tuple(e.range_shape)
    return () if e.range_dim == 1 else (e.range_dim,)


def inside(cell, pts, verts):
    """z3: the point is a convex combination of the vertices (the pyramid without its apex)."""
    lam = [z3.Real(f"mu{i}") for i in range(len(verts))]
    f = [q >= 0 for q in lam] + [z3.Sum(lam) == 1]
    for j, p in enumerate(pts):
        f.append(z3.Sum([q * smt.zrat(sympy.Rational(v[j])) for q, v in zip(lam, verts)]) == p)
    if cell == "pyramid":
        f.append(lam[4] < 1)
    return f


def examine(rep, name, e, cell, remake):
    basis = e.get_basis_functions()
    want = wanted_shape(e)
    if len(basis) != e.space_dim:
        rep.violate(f"{name}: {len(basis)} basis functions, space_dim {e.space_dim}")
        return
    for i, f in enumerate(basis):
        rep.info["obligations"] += 1
        got = shape_of(f)
        if got != {want}:
            rep.violate(f"{name}: basis function {i} has values of shape {got}, the element {want}", key=f"{name} shape")
            return
    # a combination of the basis functions that vanishes identically
    table = [[((j, i), c) for j, (_, comps) in enumerate(elem.pieces(f)) for i, c in enumerate(comps)] for f in basis]
    keys, rows = span.rows(table, X[: e.domain_dim])
    ctx = smt.Ctx()
    cs = [symexec.sym(f"c{i}") for i in range(len(basis))]
    zc = [ctx.real(c) for c in cs]
    cons = []
    for k in keys:
        terms = [zc[i] * ctx.real(r[k]) for i, r in enumerate(rows) if r.get(k, 0) != 0]
        if terms:
            cons.append(z3.Sum(terms) == 0)

    def replay(m):
        v = [m.get(c, sympy.Integer(0)) for c in cs]
        g = elem.combine(v, remake().get_basis_functions())
        if all(sympy.simplify(q) == 0 for _, comps in elem.pieces(g) for q in comps):
            return f"the combination with coefficients {[str(i) for i in v]} vanishes"
        return None

    rep.never(ctx, z3.And(*cons, z3.Or(*[c == 1 for c in zc])), cs, f"{name}: dependent basis functions", harness.guard(replay))
    if rep.full():
        return
    # denominators on the closed cell
    seen = set()
    for f in basis:
        for region, comps in elem.pieces(f):
            for c in comps:
                if not elem.spaces_denominator(c, X):
                    continue
                _, d = sympy.fraction(sympy.together(c))
                if d in seen or not d.free_symbols & set(X):
                    continue
                seen.add(d)
                ctx = smt.Ctx()
                pts = [ctx.real(v) for v in X[: e.domain_dim]]
                verts = cells.DEFAULT[cell] if region is None else region.vertices

                def singular(m, c=c):
                    q = c.subs({v: m.get(v, 0) for v in X})
                    if q.has(sympy.nan, sympy.zoo, sympy.oo):
                        return f"the value of {c} at {[str(m.get(v, 0)) for v in X]} is {q}"
                    return None

                rep.never(ctx, z3.And(ctx.real(d) == 0, *inside(cell, pts, verts)), list(X[: e.domain_dim]),
                          f"{name}: a denominator vanishes in the cell", harness.guard(singular))
                if rep.full():
                    return


def regular(*spec):
    rep = harness.Rep(max_violations=2)
    examine(rep, elements.name(spec), elements.make(spec), spec[0], lambda: elements.make(spec))
    return rep.result()


def dual(fam, order, n):
    rep = harness.Rep(max_violations=2)

    def make():
        return symfem.create_element(f"dual polygon({n})", fam, order)

    examine(rep, f"dual polygon({n}) {fam} {order}", make(), "dual polygon", make)
    return rep.result()


def jobs(tier):
    out = []
    quick = tier == "quick"
    for s in elements.select(6 if quick else 1000):
        if s[1] in ("EG", "LFEG"):
            continue
        out.append((elements.name(s), regular, s))
    for fam, order in DUAL:
        for n in ((3, 4) if quick else (3, 4, 6)):
            out.append((f"dual polygon({n}) {fam} {order}", dual, (fam, order, n)))
    return out


if __name__ == "__main__":
    runner.main(
        "C29", jobs, "other",
        "basis functions computed by the real code; z3 refutes a non-zero coefficient vector whose combination vanishes identically, and "
        "a point of the closed cell where a denominator vanishes",
        lambda tier: "all coefficient vectors; all points of the closed cell (pyramid: except the apex, where the rational functions are "
        "continued by their limits); the element configurations in job_names",
        ["basis functions are taken from the library with a fresh on-disk cache"],
        ["CiarletElement.get_basis_functions", "DirectElement.get_basis_functions", "EnrichedElement.get_basis_functions",
         "DualCiarletElement.get_basis_functions"],
        "No non-zero combination of the basis functions is the zero function; no denominator has a zero in the cell; value shapes agree "
        "with range_shape/range_dim.",
    )
