"""C27: elements on arbitrary (affine) cells agree with the push-forward from the reference."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.realpath(__file__))))
from lib import boot, cells, elem, elements, harness, runner, smt, symexec  # noqa: E402,F401

import sympy  # noqa: E402

import symfem  # noqa: E402
from symfem.finite_element import NonDefaultReferenceError  # noqa: E402
from symfem.mappings import MappingNotImplemented  # noqa: E402

guard, differ, sym, flat = harness.guard, harness.differ, harness.sym, harness.flat
symexec.install()
X = elem.X
R = sympy.Rational
# the push-forward that keeps what the continuity of the space speaks about
NATURAL = {"H(div)": "contravariant", "H(curl)": "covariant", "inner H(curl)": "double_covariant", "inner H(div)": "double_contravariant",
           "integral inner H(div)": "double_contravariant", "integral inner H(curl)": "double_covariant"}
# degrees of freedom in global directions: the functions on a cell are the dual ones of that cell
GLOBAL = ("Hermite", "Bell", "BFS", "Taylor", "Wu-Xu")
# spaces that are made for rectangles
RECTANGLES = ("BFS", "HZ")


def cell_of(cell, level):
    """(vertices, origin, J, symbols): an affine cell with symbolic vertices."""
    td = cells.TDIM[cell]
    s, r, q = sym("va0"), sym("vb1"), sym("vc0")
    if level == "full":
        o = tuple(sym(f"vo{j}") for j in range(td))
        J = sympy.Matrix(td, td, lambda i, j: sym(f"v{'abc'[j]}{i}") if td < 3 or i >= j else 0)
    elif level == "rectangle":
        o = (R(1), R(-2), R(3))[:td]
        J = sympy.diag(*(s, r, q)[:td])
    elif level == "two":
        o = (R(1), R(-2), R(3))[:td]
        J = sympy.Matrix({1: [[s]], 2: [[s, 2], [1, r]], 3: [[s, 1, 0], [2, r, 1], [0, -1, 3]]}[td])
    else:
        o = (R(2), R(1, 2), R(-1))[:td]
        J = sympy.Matrix({1: [[s]], 2: [[3, s], [1, 2]], 3: [[2, 1, 0], [s, 3, 1], [1, 0, -1]]}[td])
    verts = tuple(tuple(sympy.expand(o[i] + sum(J[i, j] * c for j, c in enumerate(p))) for i in range(td)) for p in cells.DEFAULT[cell])
    hs = sorted({t for v in verts for c in v for t in c.free_symbols}, key=str)
    return verts, o, J, hs


def fixed(verts, J, hs, which):
    """One of the fixed cells."""
    sub = {t: (R(5, 2), R(-3), R(7, 3), R(4))[(k + which) % 4] for k, t in enumerate(hs)}
    return tuple(tuple(c.subs(sub) for c in v) for v in verts), J.subs(sub), []


def pushed(kind, comps, J):
    """Values at F(x) of the push-forward of the function with the given values at x."""
    n = J.rows
    if kind == "identity":
        return list(comps)
    if kind == "covariant":
        return list(J.adjugate().T * sympy.Matrix(comps) / J.det(method="berkowitz"))
    if kind == "contravariant":
        return list(J * sympy.Matrix(comps) / J.det(method="berkowitz"))
    M = sympy.Matrix(n, n, list(comps))
    d = J.det(method="berkowitz")
    if kind == "double_covariant":
        A = J.adjugate() / d
        return flat(A.T * M * A)
    return flat(J * M * J.T / d**2)


def image(o, J, p):
    return tuple(o[i] + sum(J[i, j] * c for j, c in enumerate(p)) for i in range(J.rows))


def jets(f, td, order):
    out = [f]
    for _ in range(order):
        out = out + [sympy.diff(g, X[i]) for g in out for i in range(td)]
    return out


def natural(e, spec, i, basis):
    c = e.continuity
    if spec[1] == "LFEG":
        return "contravariant" if i == len(basis) - 1 else "identity"
    if c in NATURAL:
        return NATURAL[c]
    return "identity"


def on_cell(e, verts, given):
    if given:
        return e.map_to_cell(verts, list(e.get_basis_functions()))
    return e.map_to_cell(verts)


def normal_fluxes(cell, comps, J):
    """Fluxes of the values through the facets of the mapped cell, as (facet, flux density) pairs."""
    td = cells.TDIM[cell]
    cof = J.adjugate().T
    out = []
    for n in range(len(cells.ENT[cell][td - 1])):
        _, p, axes = cells.entity(cell, td - 1, n)
        nu = sympy.Matrix([axes[0][1], -axes[0][0]])
        sub = {X[i]: p[i] + sum(a[i] * X[k] for k, a in enumerate(axes)) for i in range(td)}
        out.append((sub, cof * nu, nu))
    return out


def mapped(spec, level, given):
    """map_to_cell gives the push-forward of every basis function."""
    rep = harness.Rep(max_violations=2, timeout_ms=60000)
    e = elements.make(spec)
    cell, td = spec[0], cells.TDIM[spec[0]]
    what = f"{elements.name(spec)} mapped to a cell"
    verts, o, J, hs = cell_of(cell, "rectangle" if spec[1] in RECTANGLES else level)
    basis = e.get_basis_functions()
    try:
        out = on_cell(e, verts, given)
    except (NonDefaultReferenceError, MappingNotImplemented, NotImplementedError):
        rep.info["refused"] = 1
        return rep.result()
    except Exception:
        # is it the cell with symbolic vertices only?
        vs = tuple(tuple(c.subs({s: R(k + 2, 3) for k, s in enumerate(hs)}) for c in v) for v in verts)
        try:
            on_cell(e, vs, given)
        except Exception as err:  # noqa: BLE001
            raise smt.RealCodeFailure(f"{what}: real code raised {type(err).__name__}: {err} for {vs}") from err
        raise
    rep.info["obligations"] += 1
    if len(out) != len(basis):
        rep.violate(f"{what}: {len(out)} functions for {len(basis)} basis functions")
        return rep.result()
    ctx = smt.Ctx()
    assume = [ctx.real(sympy.expand(J.det(method="berkowitz"))) != 0]
    symbols = hs + list(X[:td])
    img = dict(zip(X, image(o, J, X[:td])))

    def compare(i, pi, build, tag):
        """build(pieces of the mapped function, pieces of the basis function, o, J) -> (left, right)"""
        left, right = build(elem.pieces(out[i]), elem.pieces(basis[i]), o, J, img)

        def replay(m):
            sub = {s: m.get(s, R(1, 3)) for s in hs}
            if sympy.sympify(J.det()).subs(sub) == 0:
                return None
            vs = tuple(tuple(c.subs(sub) for c in v) for v in verts)
            oo, JJ = tuple(sympy.sympify(c).subs(sub) for c in o), J.subs(sub)
            f = on_cell(e, vs, given)[i]
            a, b = build(elem.pieces(f), elem.pieces(basis[i]), oo, JJ, dict(zip(X, image(oo, JJ, X[:td]))))
            pt = {v: m.get(v, R(2 + k, 9)) for k, v in enumerate(X)}
            return differ([sympy.sympify(c).subs(pt) for c in a], [sympy.sympify(c).subs(pt) for c in b])

        left = [sympy.together(sympy.sympify(c)) for c in left]
        rep.equal(left, right, f"{what}: {tag}", guard(replay), ctx=ctx, assume=assume, symbols=symbols)

    for i in range(len(basis)):
        pa, pb = elem.pieces(out[i]), elem.pieces(basis[i])
        rep.info["obligations"] += 1
        if len(pa) != len(pb):
            rep.violate(f"{what}: function {i} has {len(pa)} pieces instead of {len(pb)}")
            return rep.result()
        for k in range(len(pb)):
            if spec[1] == "HZ":
                def build(a, b, oo, JJ, im, k=k, i=i):
                    left, right = [], []
                    fa = [sympy.sympify(c).subs(im, simultaneous=True) for c in a[k][1]]
                    for sub, nx, nr in normal_fluxes(cell, b[k][1], JJ):
                        left.append(sum(c.subs(sub, simultaneous=True) * q for c, q in zip(fa, nx)))
                        right.append(sum(sympy.sympify(c).subs(sub, simultaneous=True) * q for c, q in zip(b[k][1], nr)))
                    return left, right
            else:
                kind = natural(e, spec, i, basis)

                def build(a, b, oo, JJ, im, k=k, kind=kind):
                    left = [sympy.sympify(c).subs(im, simultaneous=True) for c in a[k][1]]
                    right = pushed(kind, b[k][1], JJ)
                    if a[k][0] is not None:
                        left += flat(tuple(a[k][0]))
                        right += flat(tuple(image(oo, JJ, p) for p in b[k][0]))
                    return left, right
            compare(i, k, build, f"basis function {i}" + (f", piece {k}" if len(pb) > 1 else ""))
            if rep.full():
                return rep.result()
    rep.reachable(ctx, assume, what)
    return rep.result()


def directions(spec, level, which=-1):
    """Elements with derivative degrees of freedom: on every cell the functions are dual to values and derivatives in global directions."""
    rep = harness.Rep(max_violations=2, timeout_ms=60000)
    e = elements.make(spec)
    cell, td = spec[0], cells.TDIM[spec[0]]
    what = f"{elements.name(spec)} mapped to a cell"
    verts, o, J, hs = cell_of(cell, "rectangle" if spec[1] in RECTANGLES else level)
    verts, J, hs = fixed(verts, J, hs, which)
    basis = [flat(f)[0] for f in e.get_basis_functions()]
    cs = [sym(f"a{i}") for i in range(len(basis))]
    dofs = e.dofs

    def functionals(oo, JJ):
        """(point on the reference, point on the cell, derivative) of the point degrees of freedom"""
        out = []
        for d in dofs:
            p = d.dof_point()
            k = getattr(d, "derivative", None)
            if k is None and type(d).__name__ != "PointEvaluation":
                out.append(None)
                continue
            out.append((tuple(p), image(oo, JJ, p), tuple(k) if k is not None else (0,) * td))
        return out

    def values(fs, oo, JJ):
        res = []
        for spot in functionals(oo, JJ):
            if spot is None:
                continue
            _, p, k = spot
            for f in fs:
                g = f
                for i, n in enumerate(k):
                    for _ in range(n):
                        g = sympy.diff(g, X[i])
                res.append(sympy.sympify(g).subs(dict(zip(X, p)), simultaneous=True))
        return res

    try:
        out = [flat(f)[0] for f in e.map_to_cell(verts)]
    except NonDefaultReferenceError:
        rep.info["refused"] = 1
        return rep.result()
    left = values([sum(c * f for c, f in zip(cs, out))], o, J)
    right = [cs[i] for i, s in enumerate(functionals(o, J)) if s is not None]

    def replay(m):
        vals = [m.get(c, R(0)) for c in cs]
        return differ(values([sum(c * flat(f)[0] for c, f in zip(vals, e.map_to_cell(verts)))], o, J),
                      [vals[i] for i, s in enumerate(functionals(o, J)) if s is not None])

    rep.equal(left, right, f"{what}: values and derivatives at the points of the degrees of freedom", guard(replay), symbols=cs)
    return rep.result()


def created(spec, level, which=-1):
    """An element created on the cell spans the push-forward, and its functions are dual to its degrees of freedom there."""
    rep = harness.Rep(max_violations=2, timeout_ms=60000)
    e = elements.make(spec)
    cell, fam, order, kw = spec
    td = cells.TDIM[cell]
    what = f"{elements.name(spec)} created on a cell"
    n = len(e.get_basis_functions())
    verts, o, J, hs = cell_of(cell, "rectangle" if fam in RECTANGLES else level)
    if n > 3 or fam not in ("P", "Q", "dPc") or kw.get("variant") or which >= 0:
        verts, J, hs = fixed(verts, J, hs, which)

    def build(vs):
        e2 = symfem.create_element(cell, fam, order, vertices=vs, **kw)
        return e2, e2.get_basis_functions()

    try:
        e2, fs = build(verts)
    except NonDefaultReferenceError:
        rep.info["refused"] = 1
        return rep.result()
    rep.info["obligations"] += 1
    if len(fs) != n:
        rep.violate(f"{what}: {len(fs)} functions instead of {n}")
        return rep.result()
    ctx = smt.Ctx()
    assume = [ctx.real(sympy.expand(J.det(method="berkowitz"))) != 0]
    symbols = hs + list(X[:td])

    def concrete(m):
        sub = {s: m.get(s, R(1, 3)) for s in hs}
        return sub, tuple(tuple(c.subs(sub) for c in v) for v in verts), tuple(sympy.sympify(c).subs(sub) for c in o), J.subs(sub)

    # the vertices asked for
    rep.equal(flat(tuple(e2.reference.vertices)), flat(verts), f"{what}: vertices", guard(lambda m: differ(
        flat(tuple(build(concrete(m)[1])[0].reference.vertices)), flat(concrete(m)[1]))), ctx=ctx, assume=assume, symbols=symbols)

    # every function of the pushed-forward space is interpolated exactly
    kinds = [natural(e, spec, i, fs) for i in range(n)]
    if elem.has_dofs(e2) and not elem.is_piecewise(e):
        def combos(e2, fs, oo, JJ, inv):
            left, right = [], []
            for i, f in enumerate(e.get_basis_functions()):
                vals = [sympy.sympify(c) for c in pushed(kinds[i], flat(f), JJ)]
                vals = [c.subs(inv, simultaneous=True) for c in vals]
                vals = [sympy.expand(sympy.cancel(c)) if not elem.radical(c) else sympy.expand(c) for c in vals]
                g = elem.as_function(vals, e.range_shape)
                cs = [flat(d.eval(g, symbolic=True))[0] for d in e2.dofs]
                back = [sympy.Integer(0)] * len(vals)
                for c, h in zip(cs, fs):
                    back = [b + c * q for b, q in zip(back, flat(h))]
                left += back
                right += vals
            return left, right

        def inverse(oo, JJ):
            A = JJ.adjugate() / JJ.det(method="berkowitz")
            return dict(zip(X, [sum(A[i, j] * (X[j] - oo[j]) for j in range(td)) for i in range(td)]))

        left, right = combos(e2, fs, o, J, inverse(o, J))

        def replay(m):
            sub, vs, oo, JJ = concrete(m)
            if sympy.sympify(JJ.det()) == 0:
                return None
            a, b = combos(*build(vs), oo, JJ, inverse(oo, JJ))
            pt = {v: m.get(v, R(2 + k, 9)) for k, v in enumerate(X)}
            return differ([c.subs(pt) for c in a], [c.subs(pt) for c in b])

        for k in range(0, len(left), 6):
            rep.equal([sympy.together(c) for c in left[k:k + 6]], right[k:k + 6], f"{what}: interpolation of the pushed-forward space", guard(replay),
                      ctx=ctx, assume=assume, symbols=symbols)

        def duality(e2, fs):
            return [flat(d.eval(f, symbolic=True))[0] for d in e2.dofs for f in fs]

        def replay2(m):
            sub, vs, oo, JJ = concrete(m)
            if sympy.sympify(JJ.det()) == 0:
                return None
            return differ(duality(*build(vs)), eye)

        eye = [sympy.Integer(int(i == j)) for i in range(n) for j in range(n)]
        rep.equal([sympy.together(c) for c in duality(e2, fs)], eye, f"{what}: duality", guard(replay2), ctx=ctx, assume=assume, symbols=symbols)
    rep.reachable(ctx, assume, what)
    return rep.result()


def jobs(tier):
    quick = tier == "quick"
    out = []
    for spec in elements.select(1 if quick else 60):
        cell, fam, order, kw = spec
        c = elements.cost(spec)
        if fam == "direct serendipity":
            continue
        if fam in GLOBAL:
            for which in (-1,) if quick else (-1, 0, 1):
                out.append((f"directions {elements.name(spec)} {which}", directions, (spec, "two", which)))
            continue
        full = cells.TDIM[cell] < 3 and c < 0.5
        out.append((f"mapped {elements.name(spec)}", mapped, (spec, "full" if full else "two", False)))
        if fam in ("EG", "LFEG") or order == 1:
            out.append((f"mapped given {elements.name(spec)}", mapped, (spec, "one", True)))
        if not quick or c < 0.2:
            out.append((f"created {elements.name(spec)}", created, (spec, "one")))
            if not quick:
                out.append((f"created 2 {elements.name(spec)}", created, (spec, "two", 1)))
    return out


if __name__ == "__main__":
    runner.main(
        "C27", jobs, "other",
        "map_to_cell and create_element(vertices=...) executed on cells with symbolic vertices; z3 refutes cells and points where a mapped function is not "
        "the push-forward of its basis function, or where an element made on the cell does not span that space",
        "every element of the table (orders as listed there); affine cells: all positions with symbolic vertices in 1D and 2D for the cheaper elements, "
        "two-parameter families of skewed cells otherwise; rectangles for BFS and HZ (fluxes only); created elements: symbolic cells for the smallest "
        "point elements, otherwise fixed skewed cells (the solver ranges over the points and coefficients); non-affine quadrilaterals are not covered",
        ["elements refusing other cells (NonDefaultReferenceError, MappingNotImplemented) are counted as refused"],
        ["CiarletElement.map_to_cell", "EnrichedElement.map_to_cell", "mappings.*", "Reference.get_map_to", "Reference.get_inverse_map_to",
         "BaseFunctional.perform_mapping", "create_element"],
        "Push-forward of every basis function, its pieces, derivative degrees of freedom on other cells, elements created on other cells.",
    )
