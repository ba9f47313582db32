"""C18: degrees of freedom are linear and evaluate what their type says."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.realpath(__file__))))
from lib import boot, cells, elem, elements, fun, harness, runner, smt, symexec  # noqa: E402,F401

import sympy  # noqa: E402

import symfem  # noqa: E402
from symfem import functionals as F  # noqa: E402
from symfem.functions import parse_function_input  # noqa: E402
from symfem.symbols import x  # noqa: E402

guard, differ, flat, sym = harness.guard, harness.differ, harness.flat, symexec.sym
symexec.install()
X = elem.X

SKEW = {
    "interval": [(2,), (5,)],
    "triangle": [(1, 0), (4, 1), (0, 3)],
    "quadrilateral": [(1, 0), (3, 1), (0, 3), (2, 4)],
    "tetrahedron": [(1, 0, 0), (3, 1, 0), (0, 3, 1), (1, 1, 4)],
    "hexahedron": [(1, 0, 0), (3, 0, 1), (0, 3, 0), (2, 3, 1), (1, 1, 2), (3, 1, 3), (0, 4, 2), (2, 4, 3)],
}


def monomial_integral(kind, e):
    f = sympy.factorial
    e = tuple(e) + (0,) * (3 - len(e))
    if kind == "interval":
        return sympy.Rational(1, e[0] + 1)
    if kind == "triangle":
        return f(e[0]) * f(e[1]) / f(e[0] + e[1] + 2)
    if kind == "tetrahedron":
        return f(e[0]) * f(e[1]) * f(e[2]) / f(sum(e) + 3)
    if kind == "quadrilateral":
        return sympy.Rational(1, (e[0] + 1) * (e[1] + 1))
    if kind == "hexahedron":
        return sympy.Rational(1, (e[0] + 1) * (e[1] + 1) * (e[2] + 1))
    raise ValueError(kind)


S = sympy.symbols("S0:3")


def integral(ent, expr):
    """Integral over the sub-entity of a term in the parameters S of the entity (dot(axes, S) + origin)."""
    kind, o, axes = ent
    gram = cells.gram(axes)
    out = sympy.Integer(0)
    for mon, c in sympy.Poly(sympy.expand(expr), *S[: len(axes)]).terms():
        out += c * monomial_integral(kind, mon)
    return out * sympy.sqrt(gram)


def on(ent, expr):
    kind, o, axes = ent
    pt = [o[i] + sum(a[i] * s for a, s in zip(axes, S)) for i in range(len(o))]
    return sympy.sympify(expr).subs(dict(zip(X, pt)), simultaneous=True)


def unit(v):
    n = sympy.sqrt(sum(c**2 for c in v))
    return tuple(c / n for c in v)


def normal(ent):
    kind, o, axes = ent
    if len(axes) == 1:
        return unit((-axes[0][1], axes[0][0]))
    a, b = axes
    return unit((a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]))


def dot(a, b):
    return sum(p * q for p, q in zip(a, b))


def scalar(td, deg=3, tag="p"):
    return fun.P.gen(tag, td, deg)


def weight(d, deg=2, tag="w"):
    """Generic polynomial in the coordinates of an entity of dimension d (written in x, as the constructors expect)."""
    return fun.P.gen(tag, d, deg).expr()


def in_s(w):
    return w.subs(dict(zip(X, S)), simultaneous=True)


def run(what, build, want, direction=None, assume=()):
    """Compare a functional built by the real code with a term, for all values of the symbols."""
    rep = harness.Rep(max_violations=2)
    one(rep, what, build, want, direction)
    return rep.result()


def one(rep, what, build, want, direction=None):
    def value(m=None):
        dof, v = build(lambda e: harness.at(e, m) if m is not None else e)
        return dof, dof.eval(parse_function_input(v)).as_sympy()

    def replay(m):
        w = harness.at(want, m)
        d = differ([value(m)[1]], [w])
        return d and f"value and formula: {d}"

    free = set()
    try:
        dof, got = value()
    except Exception as e:  # noqa: BLE001
        vals = {s: sympy.Rational(i + 2, 7) for i, s in enumerate(sorted(sympy.sympify(want).free_symbols, key=str))}
        msg = guard(replay)(vals)
        if not msg:
            raise smt.Inconclusive(f"{what}: {type(e).__name__}: {e}") from e
        rep.violate(f"{what}: {msg}", vals)
        return
    free = set(sympy.sympify(got).free_symbols) | set(sympy.sympify(want).free_symbols)
    rep.equal([elem.tidy(got)], [elem.tidy(want)], what, guard(replay), symbols=sorted(free, key=str))
    if direction is not None and not rep.full():
        def replay_dir(m):
            d = build(lambda e: harness.at(e, m))[0].dof_direction()
            return differ(list(d), list(harness.at(tuple(direction), m)))

        rep.equal([elem.tidy(c) for c in dof.dof_direction()], [elem.tidy(c) for c in direction], f"{what}: direction", guard(replay_dir))


def ref(cell, skew):
    if skew:
        return symfem.create_reference(cell, tuple(tuple(sympy.Integer(c) for c in v) for v in SKEW[cell]))
    return symfem.create_reference(cell)


def points(cell, skew):
    """Functionals at a point, for every point, every vector and every polynomial."""
    rep = harness.Rep(max_violations=3)
    r = ref(cell, skew)
    td = cells.TDIM[cell]
    pt = [sym(f"q{i}") for i in range(td)]
    sub = dict(zip(X, pt))
    p = scalar(td)
    e = p.expr()
    vec = [fun.P.gen(f"v{i}", td, 2) for i in range(td)]
    ve = [q.expr() for q in vec]
    mat = [[fun.P.gen(f"m{i}{j}", td, 2 if td < 3 else 1) for j in range(td)] for i in range(td)]
    me = tuple(tuple(q.expr() for q in row) for row in mat)
    a = [sym(f"a{i}") for i in range(td)]
    b = [sym(f"b{i}") for i in range(td)]
    w = sym("w")
    ent = (td, 0)
    name = f"{cell}{' skew' if skew else ''}"
    one(rep, f"{name} PointEvaluation", lambda s: (F.PointEvaluation(r, tuple(s(pt)), entity=ent), s(e)), e.subs(sub))
    one(rep, f"{name} WeightedPointEvaluation",
        lambda s: (F.WeightedPointEvaluation(r, tuple(s(pt)), s(w), entity=ent), s(e)), w * e.subs(sub))
    ords = {1: [(1,), (2,), (3,)], 2: [(1, 0), (0, 1), (2, 0), (1, 1), (0, 2), (2, 1), (1, 2)],
            3: [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (0, 1, 1), (1, 0, 1), (0, 0, 2), (0, 2, 0), (2, 0, 0), (1, 1, 1), (0, 2, 1)]}[td]
    for o in ords:
        q = p
        for i, k in enumerate(o):
            for _ in range(k):
                q = q.diff(i)
        one(rep, f"{name} DerivativePointEvaluation {o}",
            lambda s, o=o: (F.DerivativePointEvaluation(r, tuple(s(pt)), o, entity=ent), s(e)), q.expr().subs(sub))
    if td > 1:
        g = [p.diff(i).expr().subs(sub) for i in range(td)]
        one(rep, f"{name} PointDirectionalDerivativeEvaluation",
            lambda s: (F.PointDirectionalDerivativeEvaluation(r, tuple(s(pt)), tuple(s(a)), entity=ent), s(e)), dot(a, g), direction=a)
    if td == 2:
        for n in range(len(cells.ENT[cell][1])):
            en = cells.entity(cell, 1, n, SKEW[cell] if skew else None)
            nv = normal(en)
            one(rep, f"{name} PointNormalDerivativeEvaluation {n}",
                lambda s, n=n: (F.PointNormalDerivativeEvaluation(r, tuple(s(pt)), r.sub_entity(1, n), entity=(1, n)), s(e)),
                dot(nv, g), direction=nv)
    for i in range(td):
        for j in range(td):
            one(rep, f"{name} PointComponentSecondDerivativeEvaluation {i}{j}",
                lambda s, i=i, j=j: (F.PointComponentSecondDerivativeEvaluation(r, tuple(s(pt)), (i, j), entity=ent), s(e)),
                p.diff(i).diff(j).expr().subs(sub))
    if td > 1:
        one(rep, f"{name} DotPointEvaluation",
            lambda s: (F.DotPointEvaluation(r, tuple(s(pt)), tuple(s(a)), entity=ent), tuple(s(ve))),
            dot(a, [q.subs(sub) for q in ve]), direction=a)
        # a vector that depends on the point is taken at the point
        field = [a[0] * X[0] + b[0] * X[1], a[1] + b[1] * X[0]] + [a[-1] * X[2]] * (td - 2)
        one(rep, f"{name} DotPointEvaluation, vector field",
            lambda s: (F.DotPointEvaluation(r, tuple(s(pt)), tuple(s(field)), entity=ent), tuple(s(ve))),
            dot([c.subs(sub) for c in field], [q.subs(sub) for q in ve]))
        one(rep, f"{name} PointDivergenceEvaluation",
            lambda s: (F.PointDivergenceEvaluation(r, tuple(s(pt)), entity=ent), tuple(s(ve))),
            sum(vec[i].diff(i).expr() for i in range(td)).subs(sub))
        one(rep, f"{name} PointInnerProduct",
            lambda s: (F.PointInnerProduct(r, tuple(s(pt)), tuple(s(a)), tuple(s(b)), entity=ent), s(me)),
            sum(a[i] * me[i][j] * b[j] for i in range(td) for j in range(td)).subs(sub))
        one(rep, f"{name} PointInnerProduct, same vectors",
            lambda s: (F.PointInnerProduct(r, tuple(s(pt)), tuple(s(a)), tuple(s(a)), entity=ent), s(me)),
            sum(a[i] * me[i][j] * a[j] for i in range(td) for j in range(td)).subs(sub), direction=a)
    one(rep, f"{name} DotPointEvaluation, scalar",
        lambda s: (F.DotPointEvaluation(r, tuple(s(pt)), s(w), entity=ent), s(e)), w * e.subs(sub))
    return rep.result()


def integrals(cell, dim, n, skew):
    """Functionals that integrate over a sub-entity, for every polynomial and every weight."""
    rep = harness.Rep(max_violations=3)
    r = ref(cell, skew)
    td = cells.TDIM[cell]
    en = cells.entity(cell, dim, n, SKEW[cell] if skew else None)
    name = f"{cell}{' skew' if skew else ''} entity {(dim, n)}"
    dd = 2 if td < 3 else 1
    p = scalar(td, dd + 1 if td < 3 else 2)
    e = p.expr()
    vec = [fun.P.gen(f"v{i}", td, dd) for i in range(td)]
    ve = [q.expr() for q in vec]
    me = tuple(tuple(fun.P.gen(f"m{i}{j}", td, 1).expr() for j in range(td)) for i in range(td))
    a = [sym(f"a{i}") for i in range(td)]
    b = [sym(f"b{i}") for i in range(td)]
    w = weight(dim, 2 if dim < 3 else 1)
    ws = in_s(w)
    ent = (dim, n)
    mid = F.PointEvaluation(symfem.create_reference(en[0]), tuple(sympy.Rational(1, 3) for _ in range(dim)), entity=(dim, 0))
    O = (lambda g: on(en, g))  # noqa: E731, E741
    g = [p.diff(i).expr() for i in range(td)]
    div = sum(vec[i].diff(i).expr() for i in range(td))
    if not skew:
        one(rep, f"{name} IntegralMoment", lambda s: (F.IntegralMoment(r, s(w), mid, entity=ent), s(e)), integral(en, ws * O(e)))
        full = [weight(dim, 1, f"f{i}") for i in range(td)]
        if td > 1:
            if dim < td:
                # a field on the entity is pushed forward with the contravariant map
                loc = [weight(dim, 1, f"l{i}") for i in range(dim)]
                if dim > 1:
                    jac = sympy.sqrt(cells.gram(en[2]))
                    push = [sum(en[2][k][i] * in_s(loc[k]) for k in range(dim)) / jac for i in range(td)]
                    one(rep, f"{name} IntegralMoment, tangent field",
                        lambda s: (F.IntegralMoment(r, tuple(s(loc)), mid, entity=ent), tuple(s(ve))),
                        integral(en, dot(push, [O(q) for q in ve])))
            one(rep, f"{name} IntegralMoment, vector",
                lambda s: (F.IntegralMoment(r, tuple(s(full)), mid, entity=ent), tuple(s(ve))),
                integral(en, dot([in_s(q) for q in full], [O(q) for q in ve])))
            if dim == td:
                fm = tuple(tuple(weight(dim, 1, f"g{i}{j}") for j in range(td)) for i in range(td))
                one(rep, f"{name} IntegralMoment, matrix", lambda s: (F.IntegralMoment(r, s(fm), mid, entity=ent), s(me)),
                    integral(en, sum(in_s(fm[i][j]) * O(me[i][j]) for i in range(td) for j in range(td))))
            one(rep, f"{name} DivergenceIntegralMoment", lambda s: (F.DivergenceIntegralMoment(r, s(w), mid, entity=ent), tuple(s(ve))),
                integral(en, ws * O(div)))
            one(rep, f"{name} IntegralOfDivergenceAgainst",
                lambda s: (F.IntegralOfDivergenceAgainst(r, s(w), entity=ent), tuple(s(ve))), integral(en, ws * O(div)))
            one(rep, f"{name} DerivativeIntegralMoment",
                lambda s: (F.DerivativeIntegralMoment(r, s(w), tuple(s(a)), mid, entity=ent), s(e)),
                integral(en, ws * dot(a, [O(q) for q in g])), direction=a)
            one(rep, f"{name} InnerProductIntegralMoment",
                lambda s: (F.InnerProductIntegralMoment(r, s(w), tuple(s(a)), tuple(s(b)), mid, entity=ent), s(me)),
                integral(en, ws * sum(a[i] * O(me[i][j]) * b[j] for i in range(td) for j in range(td))) * sympy.sqrt(cells.gram(en[2])))
            for orders in ((1, 0), (0, 1), (2, 0), (1, 1)):
                q = p
                for d, o in zip((a, b), orders):
                    for _ in range(o):
                        parts = [q.diff(i).scale(d[i]) for i in range(td)]
                        q = parts[0]
                        for z in parts[1:]:
                            q = q + z
                one(rep, f"{name} IntegralOfDirectionalMultiderivative {orders}",
                    lambda s, orders=orders: (F.IntegralOfDirectionalMultiderivative(r, (tuple(s(a)), tuple(s(b))), orders, ent, scale=3), s(e)),
                    3 * integral(en, O(q.expr())))
        one(rep, f"{name} IntegralAgainst", lambda s: (F.IntegralAgainst(r, s(w), entity=ent), s(e)), integral(en, ws * O(e)))
    if dim == 1 and td > 1:
        tv = unit(en[2][0])
        one(rep, f"{name} TangentIntegralMoment", lambda s: (F.TangentIntegralMoment(r, s(w), mid, entity=ent), tuple(s(ve))),
            integral(en, ws * dot(tv, [O(q) for q in ve])), direction=tv)
    if dim == td - 1 and td > 1:
        nv = normal(en)
        one(rep, f"{name} NormalIntegralMoment", lambda s: (F.NormalIntegralMoment(r, s(w), mid, entity=ent), tuple(s(ve))),
            integral(en, ws * dot(nv, [O(q) for q in ve])), direction=nv)
        if not skew:
            one(rep, f"{name} NormalDerivativeIntegralMoment",
                lambda s: (F.NormalDerivativeIntegralMoment(r, s(w), mid, entity=ent), s(e)),
                integral(en, ws * dot(nv, [O(q) for q in g])), direction=nv)
            one(rep, f"{name} NormalInnerProductIntegralMoment",
                lambda s: (F.NormalInnerProductIntegralMoment(r, s(w), mid, entity=ent), s(me)),
                integral(en, ws * sum(nv[i] * O(me[i][j]) * nv[j] for i in range(td) for j in range(td))) * sympy.sqrt(cells.gram(en[2])),
                direction=nv)
    return rep.result()


def linear(*spec):
    """eval(sum a_i m_i) = sum a_i eval(m_i) for the degrees of freedom of an element."""
    rep = harness.Rep(max_violations=1)
    e = elements.make(spec, basis=False)
    name = elements.name(spec)
    basis = e.get_polynomial_basis()[:4]
    if hasattr(basis[0], "pieces"):
        basis = basis[:2]
    cs = [sym(f"c{i}") for i in range(len(basis))]
    f = elem.combine(cs, basis)
    for i, d in enumerate(e.dofs):
        got = elem.tidy(d.eval(f).as_sympy())
        want = elem.tidy(sum(c * d.eval(g).as_sympy() for c, g in zip(cs, basis)))

        def replay(m, d=d):
            v = [m.get(c, sympy.Integer(0)) for c in cs]
            return differ([d.eval(elem.combine(v, basis)).as_sympy()], [sum(a * d.eval(g).as_sympy() for a, g in zip(v, basis))])

        rep.equal([got], [want], f"{name} dof {i} is linear", guard(replay), symbols=cs)
        if rep.full():
            break
    return rep.result()


def jobs(tier):
    out = []
    for cell in ("interval", "triangle", "quadrilateral", "tetrahedron", "hexahedron"):
        for skew in (False, True):
            out.append((f"points {cell} {skew}", points, (cell, skew)))
            for dim in range(1, cells.TDIM[cell] + 1):
                for n in range(len(cells.ENT[cell][dim])):
                    if tier == "quick" and cell == "hexahedron" and n % 3:
                        continue
                    if skew and dim == cells.TDIM[cell]:
                        continue
                    out.append((f"integrals {cell} {(dim, n)} {skew}", integrals, (cell, dim, n, skew)))
    for s in elements.select(1 if tier == "quick" else 60):
        if s[1] in ("EG", "LFEG", "direct serendipity"):
            continue
        out.append((f"linear {elements.name(s)}", linear, s))
    return out


if __name__ == "__main__":
    runner.main(
        "C18", jobs, "other",
        "degrees of freedom built by their public constructors with symbolic points, vectors and weights are executed on polynomials with "
        "symbolic coefficients; z3 refutes values that differ from the formula the type names",
        lambda tier: "all points, vectors, weights (polynomials of degree at most 2 in the coordinates of the entity) and polynomials "
        "(degree at most 3); the default cells and one skew cell each; linearity of the degrees of freedom of the elements in job_names",
        ["integrals of monomials over the reference cells by their closed formulas", "the text of get_tex is left to C30",
         "on cells other than the default, integral moments are left to C27"],
        ["functionals.*._eval_symbolic", "functionals.*.dof_direction", "functionals.*.__init__"],
        "Each type of degree of freedom equals its formula for all functions, points, directions and weights within the bounds.",
    )
