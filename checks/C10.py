"""C10: differential operators."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.realpath(__file__))))
from lib import boot, harness, runner, smt  # noqa: E402,F401
from lib import fun  # noqa: E402

import sympy  # noqa: E402

from symfem.functions import MatrixFunction, ScalarFunction, VectorFunction  # noqa: E402

flat, differ, guard = harness.flat, harness.differ, harness.guard
X = fun.X
P = fun.P


def wrap(f, form):
    return f if form == "fun" else fun.Wrapped(f)


def ob(rep, what, build, want, syms=(), kind=None):
    """build(sub) gives the real value (after substituting the model into the inputs), want the terms."""
    def replay(vals):
        return differ([e.subs(vals) for e in flat(build(vals))], [e.subs(vals) for e in flat(want)])

    try:
        got = build(None)
    except Exception as e:  # noqa: BLE001
        rep.info["obligations"] += 1
        rep.violate(f"{what} raised {type(e).__name__}: {e}")
        return
    if kind and not getattr(got, kind):
        rep.info["obligations"] += 1
        rep.violate(f"{what}: result {type(got).__name__}")
        return
    rep.equal(flat(got), flat(want), what, guard(replay))


def sb(e, sub):
    return e if sub is None else sympy.sympify(e).subs({k: v for k, v in sub.items() if k not in X})


def polys(dim, deg, form):
    """Polynomials with symbolic coefficients; the oracle differentiates the coefficient tables."""
    rep = harness.Rep()
    p = P.gen("p", dim, deg)
    vs = [P.gen(f"v{i}", dim, deg) for i in range(3)]
    dr = [harness.sym(f"d{i}") for i in range(dim)]

    def S(sub):
        return wrap(ScalarFunction(sb(p.expr(), sub)), form)

    def Vf(sub, n):
        return wrap(VectorFunction([sb(v.expr(), sub) for v in vs[:n]]), form)

    def Mf(sub, n, m):
        return wrap(MatrixFunction([[sb((vs[i] + vs[j].scale(2)).expr(), sub) for j in range(m)] for i in range(n)]), form)

    for i in range(3):
        ob(rep, f"diff {i}", lambda s, i=i: S(s).diff(X[i]), p.diff(i).expr(), kind="is_scalar")
        for n in (1, 2, 3):
            ob(rep, f"vector diff {i}", lambda s, i=i, n=n: Vf(s, n).diff(X[i]), [v.diff(i).expr() for v in vs[:n]], kind="is_vector")
        for n, m in [(1, 2), (2, 2), (2, 3), (3, 2), (3, 3)]:
            ob(rep, f"matrix diff {i}", lambda s, i=i, n=n, m=m: Mf(s, n, m).diff(X[i]),
               [[(vs[a] + vs[b].scale(2)).diff(i).expr() for b in range(m)] for a in range(n)], kind="is_matrix")
        for j in range(3):
            ob(rep, f"second derivative {i}{j}", lambda s, i=i, j=j: S(s).jacobian_component((i, j)), p.diff(i).diff(j).expr())
    # a derivative by a symbol that does not occur vanishes
    ob(rep, "diff by another symbol", lambda s: S(s).diff(sympy.Symbol("unused")), sympy.Integer(0))
    for n in (1, 2, 3):
        ob(rep, f"grad {n}", lambda s, n=n: S(s).grad(n), [p.diff(i).expr() for i in range(n)], kind="is_vector")
        ob(rep, f"matrix of second derivatives {n}", lambda s, n=n: S(s).jacobian(n),
           [[p.diff(i).diff(j).expr() for j in range(n)] for i in range(n)], kind="is_matrix")
        div = P({})
        for i in range(n):
            div = div + vs[i].diff(i)
        ob(rep, f"div {n}", lambda s, n=n: Vf(s, n).div(), div.expr(), kind="is_scalar")
    for n in range(1, dim + 1):
        d = [harness.sym(f"d{i}") for i in range(n)]
        want = sum(d[i] * p.diff(i).expr() for i in range(n))
        ob(rep, f"directional derivative {n}",
           lambda s, d=d: S(s).directional_derivative(tuple(sb(k, s) for k in d)), want, kind="is_scalar")
    curl = [vs[2].diff(1) - vs[1].diff(2), vs[0].diff(2) - vs[2].diff(0), vs[1].diff(0) - vs[0].diff(1)]
    ob(rep, "curl", lambda s: Vf(s, 3).curl(), [c.expr() for c in curl], kind="is_vector")
    ob(rep, "div curl", lambda s: Vf(s, 3).curl().div(), sympy.Integer(0))
    ob(rep, "curl grad", lambda s: S(s).grad(3).curl(), [sympy.Integer(0)] * 3)
    return rep.result()


def smooth(form):
    """Unspecified smooth functions: their derivatives at a point are independent unknowns."""
    rep = harness.Rep()
    F, G, H, K = [sympy.Function(n)(*X) for n in "FGHK"]
    samples = {n: P({e: sympy.Rational(3 + 7 * sum((i + 2) * k for i, k in enumerate(e)) + 5 * q, 4)
                     for e in fun.exponents(3, 3)}).expr() for q, n in enumerate("FGHK")}
    point = dict(zip(X, [sympy.Rational(2, 3), sympy.Rational(-1, 5), sympy.Rational(7, 4)]))

    def conc(e):
        for n in "FGHK":
            e = e.replace(sympy.Function(n), lambda *a, n=n: samples[n].subs(dict(zip(X, a)), simultaneous=True))
        return e.doit().subs(point)

    def check(what, build, want):
        def replay(vals):
            g = [build(lambda e: conc2(e))]
            return differ([e.subs(point) for e in flat(g)], [conc(e) for e in flat(want)])

        def conc2(e):
            for n in "FGHK":
                e = e.subs(sympy.Function(n)(*X), samples[n])
            return e

        try:
            got = build(lambda e: e)
        except Exception as e:  # noqa: BLE001
            rep.info["obligations"] += 1
            rep.violate(f"{what} raised {type(e).__name__}: {e}")
            return
        rep.equal(flat(got), flat(want), what, guard(replay))

    D = sympy.Derivative
    S = lambda c, e: wrap(ScalarFunction(c(e)), form)  # noqa: E731
    V = lambda c, *e: wrap(VectorFunction([c(i) for i in e]), form)  # noqa: E731
    for i in range(3):
        check(f"d/dx{i}", lambda c, i=i: S(c, F).diff(X[i]), D(F, X[i]))
        check(f"product rule {i}", lambda c, i=i: (S(c, F) * ScalarFunction(c(G))).diff(X[i]), D(F, X[i]) * G + F * D(G, X[i]))
        check(f"linearity {i}", lambda c, i=i: (2 * S(c, F) - ScalarFunction(c(G)) * harness.sym("k")).diff(X[i]),
              2 * D(F, X[i]) - harness.sym("k") * D(G, X[i]))
        for j in range(3):
            check(f"d2/{i}{j}", lambda c, i=i, j=j: S(c, F).jacobian_component((i, j)), D(F, X[i], X[j]).doit())
    for n in (1, 2, 3):
        check(f"grad {n}", lambda c, n=n: S(c, F).grad(n), [D(F, X[i]) for i in range(n)])
        check(f"second derivatives {n}", lambda c, n=n: S(c, F).jacobian(n), [D(F, X[i], X[j]).doit() for i in range(n) for j in range(n)])
        check(f"div {n}", lambda c, n=n: V(c, *[F, G, H][:n]).div(), sum(D(f, X[i]) for i, f in enumerate([F, G, H][:n])))
        d = [K, harness.sym("d1"), F][:n]
        check(f"directional {n}", lambda c, n=n, d=d: S(c, F).directional_derivative(tuple(c(k) for k in d)),
              sum(k * D(F, X[i]) for i, k in enumerate(d)))
    check("curl", lambda c: V(c, F, G, H).curl(),
          [D(H, X[1]) - D(G, X[2]), D(F, X[2]) - D(H, X[0]), D(G, X[0]) - D(F, X[1])])
    check("div curl", lambda c: V(c, F, G, H).curl().div(), sympy.Integer(0))
    check("curl grad", lambda c: S(c, F).grad(3).curl(), [sympy.Integer(0)] * 3)
    return rep.result()


def jobs(tier):
    out = []
    for form in ["fun", "basis"]:
        out.append((f"smooth {form}", smooth, (form,)))
        for dim in (1, 2, 3):
            for deg in ([2, 3] if tier == "quick" else [2, 3, 4, 5]):
                out.append((f"polynomials dim {dim} degree {deg} {form}", polys, (dim, deg, form)))
    return out


if __name__ == "__main__":
    runner.main(
        "C10", jobs, "other",
        "symbolic execution of the operators on polynomials with symbolic coefficients and on unspecified smooth "
        "functions; z3 refutes every difference from coefficient-wise differentiation",
        lambda tier: "all polynomials of degree <= %d in 1-3 variables at all points; unspecified smooth functions of three "
        "variables (derivatives as unknowns); all directions" % (3 if tier == "quick" else 5),
        ["sympy's differentiation of unspecified functions is trusted (polynomials are checked independently)"],
        ["AnyFunction.diff", "directional_derivative", "jacobian_component", "jacobian", "grad", "div", "curl"],
        "z3 shows for each operator that the result equals the classical operator for every coefficient and point.")
