"""C12: quadrature rules are exact to their nominal degree."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.realpath(__file__))))
from lib import boot, elem, harness, runner, smt, symexec  # noqa: E402,F401

import sympy  # noqa: E402
import z3  # noqa: E402

from symfem import quadrature  # noqa: E402

guard, differ, sym = harness.guard, harness.differ, harness.sym
symexec.install()
DEGREE = {"legendre": lambda n: 2 * n - 1, "lobatto": lambda n: 2 * n - 3, "gll": lambda n: 2 * n - 3, "radau": lambda n: 2 * n - 2,
          "equispaced": lambda n: 1}
# the sizes documented for each family: beyond them the rule is refused
SIZES = {"legendre": (1, 3), "lobatto": (2, 7), "gll": (2, 7), "radau": (2, 3), "equispaced": (2, 10**6)}
DIRECT = {"legendre": "legendre", "lobatto": "lobatto", "radau": "radau", "equispaced": "equispaced"}


def rule(name, n, direct):
    if direct:
        pts, wts = getattr(quadrature, DIRECT[name])(n)
    else:
        pts, wts = quadrature.get_quadrature(name, n)
    return [sympy.sympify(p) for p in pts], [sympy.sympify(w) for w in wts]


def exact(name, n, direct):
    rep = harness.Rep(max_violations=2)
    try:
        pts, wts = rule(name, n, direct)
    except NotImplementedError:
        rep.info["refused"] = 1
        rep.info["obligations"] += 1
        lo, hi = SIZES[name]
        if lo <= n <= hi:
            rep.violate(f"{name}({n}) is refused")
        return rep.result()
    what = f"{name}({n})"
    if len(pts) != n or len(wts) != n:
        rep.violate(f"{what}: {len(pts)} points and {len(wts)} weights")
        return rep.result()
    if any(not v.is_number or v.has(sympy.nan, sympy.zoo, sympy.oo) for v in pts + wts):
        rep.violate(f"{what}: points {pts}, weights {wts}")
        return rep.result()
    d = DEGREE[name](n)
    cs = [sym(f"c{k}") for k in range(d + 1)]

    def applied(coeffs, pts, wts):
        out = sympy.Integer(0)
        for q, w in zip(pts, wts):
            v = sympy.Integer(0)
            for c in reversed(coeffs):
                v = v * q + c
            out += w * v
        return out

    def replay(m):
        v = [m.get(c, sympy.Integer(0)) for c in cs]
        p, w = rule(name, n, direct)
        return differ(sympy.N(applied(v, p, w), 60), sympy.N(sum(c * sympy.Rational(1, k + 1) for k, c in enumerate(v)), 60))

    true = sum(c * sympy.Rational(1, k + 1) for k, c in enumerate(cs))
    got = sympy.expand(applied(cs, pts, wts))
    # nested radicals multiply out to constants of one field; any that remain are defined for the solver
    got = sum(c * sympy.nsimplify(sympy.radsimp(sympy.simplify(got.coeff(c)))) for c in cs) if got.atoms(sympy.Pow) - set(cs) else got
    rep.equal(got, true, f"{what} on polynomials of degree {d}", guard(replay), symbols=cs)
    rep.equal(sympy.simplify(sum(wts)), 1, f"{what} sum of the weights", guard(lambda m: differ(sum(rule(name, n, direct)[1]), 1)))
    # order and range of the points
    ctx = smt.Ctx()
    zp = [ctx.real(p) for p in pts]

    def place(m):
        p = [sympy.N(q, 40) for q in rule(name, n, direct)[0]]
        if any(q < 0 or q > 1 for q in p) or any(a >= b for a, b in zip(p, p[1:])):
            return f"points {p}"
        return None

    rep.never(ctx, z3.Or(*[q < 0 for q in zp], *[q > 1 for q in zp], *[a >= b for a, b in zip(zp, zp[1:])]), [],
              f"{what}: points in increasing order in [0, 1]", guard(place))
    rep.reachable(ctx, [], what)
    ends = {"lobatto": (0, n - 1), "gll": (0, n - 1), "equispaced": (0, n - 1), "radau": (0,)}.get(name, ())
    for e in ends:
        rep.equal(pts[e], 0 if e == 0 else 1, f"{what} end point", guard(lambda m, e=e: differ(rule(name, n, direct)[0][e], 0 if e == 0 else 1)))
    if name == "equispaced":
        for i, p in enumerate(pts):
            rep.equal(p, sympy.Rational(i, n - 1), f"{what} point {i}", guard(lambda m, i=i: differ(rule(name, n, direct)[0][i], sympy.Rational(i, n - 1))))
    return rep.result()


def unknown_rule():
    rep = harness.Rep()
    rep.info["obligations"] += 1
    try:
        quadrature.get_quadrature("no such rule", 2)
    except ValueError:
        return rep.result()
    rep.violate("an unknown rule is not refused")
    return rep.result()


def jobs(tier):
    out = [("unknown rule", unknown_rule, ())]
    for direct in (False, True):
        for n in range(2, 16 if tier == "quick" else 60):
            out.append((f"equispaced {n} {direct}", exact, ("equispaced", n, direct)))
        for name in ("legendre", "lobatto", "radau") + (() if direct else ("gll",)):
            for n in range(1, 12):
                out.append((f"{name} {n} {direct}", exact, (name, n, direct)))
        out.append((f"equispaced 1 {direct}", exact, ("equispaced", 1, direct)))
    return out


if __name__ == "__main__":
    runner.main(
        "C12", jobs, "other",
        "the rule is applied to a polynomial with symbolic coefficients; z3 refutes coefficients for which the value differs from the integral, and "
        "any other order of the points (square roots are reals with their defining equations)",
        "all polynomials up to the nominal degree of each family; all sizes the code offers (equispaced: up to the listed size)",
        ["sizes that raise NotImplementedError outside the documented range are counted as refused"],
        ["quadrature.equispaced", "quadrature.lobatto", "quadrature.radau", "quadrature.legendre", "quadrature.get_quadrature"],
        "Exactness for all coefficient vectors, order, range and end points of the points.",
    )
