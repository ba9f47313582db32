"""C21: tensor factorisations reproduce the element."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.realpath(__file__))))
from lib import boot, cells, elem, elements, harness, runner, smt, symexec  # noqa: E402,F401

import sympy  # noqa: E402

import symfem  # noqa: E402
from symfem.finite_element import NoTensorProduct  # noqa: E402

guard, differ = harness.guard, harness.differ
symexec.install()
X = elem.X


def create(spec, vertices=None):
    cell, fam, order, kw = spec
    if vertices is not None:
        kw = dict(kw, vertices=vertices)
    return symfem.create_element(cell, fam, order, **kw)


def scalars(fs):
    out = []
    for f in fs:
        ps = elem.pieces(f)
        out.append(ps[0][1][0] if len(ps) == 1 and len(ps[0][1]) == 1 else None)
    return out


def factors(e):
    """The functions the reported factorisation stands for, multiplied out independently: {position: term}."""
    out = {}
    for kind, fs, perm in e.get_tensor_factorisation():
        if kind != "scalar":
            raise smt.Inconclusive(f"factorisation of kind {kind}")
        fs = list(fs)
        bases = []
        for v, f in zip(X, fs):
            bases.append([elem.tidy(b).xreplace({X[0]: v}) for b in scalars(f.get_basis_functions())])
        combos = list(itertools.product(*bases))
        if len(combos) != len(perm):
            return f"{len(combos)} products placed by {len(perm)} positions"
        for p, c in zip(perm, combos):
            if p in out:
                return f"position {p} is used twice"
            out[p] = sympy.prod(c)
    return out


def generic_case(name, make, td, dual=False):
    rep = harness.Rep(max_violations=1)
    e = make()
    n = e.space_dim
    rep.info["obligations"] += 1
    try:
        prods = factors(e)
    except NoTensorProduct:
        # then the public route has to refuse as well
        try:
            make().get_basis_functions(use_tensor_factorisation=True)
        except (NoTensorProduct, AssertionError):
            pass
        else:
            rep.violate(f"{name}: not factorisable, but a tensor basis is returned")
        rep.info["refused"] = 1
        return rep.result()
    if isinstance(prods, str):
        rep.violate(f"{name}: {prods}")
        return rep.result()
    if sorted(prods) != list(range(n)):
        rep.violate(f"{name}: positions {sorted(prods)} for {n} functions")
        return rep.result()
    tens = scalars(make().get_basis_functions(use_tensor_factorisation=True))
    if len(tens) != n:
        rep.violate(f"{name}: {len(tens)} tensor functions for {n} degrees of freedom")
        return rep.result()

    def value(m):
        return {v: m.get(v, sympy.Rational(2 + i, 7)) for i, v in enumerate(X[:td])}

    own = None if dual else scalars(e.get_basis_functions())
    for i in range(n):
        def replay(m, i=i):
            g, h = make(), make()
            a = scalars(g.get_basis_functions(use_tensor_factorisation=True))[i].subs(value(m))
            b = factors(h)[i].subs(value(m))
            return differ(a, b)

        rep.equal(elem.tidy(tens[i]), elem.tidy(prods[i]), f"{name} tensor function {i} vs the product of the factors",
                  guard(replay), symbols=X[:td])
        if own is not None:
            def replay2(m, i=i):
                g, h = make(), make()
                return differ(factors(g)[i].subs(value(m)), scalars(h.get_basis_functions())[i].subs(value(m)))

            rep.equal(elem.tidy(prods[i]), elem.tidy(own[i]), f"{name} product {i} vs basis function {i}", guard(replay2), symbols=X[:td])
        if rep.full():
            return rep.result()
    if dual:
        # the products are dual to the degrees of freedom (the dual matrix itself is not inverted here)
        cs, _ = elem.generic([(sympy.Integer(1),)] * n)
        comb = elem.as_function((sum(c * elem.tidy(prods[i]) for i, c in enumerate(cs)),), None)
        for i, d in enumerate(e.dofs):
            def replay3(m, i=i):
                f = elem.as_function((sum(m.get(c, 0) * prods[j] for j, c in enumerate(cs)),), None)
                return differ(harness.flat(make().dofs[i].eval(f, symbolic=True)), [m.get(cs[i], 0)])

            rep.equal(elem.tidy(harness.flat(d.eval_symbolic(comb))[0]), cs[i], f"{name} dof {i} of the products", guard(replay3))
            if rep.full():
                break
    rep.info["functions"] = n
    return rep.result()


def spec_case(*spec):
    return generic_case(elements.name(spec), lambda: create(spec), cells.TDIM[spec[0]])


def dual_case(*spec):
    return generic_case(elements.name(spec) + " (by duality)", lambda: create(spec), cells.TDIM[spec[0]], dual=True)


def placed(vertices, *spec):
    return generic_case(f"{elements.name(spec)} on {vertices}", lambda: create(spec, vertices), cells.TDIM[spec[0]])


def refuses(cell):
    """Elements of every other family on the cell either refuse or factorise correctly."""
    rep = harness.Rep()
    count = 0
    for spec in elements.TABLE:
        if spec[0] != cell or elements.cost(spec) > 3 or spec[1] == "Q":
            continue
        try:
            r = generic_case(elements.name(spec), lambda: create(spec), cells.TDIM[cell])
        except smt.RealCodeFailure:
            continue
        count += 1
        rep.info["obligations"] += r["obligations"]
        for v in r["violations"]:
            rep.violations.append(v)
        if rep.full():
            break
    rep.info["elements"] = count
    return rep.result()


def jobs(tier):
    quick = tier == "quick"
    out = []
    for s in elements.TABLE:
        if s[1] == "Q" and elements.cost(s) <= (25 if quick else 2000):
            out.append((elements.name(s), spec_case, s))
    for s in (("quadrilateral", "Q", 3, {"variant": "gll"}),) + ((("hexahedron", "Q", 3, {}),) if not quick else ()):
        out.append((elements.name(s) + " dual", dual_case, s))
    for v in (((0, 0), (2, 0), (0, 1), (2, 1)), ((0, 0), (0, 1), (1, 0), (1, 1)), ((-1, -1), (1, -1), (-1, 1), (1, 1)),
              ((0, 0), (1, 1), (-1, 1), (0, 2))):
        for o in (0, 1, 2):
            for var in ("equispaced", "legendre", "gll"):
                if o == 2 and var != "equispaced" and quick:
                    continue
                s = ("quadrilateral", "Q", o, {"variant": var})
                out.append((f"{elements.name(s)} on {v}", placed, (v,) + s))
    cube = ((1, 0, 0), (2, 0, 0), (1, 1, 0), (2, 1, 0), (1, 0, 3), (2, 0, 3), (1, 1, 3), (2, 1, 3))
    for o in (0, 1):
        s = ("hexahedron", "Q", o, {})
        out.append((f"{elements.name(s)} on a box", placed, (cube,) + s))
    for c in ("quadrilateral", "hexahedron", "interval", "triangle", "prism"):
        out.append((f"other families {c}", refuses, (c,)))
    return out


if __name__ == "__main__":
    runner.main(
        "C21", jobs, "other",
        "the products of the reported factors' basis functions, placed by the reported permutation, as terms in the point; z3 refutes a "
        "point where one differs from the element's own basis function, or coefficients for which the products are not dual to the dofs",
        "all points; element configurations in job_names; reference cells: default and the listed ones",
        ["quadrilateral gll order 3 (and hexahedron order 3) by duality with the degrees of freedom instead of by the basis functions"],
        ["FiniteElement._get_basis_functions_tensor", "Q.get_tensor_factorisation", "CiarletElement.get_basis_functions"],
        "Elements whose get_tensor_factorisation raises NoTensorProduct are counted as refusing.",
    )
