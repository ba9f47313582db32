"""C01: basis functions are dual to the degrees of freedom."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.realpath(__file__))))
from lib import boot, elem, elements, harness, runner, smt, symexec  # noqa: E402,F401

import sympy  # noqa: E402

from symfem.functions import parse_function_input  # noqa: E402

guard, differ = harness.guard, harness.differ
symexec.install()


def duality(*spec):
    rep = harness.Rep(max_violations=1)
    e = elements.make(spec)
    name = elements.name(spec)
    basis = e.get_basis_functions()
    n = len(e.dofs)
    if not (n == len(basis) == e.space_dim):
        rep.violate(f"{name}: {n} degrees of freedom, {len(basis)} basis functions, space_dim {e.space_dim}")
        return rep.result()
    cs = [symexec.sym(f"c{i}") for i in range(n)]
    p = elem.combine(cs, basis)
    got = [elem.tidy(d.eval(p).as_sympy()) for d in e.dofs]

    def replay(m):
        q = elem.combine([m.get(c, sympy.Integer(0)) for c in cs], elements.make(spec).get_basis_functions())
        for i, (d, c) in enumerate(zip(e.dofs, cs)):
            bad = differ([d.eval(q).as_sympy()], [m.get(c, sympy.Integer(0))])
            if bad:
                return f"dof {i}: {bad}"
        return None

    ctx = smt.Ctx()
    for i in range(n):
        rep.equal([got[i]], [cs[i]], f"{name} dof {i}", guard(replay), ctx=ctx, symbols=cs)
    # the dual matrix takes coefficients of the polynomial basis to degrees of freedom
    if n <= 6:
        dual, inv = e.get_dual_matrix(), e.get_dual_matrix(inverse=True)
        pb = e.get_polynomial_basis()
        q = elem.combine(cs, pb)
        want = [elem.tidy(d.eval(q).as_sympy()) for d in e.dofs]
        have = [elem.tidy(sum(cs[i] * dual[i, j] for i in range(n))) for j in range(n)]

        def replay_dual(m):
            e2 = elements.make(spec)
            q2 = elem.combine([m.get(c, sympy.Integer(0)) for c in cs], pb)
            M = e2.get_dual_matrix(caching=False)
            return differ([sum(m.get(cs[i], 0) * M[i, j] for i in range(n)) for j in range(n)],
                          [d.eval(q2).as_sympy() for d in e.dofs])

        rep.equal(have, want, f"{name} dual matrix", guard(replay_dual), symbols=cs)
        back = [elem.tidy(sum(cs[i] * sum(dual[i, k] * inv[k, j] for k in range(n)) for i in range(n))) for j in range(n)]

        def replay_inv(m):
            M, N = e.get_dual_matrix(), e.get_dual_matrix(inverse=True)
            v = sympy.Matrix([[m.get(c, 0) for c in cs]])
            return differ(list(v * M * N), list(v))

        rep.equal(back, cs, f"{name} inverse dual matrix", guard(replay_inv), symbols=cs)
    return rep.result()


def jobs(tier):
    out = []
    for s in elements.select(3.5 if tier == "quick" else 1000):
        if s[1] in ("EG", "LFEG", "direct serendipity"):
            continue
        out.append((elements.name(s), duality, s))
    return out


if __name__ == "__main__":
    runner.main(
        "C01", jobs, "other",
        "symbolic execution of every degree of freedom on a symbolic linear combination of the basis functions; z3 refutes a "
        "coefficient vector for which the values differ from the coefficients",
        lambda tier: "all real coefficients; the element configurations named in job_names (all families with degrees of freedom, "
        "several orders and variants each; quick leaves out those that cost more than about 6 s)",
        ["basis functions are taken from the library with a fresh on-disk cache", "sympy integrates and differentiates polynomials"],
        ["CiarletElement.get_basis_functions", "CiarletElement.get_dual_matrix", "functionals.*.eval", "functionals.*.eval_symbolic",
         "moments.make_integral_moment_dofs"],
        "Each degree of freedom applied to sum c_j phi_j equals c_i for all c; the dual matrix and its stored inverse act accordingly.",
    )
