"""C20: Lagrange and Bernstein functions form a partition of unity; Bernstein functions are the classical ones."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.realpath(__file__))))
from lib import boot, cells, elem, elements, harness, runner, smt, symexec  # noqa: E402,F401

import sympy  # noqa: E402
import z3  # noqa: E402

guard, differ = harness.guard, harness.differ
symexec.install()
X = elem.X


def scalar(f):
    return elem.pieces(f)[0][1][0]


def unity(*spec):
    rep = harness.Rep(max_violations=1)
    e = elements.make(spec)
    name = elements.name(spec)
    total = elem.combine([sympy.Integer(1)] * len(e.get_basis_functions()), e.get_basis_functions())
    got = [elem.tidy(c) for _, comps in elem.pieces(total) for c in comps]
    td = cells.TDIM[spec[0]]

    def replay(m):
        at = {v: m.get(v, sympy.Rational(1, 5)) for v in X[:td]}
        vals = [scalar(f).subs(at) for f in elements.make(spec).get_basis_functions()]
        return differ([sum(vals)], [1])

    if spec[0] == "pyramid":
        # rational functions: 1 - z is not zero below the apex
        ctx = smt.Ctx()
        zs = ctx.real(X[2])
        for g in got:
            rep.equal([sympy.together(g)], [1], f"{name} sum", guard(replay), ctx=ctx, assume=[zs < 1], symbols=X[:td])
    else:
        rep.equal(got, [1] * len(got), f"{name} sum", guard(replay), symbols=X[:td])
    return rep.result()


def bernstein(*spec):
    cell, fam, k, kw = spec
    rep = harness.Rep(max_violations=2)
    e = elements.make(spec)
    name = elements.name(spec)
    td = cells.TDIM[cell]
    lam = [1 - sum(X[:td])] + list(X[:td])
    idx = [c for c in itertools.product(range(k + 1), repeat=td + 1) if sum(c) == k]
    coeff = {c: sympy.factorial(k) / sympy.prod([sympy.factorial(i) for i in c]) for c in idx}
    formula = {c: coeff[c] * sympy.prod([q**i for q, i in zip(lam, c)]) for c in idx}
    if e.space_dim != len(idx):
        rep.violate(f"{name}: {e.space_dim} functions, {len(idx)} Bernstein polynomials")
        return rep.result()
    probe = [{v: sympy.Rational(p, 17) for v, p in zip(X, ps)} for ps in ((2, 3, 5), (1, 7, 4), (6, 2, 3))]
    table = {c: [formula[c].subs(p) for p in probe] for c in idx}
    used = set()
    for dim in range(td + 1):
        for n, vs in enumerate(cells.ENT[cell][dim]):
            cand = [c for c in idx if k > 0 and {i for i, q in enumerate(c) if q} == set(vs)] if k else (idx if dim == td else [])
            ds = e.entity_dofs(dim, n)
            rep.info["obligations"] += 1
            if len(ds) != len(cand):
                rep.violate(f"{name}: {len(ds)} functions on entity {(dim, n)}, {len(cand)} Bernstein polynomials belong to it")
                return rep.result()
            for d in ds:
                f = scalar(e.get_basis_functions()[d])
                vals = [f.subs(p) for p in probe]
                left = [c for c in cand if c not in used]
                best = min(left, key=lambda c: sum(abs(sympy.N(a - b)) for a, b in zip(vals, table[c])))
                used.add(best)

                def replay(m, d=d, cand=cand):
                    g = scalar(elements.make(spec).get_basis_function(d))
                    if any(sympy.expand(g - formula[c]) == 0 for c in cand):
                        return None
                    return f"function {d} = {sympy.expand(g)} is no Bernstein polynomial of entity {(dim, n)}"

                rep.equal([elem.tidy(f)], [sympy.expand(formula[best])], f"{name} function {d}", guard(replay), symbols=X[:td])
                if rep.full():
                    return rep.result()
    # each formula lies between zero and one on the cell; together with the identities above, so do the functions
    ls = [z3.Real(f"l{i}") for i in range(td + 1)]
    simplex = [q >= 0 for q in ls] + [z3.Sum(ls) == 1]
    vs = {c: z3.Real("B" + "_".join(map(str, c))) for c in idx}
    for c in idx:
        # the product of a positive number and non-negative factors
        terms = [z3.RealVal(int(coeff[c]))] + [q for q, i in zip(ls, c) for _ in range(i)]
        acc = terms[0]
        facts = list(simplex)
        for i, q in enumerate(terms[1:]):
            w = z3.Real(f"w{i}")
            facts += [w == acc * q, z3.Implies(z3.And(acc >= 0, q >= 0), w >= 0)]
            acc = w
        rep.info["obligations"] += 1
        if smt.check(facts + [acc < 0])[0] != "unsat":
            raise smt.Inconclusive(f"{name}: sign of {c}")
    rep.info["obligations"] += 1
    if smt.check([v >= 0 for v in vs.values()] + [z3.Sum(list(vs.values())) == 1, z3.Or(*[v > 1 for v in vs.values()])])[0] != "unsat":
        raise smt.Inconclusive(f"{name}: upper bound")
    return rep.result()


def dual(fam, order, k):
    """Functions on dual polygons: dual Lagrange functions sum to one; Buffa-Christiansen functions leave every triangle equally."""
    import symfem

    rep = harness.Rep(max_violations=2)
    cell = f"dual polygon({k})"
    name = f"{cell} {fam} {order}"
    e = symfem.create_element(cell, fam, order)
    fs = [elem.pieces(f) for f in e.get_basis_functions()]
    if fam == "dual":
        for j in range(2 * k):
            tot = sympy.expand(sum(f[j][1][0] for f in fs))
            rep.equal([tot], [1], f"{name} sum in piece {j}", guard(lambda m, j=j, tot=tot: f"the functions add up to {tot} in piece {j}"), symbols=X[:2])
            if rep.full():
                break
        return rep.result()
    for i, f in enumerate(fs):
        # the divergence (or curl) times twice the area of the triangle
        vals = []
        for (a, b, c), v in f:
            J = sympy.Matrix([[b[q] - a[q] for q in range(2)], [c[q] - a[q] for q in range(2)]]).det()
            d = sympy.diff(v[0], X[0]) + sympy.diff(v[1], X[1]) if fam == "BC" else sympy.diff(v[1], X[0]) - sympy.diff(v[0], X[1])
            vals.append(sympy.simplify(d * J))
        rep.equal(vals, [vals[0]] * len(vals), f"{name} function {i}",
                  guard(lambda m, i=i, vals=vals: f"function {i}: the {'fluxes out of' if fam == 'BC' else 'circulations around'} the triangles are half of {vals}"),
                  symbols=X[:2])
        rep.info["obligations"] += 1
        if vals[0] == 0:
            rep.violate(f"{name}: function {i} has no {'flux' if fam == 'BC' else 'circulation'}")
        if rep.full():
            break
    return rep.result()


def jobs(tier):
    out = []
    for k in (3, 4, 6, 8) if tier == "quick" else (3, 4, 6, 8, 12):
        for fam, o in (("dual", 0), ("dual", 1), ("BC", 1), ("RBC", 1)):
            out.append((f"dual polygon({k}) {fam} {o}", dual, (fam, o, k)))
    quick = tier == "quick"
    for s in elements.TABLE:
        if elements.cost(s) > (20 if quick else 1000):
            continue
        fam = s[1]
        if fam in ("P", "Q", "Lagrange", "dPc", "Bernstein", "serendipity", "P1-iso-P2") and s[3].get("variant", "equispaced") in (
                "equispaced", "gll", "radau"):
            if fam == "serendipity":
                continue
            out.append((f"unity {elements.name(s)}", unity, s))
        if fam == "Bernstein":
            out.append((elements.name(s), bernstein, s))
    extra = [("interval", "Bernstein", 5, {})]
    if not quick:
        extra += [("interval", "Bernstein", 6, {}), ("interval", "Bernstein", 7, {}), ("triangle", "Bernstein", 4, {}),
                  ("triangle", "Bernstein", 5, {}), ("tetrahedron", "Bernstein", 4, {})]
    for s in extra:
        out.append((f"unity {elements.name(s)}", unity, s))
        out.append((elements.name(s), bernstein, s))
    return out


if __name__ == "__main__":
    runner.main(
        "C20", jobs, "other",
        "basis functions computed by the real code, as terms in the point; z3 refutes a point where they do not sum to one, where a "
        "Bernstein function differs from its formula, or where a formula leaves [0, 1]",
        "all points (for the bounds: all points of the cell); element configurations in job_names",
        ["pyramid: points below the apex"],
        ["Lagrange/Q/DPC/Bernstein/P1IsoP2 get_basis_functions", "bernstein.bernstein_polynomials"],
        "Point-based Lagrange variants and Bernstein elements; functions are matched to the classical polynomials of their sub-entity.",
    )
