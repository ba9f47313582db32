"""C31: the self tests of an element accept it and reject wrong basis functions."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.realpath(__file__))))
from lib import boot, cells, elem, elements, harness, runner, smt, symexec  # noqa: E402,F401

import sympy  # noqa: E402
import z3  # noqa: E402

guard, differ = harness.guard, harness.differ
symexec.install()
X = elem.X


def duality(*spec):
    """One basis function is replaced by an arbitrary combination of all of them: rejected unless it is unchanged."""
    rep = harness.Rep(max_violations=2)
    name = elements.name(spec)
    ref = elements.make(spec)
    n = ref.space_dim
    if elem.is_piecewise(ref):
        return rep.result()
    basis = list(ref.get_basis_functions())
    for i in sorted({0, n - 1}):
        eps = [symexec.sym(f"e{k}") for k in range(n)]

        def wrong(vals, i=i):
            f = basis[i]
            for c, b in zip(vals, basis):
                f = f + c * b
            out = list(basis)
            out[i] = f
            return out

        def call(vals=None):
            e = elements.make(spec)
            e._basis_functions = wrong(eps if vals is None else vals)
            e.test_functionals()
            return True

        ctx = smt.Ctx()
        _, paths = symexec.explore(call, ctx, [], max_paths=4 * n + 20)
        rep.info["paths"] += len(paths)
        zero = z3.And(*[ctx.real(c) == 0 for c in eps])

        def replay(m, i=i):
            vals = [m.get(c, sympy.Integer(0)) for c in eps]
            try:
                call(vals)
                ok = True
            except AssertionError:
                ok = False
            if ok != all(v == 0 for v in vals):
                return f"function {i} changed by {vals} times the basis: the self test {'passes' if ok else 'fails'}"
            return None

        for p in paths:
            if p.error is not None and not isinstance(p.error, AssertionError):
                raise p.error
            bad = z3.And(*p.pc, zero if p.error is not None else z3.Not(zero), z3.BoolVal(True))
            rep.never(ctx, bad, eps, f"{name} function {i}", guard(replay))
            if rep.full():
                return rep.result()
    return rep.result()


def trace(continuity, v, td, order):
    """The values that have to agree on the facet x = 0, as expressions in the other variables."""
    def at(f):
        return sympy.expand(sympy.sympify(f).subs(X[0], 0))
    if continuity[0] == "C":
        out, cur = list(v), list(v)
        for _ in range(int(continuity[1:])):
            cur = [f.diff(q) for f in cur for q in X[:td]]
            out += cur
        return [at(f) for f in out]
    if continuity == "H(div)":
        return [at(v[0])]
    if continuity == "H(curl)":
        return [at(f) for f in v[1:]]
    if continuity == "inner H(div)":
        return [at(v[0])]
    if continuity == "inner H(curl)" and td == 2:
        return [at(v[3])]
    return None


def continuity(*spec):
    """A function of the neighbouring cell is changed by an arbitrary low degree function: rejected unless the trace is unchanged."""
    rep = harness.Rep(max_violations=2)
    name = elements.name(spec)
    cell = spec[0]
    td = cells.TDIM[cell]
    ref = elements.make(spec)
    if elem.is_piecewise(ref):
        return rep.result()
    basis = list(ref.get_basis_functions())
    cont = ref.continuity.replace("{order}", str(ref.order))
    seen = []
    real = type(ref).map_to_cell

    def spy(verts, *a, **k):
        seen.append(verts)
        return real(ref, verts, *a, **k)

    ref.map_to_cell = spy
    try:
        ref.test_continuity()
    except AssertionError:
        rep.violate(f"{name}: the continuity test rejects the element")
        return rep.result()
    rep.info["obligations"] += 1
    if not seen:
        return rep.result()
    verts = [tuple(sympy.sympify(c) for c in v) for v in seen[0]]
    neighbour = real(ref, seen[0])
    mine = [tuple(sympy.sympify(c) for c in v) for v in cells.DEFAULT[cell]]
    E = cells.ENT[cell]
    pairs = []
    for dim in range(td):
        for a, va in enumerate(E[dim]):
            for b, vb in enumerate(E[dim]):
                if {mine[i] for i in va} == {verts[j] for j in vb} and all(p[0] == 0 for p in (mine[i] for i in va)):
                    pairs += list(zip(ref.entity_dofs(dim, a), ref.entity_dofs(dim, b)))
    comps = harness.flat(basis[0])
    ncomp = len(comps)
    low = 1
    mons = elem.spaces.mono(td, low)
    for fi, gi in pairs:
        cs, ps = [], []
        for c in range(ncomp):
            q = [symexec.sym(f"d{c}_{j}") for j in range(len(mons))]
            cs += q
            ps.append(sum(a * m for a, m in zip(q, mons)))
        if trace(cont, ps, td, ref.order) is None:
            return rep.result()
        shape = None
        if ncomp > 1:
            shape = basis[0].shape if basis[0].is_matrix else (ncomp,)
            if len(shape) == 2:
                # only values that a function of the space can take: symmetric
                ps = [ps[min(i, j) * shape[0] + max(i, j)] for i in range(shape[0]) for j in range(shape[0])]
                cs = sorted({s for p in ps for s in p.free_symbols if symexec.is_sym(s)}, key=str)
        w = [t for t in trace(cont, ps, td, ref.order)]
        need = [c for t in w for c in sympy.Poly(t, *X[:td]).coeffs()] if any(t != 0 for t in w) else []

        def call(vals=None, gi=gi, ps=ps, shape=shape):
            e = elements.make(spec)
            f = elem.as_function([p if vals is None else p.subs(vals) for p in ps], shape)
            wrong = list(neighbour)
            wrong[gi] = wrong[gi] + f
            e.map_to_cell = lambda *a, **k: wrong
            e.test_continuity()
            return True

        ctx = smt.Ctx()
        _, paths = symexec.explore(call, ctx, [], max_paths=200)
        rep.info["paths"] += len(paths)
        same = z3.And(*[ctx.real(c) == 0 for c in need], z3.BoolVal(True))

        def replay(m, call=call, need=need, gi=gi, cs=cs):
            vals = {c: m.get(c, sympy.Integer(0)) for c in cs}
            try:
                call(vals)
                ok = True
            except AssertionError:
                ok = False
            if ok != all(sympy.sympify(c).subs(vals) == 0 for c in need):
                return f"function {gi} of the neighbour changed with {vals}: the continuity test {'passes' if ok else 'fails'}"
            return None

        for p in paths:
            if p.error is not None and not isinstance(p.error, AssertionError):
                raise p.error
            bad = z3.And(*p.pc, same if p.error is not None else z3.Not(same), z3.BoolVal(True))
            rep.never(ctx, bad, cs, f"{name} functions {fi} and {gi}", guard(replay))
            if rep.full():
                return rep.result()
    return rep.result()


def small(s, limit, size):
    if elements.cost(s) > limit:
        return False
    try:
        e = elements.make(s, basis=False)
    except smt.RealCodeFailure:
        return False
    return elem.has_dofs(e) and e.space_dim <= size


def jobs(tier):
    out = []
    quick = tier == "quick"
    for s in elements.select(0.5 if quick else 3):
        if small(s, 3, 8 if quick else 15):
            out.append(("duality " + elements.name(s), duality, s))
        if small(s, 3, 40 if quick else 100) and s[2] <= 4 and s[1] != "transition":
            out.append(("continuity " + elements.name(s), continuity, s))
    return out


if __name__ == "__main__":
    runner.main(
        "C31", jobs, "other",
        "the real self tests run on path-forking symbolic execution with one basis function (or one function of the neighbouring cell) "
        "replaced by itself plus an arbitrary combination; z3 refutes coefficients that are accepted although the functions differ, or "
        "rejected although they do not",
        lambda tier: "all coefficients of combinations of the basis functions, all coefficients of changes of degree at most 1; element "
        "configurations in job_names",
        ["neighbouring cell as the self test builds it"],
        ["CiarletElement.test_functionals", "FiniteElement.test_continuity", "functions._check_equal", "utils.allequal"],
        "The self tests accept exactly the functions that satisfy what they test, for all changes of the stated form.",
    )
