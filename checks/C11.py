"""C11: substitution is simultaneous and complete."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.realpath(__file__))))
from lib import boot, harness, runner, smt, symexec  # noqa: E402,F401
from lib import fun  # noqa: E402

import sympy  # noqa: E402

import symfem  # noqa: E402
from symfem.functions import MatrixFunction, ScalarFunction, VectorFunction  # noqa: E402
from symfem.piecewise_functions import PiecewiseFunction  # noqa: E402
from symfem.symbols import t, x  # noqa: E402

flat, differ, guard, sym = harness.flat, harness.differ, harness.guard, harness.sym
X, P = fun.X, fun.P
T = tuple(t)

# replacement expressions that mention the variables being replaced
VALUES = {
    "swap": (X[1], X[0], X[2]),
    "cycle": (X[1], X[2], X[0]),
    "shear": (X[0] + sym("a") * X[1], X[1] + sym("b") * X[2], X[2] + sym("c") * X[0]),
    "product": (X[1] * X[2] + sym("a"), X[0] * sym("b"), X[0] + X[1]),
    "constant": (sym("a"), sym("b"), sym("c")),
    "other symbols": (T[0] + X[1], T[1] * X[0], T[2]),
}


def instances(kind, sub):
    """Real function and table of the polynomials it consists of."""
    ps = [P.gen(f"q{i}", 3, 2) for i in range(4)]

    def e(p):
        return p.expr() if sub is None else p.expr().subs(sub)

    if kind == "scalar":
        return ScalarFunction(e(ps[0])), [ps[0]]
    if kind == "vector":
        return VectorFunction([e(p) for p in ps[:3]]), ps[:3]
    if kind == "matrix":
        return MatrixFunction([[e(ps[0]), e(ps[1])], [e(ps[2]), e(ps[3])], [e(ps[1]), e(ps[0])]]), [
            ps[0], ps[1], ps[2], ps[3], ps[1], ps[0]]
    if kind == "basis":
        return fun.Wrapped(ScalarFunction(e(ps[0]))), [ps[0]]
    if kind == "vector basis":
        return fun.Wrapped(VectorFunction([e(p) for p in ps[:2]])), ps[:2]
    raise ValueError(kind)


def evalp(p, vals):
    return p.expr(at=vals)


def check(kind, name):
    rep = harness.Rep()
    vals = VALUES[name]
    f, ps = instances(kind, None)
    orders = list(itertools.permutations(range(3))) if name in ("cycle", "product") else [(0, 1, 2), (2, 1, 0)]
    forms = {
        "tuples": lambda vs, ws: (tuple(vs), tuple(ws)),
        "lists": lambda vs, ws: (list(vs), list(ws)),
        "vector": lambda vs, ws: (tuple(vs), VectorFunction(list(ws))),
        "scalars": lambda vs, ws: (tuple(vs), tuple(ScalarFunction(w) for w in ws)),
    }

    def run(sub, mk, idx):
        g, _ = instances(kind, sub)
        ws = [v if sub is None else v.subs({k: q for k, q in sub.items() if k not in X and k not in T}) for v in vals]
        vs_, ws_ = mk([X[i] for i in idx], [ws[i] for i in idx])
        return flat(g.subs(vs_, ws_))

    def ob(what, idx, mk):
        full = tuple(vals[i] if i in idx else X[i] for i in range(3))
        want = [evalp(p, full) for p in ps]

        def replay(m):
            coeffs = {k: v for k, v in m.items() if k not in X and k not in T}
            return differ([e.subs(m) for e in run(coeffs, mk, idx)], [e.subs(m) for e in want])

        try:
            got = run(None, mk, idx)
        except Exception as e:  # noqa: BLE001
            rep.info["obligations"] += 1
            rep.violate(f"{what} raised {type(e).__name__}: {e}")
            return
        rep.equal(got, want, what, guard(replay))

    for fname, mk in forms.items():
        for idx in orders:
            ob(f"{kind} {name} {fname} {idx}", idx, mk)
        for k in (1, 2):
            for idx in itertools.permutations(range(3), k):
                ob(f"{kind} {name} {fname} {idx}", idx, mk)
    # a single variable, in every accepted form
    for i in range(3):
        ob(f"{kind} {name} single {i}", (i,), lambda vs, ws: (vs[0], ws[0]))
        ob(f"{kind} {name} single function {i}", (i,), lambda vs, ws: (vs[0], ScalarFunction(ws[0])))
    if name == "swap":
        # variables that do not occur
        g = f.subs(T, (sympy.Integer(3), X[0], X[1]))
        rep.equal(flat(g), flat(f), f"{kind}: variable that does not occur",
                  guard(lambda m: differ([e.subs(m) for e in flat(g)], [e.subs(m) for e in flat(f)])))
        # more variables than values: only the first ones are replaced
        g = f.subs(x, (X[1], sym("a")))
        want = [evalp(p, (X[1], sym("a"), X[2])) for p in ps]
        rep.equal(flat(g), want, f"{kind}: shorter list of values",
                  guard(lambda m: differ([e.subs(m) for e in flat(g)], [e.subs(m) for e in want])))
        # one substitution after the other
        g = f.subs((X[0], X[1]), (X[1], X[0])).subs((X[1], X[2]), (X[2] * X[0], X[1]))
        want = [evalp(p, (X[2] * X[0], X[0], X[1])) for p in ps]
        rep.equal(flat(g), want, f"{kind}: chained substitutions",
                  guard(lambda m: differ([e.subs(m) for e in flat(g)], [e.subs(m) for e in want])))
        # the original is untouched
        f2, _ = instances(kind, None)
        rep.equal(flat(f), flat(f2), f"{kind}: substitution changed the function", lambda m: "changed")
    if not f.is_scalar or True:
        # substitution commutes with taking components
        if f.is_vector:
            for i in range(len(f)):
                g = f.subs(x, vals)[i]
                rep.equal(flat(g), [evalp(ps[i], vals)], f"{kind} component {i}", lambda m: "component differs")
    return rep.result()


TRI = {
    2: [((0, 0), (1, 0), (0, 1)), ((1, 0), (1, 1), (0, 1))],
    1: [((0,), (sympy.Rational(1, 3),)), ((sympy.Rational(1, 3),), (1,))],
    3: [((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)), ((1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1))],
}


def inside(td, k, p):
    if td == 1:
        a, b = TRI[1][k][0][0], TRI[1][k][1][0]
        return sympy.And(a <= p[0], p[0] <= b)
    if k == 0:
        return sympy.And(*[c >= 0 for c in p], sum(p) <= 1)
    if td == 2:
        return sympy.And(*[c <= 1 for c in p], sum(p) >= 1)
    return sympy.And(p[0] + p[1] + p[2] >= 1, p[0] + p[1] - p[2] <= 1, p[0] - p[1] + p[2] <= 1, -p[0] + p[1] + p[2] <= 1)


def piecewise(td, kind):
    """Non-constant values are substituted in every piece; a point selects the piece it lies in."""
    rep = harness.Rep()
    import z3

    def make(sub=None):
        pieces = {}
        for k, c in enumerate(TRI[td]):
            ps = [P.gen(f"g{k}{i}", td, 1) for i in range(2)]
            es = [p.expr() if sub is None else p.expr().subs(sub) for p in ps]
            pieces[c] = es[0] if kind == "scalar" else tuple(es)
        return PiecewiseFunction(pieces, td), [[P.gen(f"g{k}{i}", td, 1) for i in range(1 if kind == "scalar" else 2)] for k in range(2)]

    f, tab = make()
    for name in ["swap", "shear", "product", "other symbols"]:
        vals = VALUES[name][:td]
        got = f.subs(x[:td], vals)
        got2 = f.subs(x, vals + tuple(x[td:]))
        for g in (got, got2):
            want = [evalp(p, vals + X[td:]) for ps in tab for p in ps]
            rep.equal([e for q in g.pieces.values() for e in flat(q)], want, f"piecewise {td} {kind} {name}",
                      guard(lambda m, vals=vals, want=want: differ(
                          [e.subs(m) for q in make({k: v for k, v in m.items() if k not in X and k not in T})[0].subs(x[:td], vals).pieces.values() for e in flat(q)],
                          [e.subs(m) for e in want])))
    # substituting other variables leaves every piece alone
    for vals in [tuple(sympy.Rational(1, 7) for _ in range(td)), tuple(sympy.Rational(5, 6) for _ in range(td))]:
        g = f.subs(t[:td], vals)
        ok = isinstance(g, PiecewiseFunction)
        rep.info["obligations"] += 1
        if not ok:
            rep.violate(f"piecewise {td}: substituting variables that do not occur selected a piece", {"values": vals})
    # evaluation at a symbolic point
    p = tuple(sym(f"z{i}") for i in range(td))
    syms = list(p)
    for perm in itertools.permutations(range(td)):
        ctx = smt.Ctx()
        cover = sympy.Or(*[inside(td, k, p) for k in range(2)])
        assume = [ctx.bool(cover)]
        rep.reachable(ctx, assume, "point in a piece")
        call = lambda: f.subs(tuple(X[i] for i in perm), tuple(p[i] for i in perm))  # noqa: E731
        _, paths = symexec.explore(call, ctx, assume)
        rep.info["paths"] += len(paths)
        coeffs = [c for ps in tab for q in ps for c in q.coeffs()]

        def replay(m, perm=perm):
            cs = {k: v for k, v in m.items() if k not in p}
            pt = tuple(m.get(q, sympy.Integer(0)) for q in p)
            fc, _ = make(cs)
            got = fc.subs(tuple(X[i] for i in perm), tuple(pt[i] for i in perm))
            res = []
            for k in range(2):
                if inside(td, k, pt) == True:  # noqa: E712
                    res.append(differ(flat(got), [evalp(q, pt).subs(m) for q in tab[k]]))
            if res and all(res):
                return res[0]

        if any(isinstance(q.value, PiecewiseFunction) for q in paths):
            # not recognised as a point: decided on a concrete one, then the selection itself on all of them
            pt = {p[i]: sympy.Rational(1, 7 - i) for i in range(td)}
            got = guard(replay)({**pt, **{c: sympy.Integer(k + 2) for k, c in enumerate(coeffs)}})
            rep.info["obligations"] += 1
            if got:
                rep.violate(f"piecewise evaluation {td} {kind}: {got}", pt)
            call = lambda: f.get_piece(p).subs(X[:td], p)  # noqa: E731
            ctx = smt.Ctx()
            assume = [ctx.bool(cover)]
            _, paths = symexec.explore(call, ctx, assume)
        for path in paths:
            if path.error is not None:
                rep.never(ctx, z3.And(*path.pc), syms, f"piecewise evaluation raised {path.error!r}", guard(replay), assume)
                continue
            # on this path the result is the value of a piece that contains the point
            wrong = []
            for k in range(2):
                diffs = [ctx.differs(a, evalp(q, p)) for a, q in zip(flat(path.value), tab[k])]
                wrong.append(z3.Or(z3.Not(ctx.bool(inside(td, k, p))), *diffs))
            rep.never(ctx, z3.And(*path.pc, *wrong), syms + coeffs, f"piecewise evaluation {td} {kind}", guard(replay), assume)
    return rep.result()


def elements():
    """Element basis functions: substituting a point into one equals substituting it into its function."""
    rep = harness.Rep()
    for args in [("triangle", "Lagrange", 2), ("tetrahedron", "N1curl", 1), ("triangle", "Regge", 1), ("quadrilateral", "Q", 2)]:
        e = symfem.create_element(*args)
        for n in range(len(e.get_basis_functions())):
            g = e.get_basis_function(n)
            h = e.get_basis_functions()[n]
            pts = VALUES["shear"]
            a, b = flat(g.subs(x, pts)), [v.subs(dict(zip(X, pts)), simultaneous=True) for v in flat(h)]
            rep.equal(a, b, f"{args} basis function {n}", lambda m: differ([k.subs(m) for k in a], [k.subs(m) for k in b]))
    return rep.result()


def jobs(tier):
    out = []
    for kind in ["scalar", "vector", "matrix", "basis", "vector basis"]:
        for name in VALUES:
            out.append((f"{kind} {name}", check, (kind, name)))
    for td in (1, 2, 3):
        for kind in ("scalar", "vector"):
            out.append((f"piecewise {td} {kind}", piecewise, (td, kind)))
    out.append(("element basis functions", elements, ()))
    return out


if __name__ == "__main__":
    runner.main(
        "C11", jobs, "other",
        "symbolic execution of subs on polynomials with symbolic coefficients (paths over the point for piecewise "
        "functions); z3 refutes every difference from the definition",
        "all quadratic polynomials in three variables as entries; six families of replacement expressions in the same "
        "variables with symbolic parameters; every subset and order of the variables; piecewise functions with two pieces in 1-3 dimensions at every point",
        ["sympy's expr.subs for a single symbol is trusted to build the terms"],
        ["ScalarFunction.subs", "VectorFunction.subs", "MatrixFunction.subs", "SubbedBasisFunction", "PiecewiseFunction.subs/get_piece"],
        "z3 shows that the substituted function equals the polynomial evaluated by the oracle at the replacement expressions, "
        "for all coefficients, parameters and points.")
