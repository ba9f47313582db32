"""C05: push-forwards preserve what they promise and are undone by their inverses."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.realpath(__file__))))
from lib import boot, cells, elem, fun, harness, runner, smt, symexec  # noqa: E402,F401

import sympy  # noqa: E402

import symfem  # noqa: E402
from symfem import mappings  # noqa: E402

guard, differ, sym, flat = harness.guard, harness.differ, harness.sym, harness.flat
symexec.install()
X = elem.X
R = sympy.Rational
SCALAR = ("identity", "l2")
VECTOR = ("identity", "covariant", "contravariant")
MATRIX = ("identity", "double_covariant", "double_contravariant")
TRANSPOSES = ("identity", "l2", "covariant", "contravariant")


def setup(how, cell, gdim):
    """(map, inverse map, J, symbols): an affine map with symbolic coefficients, from the cell's own code or directly."""
    td = cells.TDIM[cell]
    if how == "cell":
        verts, o, axes = cells.affine(cell, gdim)
        if td == 3:
            # every cell is a rotation of one whose edge matrix is triangular
            ends = [tuple(o[j] + (sym(f"v{'abc'[i]}{j}") if j <= i else 0) for j in range(3)) for i in range(3)]
            axes = [tuple(e[j] - o[j] for j in range(3)) for e in ends]
            verts = tuple(tuple(o[j] + sum(c * a[j] for c, a in zip(r, axes)) for j in range(3)) for r in cells.DEFAULT[cell])
        ref = symfem.create_reference(cell)
        if cell == "triangle" and gdim == 3:
            ref = symfem.create_reference(cell, vertices=verts)
            m, inv = tuple(ref.get_map_to_self()), tuple(ref.get_inverse_map_to_self())
        else:
            m, inv = tuple(ref.get_map_to(verts)), tuple(ref.get_inverse_map_to(verts))
        hs = sorted({s for v in verts for c in v for s in sympy.sympify(c).free_symbols}, key=str)
        J = sympy.Matrix([[a[i] for a in axes] for i in range(gdim)])
        return m, inv, J, hs, o, (verts,)
    A = sympy.Matrix(td, td, lambda i, j: sym(f"A{i}{j}"))
    b = [sym(f"b{i}") for i in range(td)]
    m = tuple(sum(A[i, j] * X[j] for j in range(td)) + b[i] for i in range(td))
    d = A.det(method="berkowitz")
    adj = A.adjugate()
    inv = tuple(sum(adj[i, j] * (X[j] - b[j]) for j in range(td)) / d for i in range(td))
    return m, inv, A, list(A) + b, tuple(b), None


def gram_det(J):
    return sympy.expand((J.T * J).det())


def function(kind, td, deg, tag="f"):
    if kind == "scalar":
        p = fun.P.gen(tag, td, deg)
        return p.expr(), p.coeffs()
    n = td if kind == "vector" else td * td
    ps = [fun.P.gen(f"{tag}{chr(97 + i)}", td, deg) for i in range(n)]
    cs = [c for p in ps for c in p.coeffs()]
    es = [p.expr() for p in ps]
    if kind == "vector":
        return tuple(es), cs
    return tuple(tuple(es[i * td + j] for j in range(td)) for i in range(td)), cs


def instance(v, m):
    if isinstance(v, tuple):
        return tuple(instance(c, m) for c in v)
    return sympy.sympify(v).subs(m)


def at_map(F, m):
    """The components of a mapped function at the image of a reference point."""
    sub = dict(zip(X, m))
    return [sympy.sympify(c).subs(sub, simultaneous=True) for c in flat(F)]


def shaped(vals, kind, rows):
    if kind == "scalar":
        return vals[0]
    if kind == "vector":
        return sympy.Matrix(vals)
    n = int(len(vals) / rows)
    return sympy.Matrix(rows, n, vals)


def claims(name, kind, F, f, J, td, gd):
    """[(what, left, right)]: the quantities the mapping keeps; F and f are values at matching points."""
    tau = sympy.Matrix([sym(f"t{i}") for i in range(td)])
    sig = sympy.Matrix([sym(f"s{i}") for i in range(td)])
    if name == "identity":
        return [("values", list(sympy.Matrix([F]) if kind == "scalar" else F), list(sympy.Matrix([f]) if kind == "scalar" else f))]
    if name == "covariant":
        return [("tangential components", [(F.T * (J * tau))[0]], [(f.T * tau)[0]])]
    if name == "double_covariant":
        return [("tangential-tangential components", [((J * tau).T * F * (J * sig))[0]], [(tau.T * f * sig)[0]])]
    det = J.det(method="berkowitz")
    if name == "l2":
        return [("values times volume", [F * sympy.Abs(det)], [f])]
    cof = J.adjugate().T  # det * inverse transpose
    if name == "contravariant":
        return [("fluxes", [(F.T * (cof * tau))[0]], [(f.T * tau)[0]])]
    if name == "double_contravariant":
        return [("normal-normal components", [((cof * tau).T * F * (cof * sig))[0]], [(tau.T * f * sig)[0]])]
    raise ValueError(name)


def mapping_case(how, cell, gdim, name, kind, deg):
    rep = harness.Rep(max_violations=2, timeout_ms=60000)
    td = cells.TDIM[cell]
    m, inv, J, hs, o, _ = setup(how, cell, gdim)
    f, cs = function(kind, td, deg)
    what = f"{name} of a {kind} function, {how} {cell} in {gdim}D"
    extra = [sym(f"{c}{i}") for c in "ts" for i in range(td)]
    symbols = hs + cs + list(X[:max(td, gdim)]) + extra

    def concrete(mod):
        sub = {s: mod.get(s, R(1, 3)) for s in symbols if s not in X}
        return (instance(tuple(m), sub), instance(tuple(inv), sub), J.subs(sub), instance(f, sub), sub,
                {v: mod.get(v, R(2 + i, 9)) for i, v in enumerate(X[:max(td, gdim)])})

    def degenerate(Jc):
        return gram_det(Jc) == 0

    def apply(fn, g, a, b, **kw):
        return fn(g, a, b, **kw)

    fwd = mappings.get_mapping(name)
    back = mappings.get_mapping(name, inverse=True)
    F = apply(fwd, f, m, inv)
    ctx = smt.Ctx()
    square = td == gdim
    dexpr = J.det(method="berkowitz") if square else gram_det(J)
    assume = [ctx.real(sympy.expand(dexpr)) != 0]

    def compare(tag, left, right, replay):
        rep.equal([sympy.together(e) for e in left], [sympy.together(e) for e in right], f"{what}: {tag}", guard(replay), ctx=ctx, assume=assume,
                  symbols=symbols)

    # 1. what is kept
    val = shaped(at_map(F, m), kind, gdim if name != "identity" else td)
    ref = shaped(flat(f), kind, td)
    for tag, left, right in claims(name, kind, val, ref, J, td, gdim):
        def replay(mod, tag=tag):
            a, b, Jc, fc, sub, pt = concrete(mod)
            if degenerate(Jc):
                return None
            Fc = fwd(fc, a, b)
            ptr = {v: pt[v] for v in X[:td]}
            img = dict(zip(X, [sympy.sympify(c).subs(ptr) for c in a]))
            vc = shaped([sympy.sympify(c).subs(img, simultaneous=True) for c in flat(Fc)], kind, gdim if name != "identity" else td)
            rc = shaped([sympy.sympify(c).subs(ptr) for c in flat(fc)], kind, td)
            for g, l_, r_ in claims(name, kind, vc, rc, Jc, td, gdim):
                l_ = [sympy.sympify(e).subs(sub) for e in l_]
                r_ = [sympy.sympify(e).subs(sub) for e in r_]
                d = differ(l_, r_)
                if d:
                    return d
            return None

        compare(tag, left, right, replay)

    # 2. the inverse undoes it (and the other way round)
    if square or name in ("identity", "covariant"):
        for first, second, args, tag in ((fwd, back, (m, inv), "inverse after map"), (back, fwd, (m, inv), "map after inverse")):
            if tag == "map after inverse" and not square:
                continue
            G = second(first(f, *args), *args)

            def replay2(mod, first=first, second=second):
                a, b, Jc, fc, sub, pt = concrete(mod)
                if degenerate(Jc):
                    return None
                g = second(first(fc, a, b), a, b)
                return differ([sympy.sympify(c).subs(pt) for c in flat(g)], [sympy.sympify(c).subs(pt) for c in flat(fc)])

            compare(tag, flat(G), flat(f), replay2)

    # 3. without substitution only the values are transformed
    if kind != "scalar" or name == "l2":
        pre = instance_sub(f, dict(zip(X, inv)))
        G = fwd(pre, m, inv, substitute=False)

        def replay3(mod):
            a, b, Jc, fc, sub, pt = concrete(mod)
            if degenerate(Jc):
                return None
            g = fwd(instance_sub(fc, dict(zip(X, b))), a, b, substitute=False)
            w = fwd(fc, a, b)
            return differ([sympy.sympify(c).subs(pt) for c in flat(g)], [sympy.sympify(c).subs(pt) for c in flat(w)])

        compare("substitute=False", flat(G), flat(F), replay3)
    rep.reachable(ctx, assume, what)
    return rep.result()


def instance_sub(v, sub):
    if isinstance(v, tuple):
        return tuple(instance_sub(c, sub) for c in v)
    return sympy.sympify(v).subs(sub, simultaneous=True)


def transpose_case(how, cell, name, kind):
    """The inverse transpose is the mapping of the dual: products of a mapped and a dually mapped function are kept."""
    rep = harness.Rep(max_violations=2, timeout_ms=60000)
    td = cells.TDIM[cell]
    m, inv, J, hs, o, _ = setup(how, cell, td)
    f, cs = function(kind, td, 1)
    g, ds = function(kind, td, 1, "g")
    symbols = hs + cs + ds + list(X[:td])
    fwd, dual = mappings.get_mapping(name), mappings.get_mapping(name, inverse=True, transpose=True)

    def product(fwd, dual, f, g, m, inv):
        a, b = at_map(fwd(f, m, inv), m), at_map(dual(g, m, inv), m)
        return sum(p * q for p, q in zip(a, b)), sum(p * q for p, q in zip(flat(f), flat(g)))

    left, right = product(fwd, dual, f, g, m, inv)
    ctx = smt.Ctx()
    assume = [ctx.real(sympy.expand(J.det(method="berkowitz"))) != 0]

    def replay(mod):
        sub = {s: mod.get(s, R(1, 3)) for s in symbols if s not in X}
        if J.subs(sub).det() == 0:
            return None
        l_, r_ = product(fwd, dual, instance(f, sub), instance(g, sub), instance(tuple(m), sub), instance(tuple(inv), sub))
        pt = {v: mod.get(v, R(2 + i, 9)) for i, v in enumerate(X[:td])}
        return differ(sympy.sympify(l_).subs(pt), sympy.sympify(r_).subs(pt))

    rep.equal(sympy.together(left), right, f"{name} and its inverse transpose, {kind}, {how} {cell}", guard(replay), ctx=ctx, assume=assume, symbols=symbols)
    return rep.result()


def names_case():
    rep = harness.Rep()
    for n in ("identity", "l2", "covariant", "contravariant", "double_covariant", "double_contravariant"):
        for inv in (False, True):
            rep.info["obligations"] += 1
            f = mappings.get_mapping(n, inverse=inv)
            if not callable(f):
                rep.violate(f"get_mapping({n}, inverse={inv})")
    rep.info["obligations"] += 1
    try:
        mappings.get_mapping("no such map")
    except ValueError:
        pass
    else:
        rep.violate("an unknown mapping is not refused")
    return rep.result()


def jobs(tier):
    quick = tier == "quick"
    out = [("names", names_case, ())]
    spots = [("cell", "interval", 1), ("cell", "triangle", 2), ("direct", "interval", 1), ("direct", "triangle", 2), ("direct", "tetrahedron", 3),
             ("cell", "quadrilateral", 2), ("cell", "tetrahedron", 3), ("cell", "hexahedron", 3)]
    for how, c, g in spots:
        td = cells.TDIM[c]
        for kind, names in (("scalar", SCALAR), ("vector", VECTOR), ("matrix", MATRIX)):
            if kind != "scalar" and td == 1:
                continue
            for n in names:
                for deg in (1,) if td == 3 or kind == "matrix" else (1, 2):
                    if c == "hexahedron" and quick:
                        continue
                    if td == 3 and kind == "matrix" and (quick or how == "cell"):
                        deg = 0
                    out.append((f"{n} {kind} {how} {c} degree {deg}", mapping_case, (how, c, g, n, kind, deg)))
            if how == "direct" or c == "triangle":
                for n in [q for q in TRANSPOSES if q in names]:
                    out.append((f"transpose {n} {kind} {how} {c}", transpose_case, (how, c, n, kind)))
    for c, g in (("interval", 2), ("interval", 3), ("triangle", 3)):
        out.append((f"identity scalar {c} in {g}D", mapping_case, ("cell", c, g, "identity", "scalar", 1)))
        if c == "triangle":
            out.append((f"double_covariant matrix {c} in {g}D", mapping_case, ("cell", c, g, "double_covariant", "matrix", 0)))
        out.append((f"covariant vector {c} in {g}D", mapping_case, ("cell", c, g, "covariant", "vector", 1)))
    return out


if __name__ == "__main__":
    runner.main(
        "C05", jobs, "other",
        "mapping functions executed on a generic polynomial function and an affine map with symbolic coefficients (from symbolic cell vertices or a symbolic "
        "matrix); z3 refutes a map, function, point and direction for which the kept quantity changes or the inverse does not give the function back",
        "all non-degenerate affine maps, polynomial functions up to the degree in the job name, all points and directions",
        ["non-affine maps", "contravariant and L2 maps to cells of higher geometric dimension (the code has no determinant there)"],
        ["mappings.*", "Reference.get_map_to", "Reference.get_inverse_map_to"],
        "Pointwise forms of the kept integrals (tangential, normal, volume), inverses in both orders, dual pairs.",
    )
