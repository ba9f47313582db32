"""C02: the span of the basis functions is the documented space, the reported degrees are right, interpolation reproduces it."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.realpath(__file__))))
from lib import boot, elem, elements, harness, runner, smt, spaces, span, symexec  # noqa: E402,F401

import sympy  # noqa: E402

guard, differ = harness.guard, harness.differ
symexec.install()
X = elem.X
SIMPLEX = ("interval", "triangle", "tetrahedron")


def tagged(f):
    """Function as [(tag, component)] for every region and component."""
    return [((n, i), c) for n, (_, comps) in enumerate(elem.pieces(f)) for i, c in enumerate(comps)]


def spread(gen, npieces):
    return [((n, i), c) for n in range(npieces) for i, c in enumerate(gen)]


def full(spec, shape, kind, k, td):
    """All polynomials of degree k (kind 'P' total, 'Q' per variable) with the element's value shape."""
    if k < 0:
        return []
    s = spaces.P(td, k) if kind == "P" else spaces.Q(td, k)
    if shape is None:
        return spaces.sc(s)
    if len(shape) == 1:
        return spaces.vec(s, shape[0])
    if spec[1] in ("matrix Lagrange",):
        return spaces.mats(s, shape[0])
    return spaces.symm(s, shape[0])


def lagrange(spec, shape, k, td):
    """The Lagrange space of degree k on the cell."""
    if k < 0:
        return []
    cell = spec[0]
    if cell in SIMPLEX:
        return full(spec, shape, "P", k, td)
    if cell in ("quadrilateral", "hexahedron"):
        return full(spec, shape, "Q", k, td)
    g, _ = spaces.space(cell, "Lagrange", k, {})
    s = [p[0] for p in g]
    return spaces.sc(s) if shape is None else spaces.vec(s, shape[0])


def get(e, attr):
    try:
        return getattr(e, attr), True
    except NotImplementedError:
        return None, False


def space(*spec):
    """The space of a dear element, from its polynomial basis (of which the basis functions are combinations)."""
    try:
        e = elements.make(spec, basis=False)
    except smt.RealCodeFailure:
        if spec in elements.TABLE:
            raise
        return {"obligations": 0}  # the family ends below this order
    try:
        polys = e.get_polynomial_basis()
    except (NotImplementedError, AttributeError):
        return {"obligations": 0}
    out = spanning(*spec, element=e, basis=polys)
    if elem.has_dofs(e) and len(e.dofs) != len(polys):
        out["violations"].append((f"{elements.name(spec)}: {len(polys)} functions in the polynomial basis, {len(e.dofs)} degrees of freedom", {}, None))
    return out


def spanning(*spec, element=None, basis=None):
    rep = harness.Rep(max_violations=2)
    cell, fam, order, kw = spec
    name = elements.name(spec)
    e = element or elements.make(spec)
    td = e.reference.tdim
    from_basis = basis is None
    basis = e.get_basis_functions() if from_basis else basis
    fs = [tagged(f) for f in basis]
    npieces = len(elem.pieces(basis[0]))
    ncomp = len(elem.pieces(basis[0])[0][1])
    shape = e.range_shape if e.range_shape is not None else (None if e.range_dim == 1 else (e.range_dim,))
    if (1 if shape is None else sympy.prod(shape)) != ncomp:
        rep.violate(f"{name}: value shape {shape} but basis functions have {ncomp} components")
        return rep.result()
    gens = X[:td]
    oracle = spaces.space(cell, fam, order, kw)

    def member(polys, what, inside=True, key=None):
        """polys (component tuples) lie in the span of the basis functions (or, inside=False: not all of them do)."""
        if not polys:
            return
        sp = span.Span(fs, [spread(g, npieces) for g in polys], gens)
        rep.info["obligations"] += 1
        r, i = sp.outside(sp.others)
        if r == "unknown":
            raise smt.Inconclusive(f"{name} {what}")
        if inside and r == "sat":
            g = polys[i]
            how = f"{g} is not a combination of the basis functions"
            if elem.has_dofs(e) and from_basis:
                p = elem.as_function(g, shape)
                q = elem.combine([d.eval(p).as_sympy() for d in e.dofs], basis)
                bad = [differ(c, g) for _, c in elem.pieces(q)]
                if not any(bad):
                    raise smt.Inconclusive(f"{name} {what}: interpolation reproduces {g}")
                how += f"; its interpolant is {harness.flat(q.as_sympy()) if npieces == 1 else [c for _, c in elem.pieces(q)]}"
            rep.violate(f"{name} {what}: {how}", {}, key)
        if not inside and r == "unsat":
            rep.violate(f"{name} {what}", {}, key)

    def within(polys, what, inside=True, key=None):
        """Every basis function lies in the span of polys (inside=False: some do not)."""
        sp = span.Span([[((0, i), c) for i, c in enumerate(g)] for g in polys], [tagged(f) for f in basis], gens)
        if npieces > 1:
            return
        rep.info["obligations"] += 1
        r, i = sp.outside(sp.others)
        if r == "unknown":
            raise smt.Inconclusive(f"{name} {what}")
        if inside and r == "sat":
            rep.violate(f"{name} {what}: basis function {i} = {harness.flat(basis[i])} is not", {}, key)
        if not inside and r == "unsat":
            rep.violate(f"{name} {what}", {}, key)

    if oracle is not None:
        polys, exact = oracle
        member(polys, "documented space in the span")
        if exact:
            within(polys, "basis functions in the documented space")
    for attr, fn, sup in (("polynomial_subdegree", lambda k: full(spec, shape, "P", k, td), False),
                          ("polynomial_superdegree", lambda k: full(spec, shape, "P", k, td), True),
                          ("lagrange_subdegree", lambda k: lagrange(spec, shape, k, td), False),
                          ("lagrange_superdegree", lambda k: lagrange(spec, shape, k, td), True)):
        k, ok = get(e, attr)
        if not ok or npieces > 1 and sup:
            continue
        if not sup:
            member(fn(k), f"{attr} {k}", key=f"{name} {attr}")
            member(fn(k + 1), f"{attr} is reported as {k} but degree {k + 1} is contained as well", inside=False, key=f"{name} {attr}")
        elif k is not None:  # None claims nothing
            within(fn(k), f"{attr} {k}: every basis function of degree at most {k}", key=f"{name} {attr}")
            within(fn(k - 1), f"{attr} is reported as {k} but degree {k - 1} contains the basis functions", inside=False,
                   key=f"{name} {attr}")
    return rep.result()


def interpolation(*spec):
    """sum_i L_i(p) phi_i equals p for every p in the oracle space."""
    rep = harness.Rep(max_violations=1)
    name = elements.name(spec)
    e = elements.make(spec)
    basis = e.get_basis_functions()
    shape = e.range_shape if e.range_shape is not None else (None if e.range_dim == 1 else (e.range_dim,))
    if basis[0].is_vector:
        shape = (len(harness.flat(basis[0])),)
    polys, _ = spaces.space(spec[0], spec[1], spec[2], spec[3])
    cs, p = elem.generic(polys)
    pf = elem.as_function(p, shape)
    vals = [elem.tidy(d.eval(pf).as_sympy()) for d in e.dofs]
    q = elem.combine(vals, basis)

    def replay(m):
        e2 = elements.make(spec)
        m = {c: m.get(c, sympy.Integer(0)) for c in cs}
        g = tuple(sympy.sympify(c).subs(m) for c in p)
        f2 = elem.as_function(g, shape)
        q2 = elem.combine([d.eval(f2).as_sympy() for d in e2.dofs], e2.get_basis_functions())
        for _, comps in elem.pieces(q2):
            for a, b in zip(comps, g):
                if sympy.simplify(a - b) != 0:
                    return f"interpolating {g} gives {comps}"
        return None

    ctx = smt.Ctx()
    td = e.reference.tdim
    for _, comps in elem.pieces(q):
        for a, b in zip(comps, p):
            keys, rs = span.rows([[(0, a - b)]], X[:td])
            co = list(rs[0].values())
            rep.equal(co, [0] * len(co), f"{name} interpolation", guard(replay), ctx=ctx, symbols=cs) if co else None
    rep.info["obligations"] += 1
    return rep.result()


def jobs(tier):
    out = []
    th = tier == "thorough"
    for s in elements.select(1000 if th else 5):
        out.append((elements.name(s), spanning, s))
        if elements.cost(s) <= (60 if th else 1.0) and spaces.space(*s) is not None and s[1] not in ("EG", "LFEG", "direct serendipity"):
            out.append(("interpolate " + elements.name(s), interpolation, s))
    done = {n for n, _, _ in out}
    for s in beyond(th):
        if elements.name(s) not in done:
            out.append(("space " + elements.name(s), space, s))
    return out


def beyond(th):
    """Configurations that are too dear for their basis functions, and orders above the table."""
    last = {}
    for s in elements.TABLE:
        key = (s[0], s[1], str(s[3]))
        if key not in last or last[key][2] < s[2]:
            last[key] = s
    skip = ("Bernstein",)  # creation alone is dear
    out = [s for s in elements.TABLE if th or s[1] not in skip]
    for s in last.values():
        for up in (1, 2) if th or s[0] in ("interval", "triangle", "quadrilateral") else (1,):
            if s[1] not in skip and (th or not (s[1] == "bubble" and s[3].get("variant") == "lobatto")):
                out.append((s[0], s[1], s[2] + up, s[3]))
    return out


if __name__ == "__main__":
    runner.main(
        "C02", jobs, "other",
        "the basis functions the code computes become linear constraints on an unknown functional; z3 decides whether a functional "
        "separates the documented space from the span (both directions) and the reported degrees; interpolation is executed on "
        "polynomials with symbolic coefficients",
        lambda tier: "all coefficients; the element configurations named in job_names (quick: those that cost up to about 5 s, "
        "interpolation up to 1 s)",
        ["oracle spaces in lib/spaces.py are transcribed from the literature independently of the code"],
        ["CiarletElement.get_basis_functions", "polynomials.polysets.*", "functionals.*.eval", "FiniteElement.polynomial_subdegree",
         "FiniteElement.polynomial_superdegree", "FiniteElement.lagrange_subdegree", "FiniteElement.lagrange_superdegree"],
        "Spans are compared in both directions for every coefficient vector; the reported degrees are shown to hold and to be tight.",
    )
