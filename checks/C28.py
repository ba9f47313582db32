"""C28: polynomial sets are bases of the spaces they name."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.realpath(__file__))))
from lib import boot, elem, harness, runner, smt, spaces, span, symexec  # noqa: E402,F401

import sympy  # noqa: E402
import z3  # noqa: E402

from symfem import polynomials as pl  # noqa: E402
from symfem.symbols import t, x  # noqa: E402

symexec.install()
X = elem.X
U = tuple(sympy.symbols("u v w"))
VARS = {"default": None, "t": tuple(t), "permuted": (x[2], x[0], x[1]), "swapped": (x[1], x[0], x[2]), "other": U}


def call(fn, args, variables):
    if variables is None:
        return list(fn(*args))
    return list(fn(*args, variables=tuple(variables)))


def comps(f):
    return [sympy.sympify(c) for c in harness.flat(f)]


def polyset(fn, args, oracle, variables, modulo=None, extra=None):
    """The set is independent (modulo a space) and, together with that space, spans the oracle."""
    rep = harness.Rep(max_violations=2)
    name = f"{fn.__name__}{args} in {variables or 'x'}"
    vs = X if variables is None else tuple(variables)
    try:
        fs = [comps(f) for f in call(fn, args, variables)]
    except NotImplementedError:
        return rep.result()
    ren = dict(zip(X, vs))
    want = [[sympy.sympify(c).xreplace(ren) for c in g] for g in oracle]
    mod = [[sympy.sympify(c).xreplace(ren) for c in g] for g in (modulo or [])]
    gens = sorted(set(vs) | set(X), key=str)
    tag = lambda g: list(enumerate(g))  # noqa: E731
    everything = [tag(g) for g in mod + fs]
    ncomp = {len(g) for g in want}
    rep.info["obligations"] += 1
    if fs and {len(f) for f in fs} != ncomp:
        rep.violate(f"{name}: functions with {sorted({len(f) for f in fs})} components instead of {sorted(ncomp)}")
        return rep.result()
    # independence: no non-zero coefficient vector gives the zero function
    keys, rows = span.rows(everything, gens)
    cs = [z3.Real(f"c{i}") for i in range(len(everything))]
    ctx = smt.Ctx()
    eqs = [z3.Sum([ctx.real(r[k]) * c for r, c in zip(rows, cs) if k in r]) == 0 for k in keys]
    rep.info["obligations"] += 1
    r, m = smt.check(eqs + [z3.Or(*[c == 1 for c in cs])] if cs else [z3.BoolVal(False)], 60000)
    if r == "unknown":
        raise smt.Inconclusive(f"{name} independence")
    if r == "sat":
        vals = [smt.as_rational(m.eval(c, model_completion=True)) for c in cs]
        zero = [sympy.expand(sum(v * g[i] for v, g in zip(vals, mod + fs))) for i in range(len(fs[0]) if fs else 0)]
        if any(sympy.cancel(q) != 0 for q in zero):
            raise smt.Inconclusive(f"{name}: dependence {vals} does not reproduce")
        rep.violate(f"{name}: the functions are dependent, coefficients {[str(v) for v in vals if v is not None][-len(fs):]}"
                    + (" (up to lower order functions)" if mod else ""))
        return rep.result()
    for a, b, what in ((want, mod + fs, "of the space is not in the span"), (fs, want, "is not in the space")):
        if not a:
            continue
        sp = span.Span([tag(g) for g in b], [tag(g) for g in a], gens)
        rep.info["obligations"] += 1
        r, i = sp.outside(sp.others)
        if r == "unknown":
            raise smt.Inconclusive(f"{name} {what}")
        if r == "sat":
            rep.violate(f"{name}: {a[i]} {what}")
            return rep.result()
    if extra:
        for f in fs:
            got = extra([c.xreplace({b: a for a, b in ren.items()}) for c in f])
            rep.equal(got, [0] * len(harness.flat(got)), f"{name}: {f} {extra.__name__}", lambda m, f=f: f"{f}", symbols=X)
            if rep.full():
                break
    rep.info["functions"] = len(fs)
    return rep.result()


def divergence(v):
    return [sympy.expand(spaces.div(v))]


def rotation(v):
    return [sympy.expand(sympy.diff(v[1], X[0]) - sympy.diff(v[0], X[1]))]


def indices(total, linear, dim):
    """serendipity_indices lists exactly the exponents with the given sum and at least `linear` ones."""
    rep = harness.Rep()
    name = f"serendipity_indices({total}, {linear}, {dim})"
    got = pl.serendipity_indices(total, linear, dim)
    i = [z3.Int(f"i{k}") for k in range(dim)]
    want = z3.And(*[a >= 0 for a in i], z3.Sum(i) == total, z3.Sum([z3.If(a == 1, 1, 0) for a in i]) >= linear)
    have = z3.Or(*[z3.And(*[a == int(b) for a, b in zip(i, g)]) for g in got]) if got else z3.BoolVal(False)
    rep.info["obligations"] += 2
    r, m = smt.check([want != have])
    if r != "unsat":
        if r == "unknown":
            raise smt.Inconclusive(name)
        p = [m.eval(a, model_completion=True).as_long() for a in i]
        rep.violate(f"{name}: {p} is {'listed' if p in [list(g) for g in got] else 'missing'}")
    if any(len(g) != dim for g in got) or len({tuple(g) for g in got}) != len(got):
        rep.violate(f"{name}: repeated or misshapen entries in {got}")
    return rep.result()


def sets(quick):
    S = spaces
    out = []
    cap = {1: 8, 2: 6, 3: 4} if quick else {1: 12, 2: 9, 3: 6}
    for d in (1, 2, 3):
        for k in range(cap[d] + 1):
            out.append((pl.polynomial_set_1d, (d, k), S.sc(S.P(d, k)), None, None))
            out.append((pl.quolynomial_set_1d, (d, k), S.sc(S.Q(d, k)), None, None)) if d < 3 or k < 4 or not quick else None
            for r in (1, 2, 3):
                if k <= (2 if quick else 4):
                    out.append((pl.polynomial_set_vector, (d, r, k), S.vec(S.P(d, k), r), None, None))
                    out.append((pl.quolynomial_set_vector, (d, r, k), S.vec(S.Q(d, k), r), None, None))
            if k >= 1:
                out.append((pl.serendipity_set_1d, (d, k), S.sc(S.seren(d, k) if d > 1 else S.P(1, k)), S.sc(S.P(d, k)), None))
                if k <= 3:
                    for r in (2, 3):
                        out.append((pl.serendipity_set_vector, (d, r, k), S.vec(S.seren(d, k) if d > 1 else S.P(1, k), r), S.vec(S.P(d, k), r), None))
            if d > 1 and k >= 1:
                out.append((pl.Hdiv_polynomials, (d, d, k), S.rt(d, k), S.vec(S.P(d, k - 1), d), None))
                out.append((pl.Hcurl_polynomials, (d, d, k), S.ned1(d, k), S.vec(S.P(d, k - 1), d), None))
                if k <= (3 if quick else 5):
                    out.append((pl.Hdiv_quolynomials, (d, d, k), S.comp(*[S.qmono([k if i == j else k - 1 for j in range(d)]) for i in range(d)]),
                                S.vec(S.Q(d, k - 1), d), None))
                    out.append((pl.Hcurl_quolynomials, (d, d, k), S.comp(*[S.qmono([k - 1 if i == j else k for j in range(d)]) for i in range(d)]),
                                S.vec(S.Q(d, k - 1), d), None))
                c = "quadrilateral" if d == 2 else "hexahedron"
                out.append((pl.Hdiv_serendipity, (d, d, k), S.space(c, "Sdiv", k, {})[0], S.vec(S.P(d, k), d), divergence))
                out.append((pl.Hcurl_serendipity, (d, d, k), S.space(c, "Scurl", k, {})[0], S.vec(S.P(d, k), d), rotation if d == 2 else None))
    z = X[2]
    for k in range(5 if quick else 7):
        pr = [p * z**i for p in S.P(2, k) for i in range(k + 1)]
        out.append((pl.prism_polynomial_set_1d, (3, k), S.sc(pr), None, None))
        out.append((pl.pyramid_polynomial_set_1d, (3, k), S.sc(S.pyramid(k)), None, None))
        if k <= 2:
            for r in (1, 2, 3):
                out.append((pl.prism_polynomial_set_vector, (3, r, k), S.vec(pr, r), None, None))
                out.append((pl.pyramid_polynomial_set_vector, (3, r, k), S.vec(S.pyramid(k), r), None, None))
        for c, d in (("interval", 1), ("triangle", 2), ("tetrahedron", 3), ("quadrilateral", 2), ("hexahedron", 3), ("prism", 3), ("pyramid", 3)):
            o = {"quadrilateral": S.Q(2, k), "hexahedron": S.Q(3, k), "prism": pr, "pyramid": S.pyramid(k)}.get(c, S.P(d, k))
            if c != "hexahedron" or k < 4:
                out.append((pl.polynomial_set, (c, k), S.sc(o), None, None))
    return out


def jobs(tier):
    quick = tier == "quick"
    out = []
    for fn, args, oracle, mod, extra in sets(quick):
        for vn, v in VARS.items():
            if vn != "default" and len(oracle) > (25 if quick else 120):
                continue
            if v is not None and fn in (pl.polynomial_set_1d, pl.polynomial_set_vector) and args[0] == 1:
                v = v[:1]
            out.append((f"{fn.__name__}{args} {vn}", polyset, (fn, args, oracle, v, mod, extra)))
    for d in (1, 2, 3, 4):
        for tot in range(0, 7 if quick else 10):
            for lin in range(-1, d + 2):
                out.append((f"indices {tot} {lin} {d}", indices, (tot, lin, d)))
    return out


if __name__ == "__main__":
    runner.main(
        "C28", jobs, "other",
        "the polynomials of every set become linear constraints; z3 decides whether a non-zero coefficient vector gives the zero function "
        "and whether a functional separates the set's span from the space it names (both directions); serendipity indices over all integers",
        "all coefficient vectors; dimensions 1-3, orders in job_names, five choices of variables",
        ["named spaces in lib/spaces.py are written independently of the code"],
        ["polynomials.polysets.*"],
        "Sets that complete a lower order space (Hdiv/Hcurl/serendipity) are checked modulo that space.",
    )
