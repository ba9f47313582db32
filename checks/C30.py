"""C30: what is written in TeX is what is meant."""
import os
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.realpath(__file__))))
from lib import boot, cells, elem, elements, fun, harness, runner, smt, symexec, tex  # noqa: E402,F401
from checks import C18  # noqa: E402

import sympy  # noqa: E402

import symfem  # noqa: E402
from symfem.functions import MatrixFunction, ScalarFunction, VectorFunction, parse_function_input  # noqa: E402
from symfem.piecewise_functions import PiecewiseFunction  # noqa: E402
from symfem.symbols import t, x  # noqa: E402

guard, differ, flat, sym = harness.guard, harness.differ, harness.flat, symexec.sym
X = tuple(x)


def monomial(kind, e):
    if kind == "prism":
        return C18.monomial_integral("triangle", e[:2]) * sympy.Rational(1, e[2] + 1)
    if kind == "pyramid":
        i, j, k = e
        f = sympy.factorial
        return f(i + j + 2) * f(k) / f(i + j + k + 3) / ((i + 1) * (j + 1))
    return C18.monomial_integral(kind, e)


def integral(ent, term):
    """Integral over an entity of a term in x and the coordinates t of the entity."""
    kind, o, axes = ent
    S = C18.S
    pt = [o[i] + sum(a[i] * s for a, s in zip(axes, S)) for i in range(len(o))]
    e = sympy.sympify(term).subs({**dict(zip(X, pt)), **dict(zip(t, S))}, simultaneous=True)
    out = sympy.Integer(0)
    for mon, c in sympy.Poly(sympy.expand(e), *S[: len(axes)]).terms():
        out += c * monomial(kind, mon)
    return out * sympy.sqrt(cells.gram(axes))


def geometry(reference):
    return tex.Geo(reference.name, [tuple(sympy.sympify(c) for c in v) for v in reference.vertices])


WORDS = ["vertex", "edge", "face", "volume"]


def nth(n):
    return f"{n}" + ("th" if n % 100 in (11, 12, 13) else {1: "st", 2: "nd", 3: "rd"}.get(n % 10, "th"))


def explained(mentioned, notes, tdim):
    """Every symbol in the description is explained, and nothing else is."""
    want = set()
    for m in mentioned:
        if m == ("R",):
            want.add("\\(R\\) is the reference element")
        elif m[0] == "n":
            want.add(f"\\(\\hat{{\\boldsymbol{{n}}}}_{{{m[1]}}}\\) is the normal to facet {m[1]}")
        elif m[0] == "t":
            want.add(f"\\(\\hat{{\\boldsymbol{{t}}}}_{{{m[1]}}}\\) is the tangent to edge {m[1]}")
        else:
            want.add(f"\\({m[0]}_{{{m[1]}}}\\) is the {nth(m[1])} {WORDS['vefc'.index(m[0])]}")
    if set(notes) != want or len(set(notes)) != len(notes):
        return f"explains {sorted(notes)} instead of {sorted(want)}"
    return None


def read(dof, fn, symbols):
    """(value of the description for the function, notes that are wrong)."""
    desc, notes = dof.get_tex()
    geo = geometry(dof.reference)
    data = parse_function_input(fn).as_sympy()
    if isinstance(data, sympy.MatrixBase):
        data = tuple(tuple(data[i, j] for j in range(data.cols)) for i in range(data.rows))
    try:
        val, mentioned = tex.functional(desc, data, geo, X, tuple(t), integral, symbols)
    except (ValueError, IndexError, TypeError, KeyError) as e:
        raise tex.Unreadable(f"{desc!r}: {e}") from e
    if isinstance(val, tex.Mat):
        raise tex.Unreadable(f"{desc!r} is not scalar")
    return sympy.sympify(val), explained(mentioned, notes, geo.tdim)


def compare(rep, what, build, symbols, key=None):
    """The description of a degree of freedom denotes its value. build(put) -> (dof, function)."""
    def values(m=None):
        dof, v = build(lambda e: harness.at(e, m) if m is not None else e)
        try:
            val, wrong = read(dof, v, symbols)
        except tex.Unreadable as e:
            return None, f"cannot be read: {e}", dof
        return (dof.eval(parse_function_input(v)).as_sympy(), val), wrong, dof

    def replay(m):
        both, wrong, dof = values(m)
        if wrong:
            return wrong
        d = differ([both[0]], [both[1]])
        return d and f"value and description {dof.get_tex()[0]}: {d}"

    both, wrong, dof = values()
    if wrong:
        rep.info["obligations"] += 1
        # shown on numbers, so that it does not rest on how a symbol is printed
        msg = guard(replay)({s: sympy.Rational(i + 2, 7) for i, s in enumerate(symbols)})
        if not msg:
            raise smt.Inconclusive(f"{what}: {wrong}")
        rep.violate(f"{what}: {msg}", {}, key)
        return
    free = sorted({s for b in both for s in sympy.sympify(b).free_symbols}, key=str)
    rep.equal([elem.tidy(both[0])], [elem.tidy(both[1])], what, guard(replay), symbols=free)


class Collect:
    """Takes the place of C18.one: the constructions made there are read here."""

    def __init__(self, rep):
        self.rep = rep

    def __call__(self, _rep, what, build, want, direction=None):
        if self.rep.full():
            return
        free = set()

        def note(e):
            for i in flat(e) if isinstance(e, (list, tuple)) else [e]:
                free.update(sympy.sympify(i).free_symbols)
            return e

        build(note)
        symbols = sorted((s for s in free if s not in X), key=str)
        compare(self.rep, what, build, symbols)


def constructed(which, *args):
    """Degrees of freedom with symbolic points, vectors and weights, as C18 constructs them."""
    rep = harness.Rep(max_violations=3)
    had = C18.one
    C18.one = Collect(rep)
    try:
        getattr(C18, which)(*args)
    finally:
        C18.one = had
    return rep.result()


def line():
    """Derivatives on an interval, which are written with primes."""
    rep = harness.Rep(max_violations=3)
    q, a = sym("q0"), sym("a0")
    p = C18.scalar(1, 6).expr()
    symbols = sorted((sympy.sympify(p).free_symbols | {q, a}) - set(X), key=str)
    for skew in (False, True):
        r = C18.ref("interval", skew)
        for k in range(0, 6):
            compare(rep, f"derivative {k} at a point of an interval",
                    lambda put, k=k: (C18.F.DerivativePointEvaluation(r, (put(q),), (k,), entity=(1, 0)), put(p)), symbols)
        for d in (a, sympy.Integer(1), sympy.Rational(-2, 3)):
            compare(rep, f"derivative in direction {d} at a point of an interval",
                    lambda put, d=d: (C18.F.PointDirectionalDerivativeEvaluation(r, (put(q),), (put(d),), entity=(1, 0)), put(p)), symbols)
    return rep.result()


def flattened(cell):
    """A moment against a matrix whose entries are listed row by row."""
    rep = harness.Rep(max_violations=3)
    td = cells.TDIM[cell]
    r = C18.ref(cell, False)
    w = [C18.weight(td, 1, f"f{i}") for i in range(td**2)]
    v = [fun.P.gen(f"v{i}", td, 1).expr() for i in range(td**2)]
    symbols = sorted({s for c in w + v for s in sympy.sympify(c).free_symbols} - set(X), key=str)
    mid = C18.F.PointEvaluation(symfem.create_reference(cell), tuple(sympy.Rational(1, 3) for _ in range(td)), entity=(td, 0))
    compare(rep, f"{cell} IntegralMoment, flattened matrix",
            lambda put: (C18.F.IntegralMoment(r, tuple(put(w)), mid, entity=(td, 0)), tuple(put(v))), symbols)
    return rep.result()


def generic(e, deg):
    """A generic polynomial of the value kind of the element."""
    td = e.reference.tdim
    f = e.get_polynomial_basis()[0]
    if hasattr(f, "pieces"):
        f = list(f.pieces.values())[0]
    if f.is_scalar:
        return fun.P.gen("p", td, deg).expr()
    if f.is_vector:
        return tuple(fun.P.gen(f"p{i}", td, deg).expr() for i in range(len(f)))
    return tuple(tuple(fun.P.gen(f"p{i}{j}", td, deg).expr() for j in range(f.shape[1])) for i in range(f.shape[0]))


def element(*spec):
    """The descriptions of all degrees of freedom of an element."""
    rep = harness.Rep(max_violations=2)
    e = elements.make(spec, basis=False)
    name = elements.name(spec)
    td = e.reference.tdim
    fn = generic(e, 2 if td < 3 else 1)
    if spec[1] == "AC":
        fn = generic(e, 1)
    symbols = sorted({s for c in flat(fn) for s in sympy.sympify(c).free_symbols if s not in X}, key=str)
    seen = {}
    for i, d in enumerate(e.dofs):
        if type(d).__name__ == "BernsteinFunctional":
            bernstein(rep, name, e, i, d, seen)
            continue
        compare(rep, f"{name} dof {i}", lambda put, d=d: (d, put(fn)), symbols)
        if rep.full():
            break
    return rep.result()


def bernstein(rep, name, e, i, d, seen):
    """The coefficient named belongs to the right sub-entity and degree, and to no other degree of freedom."""
    rep.info["obligations"] += 1
    desc, notes = d.get_tex()
    dim, n = d.entity
    top = dim == e.reference.tdim
    name_of = "R" if top else "vefc"[dim] + f"_{{{n}}}"
    m = re.fullmatch(r"v\\mapsto c_\{(\d+)\}" if top else r"v\\mapsto c\^\{" + re.escape(name_of) + r"\}_\{(\d+)\}", desc)
    if not m:
        rep.violate(f"{name} dof {i} on {(dim, n)} is described as {desc}")
        return
    if (desc in seen):
        rep.violate(f"{name} dofs {seen[desc]} and {i} have the same description {desc}")
    seen[desc] = i
    sup = "" if top else "^{" + name_of + "}"
    where = "the cell" if top else f"\\({name_of}\\)"
    want = [f"\\(v=\\sum_ic{sup}_iB{sup}_i\\)",
            f"\\(B{sup}_1\\) to \\(B{sup}_n\\) are the degree {e.order} Bernstein polynomials on {where}"]
    if not top:
        want.append(f"\\({name_of}\\) is the {nth(n)} {WORDS[dim]}")
    if list(notes) != want:
        rep.violate(f"{name} dof {i}: explained by {notes} instead of {want}")


def table(d):
    return flat(d) if isinstance(d, (list, tuple)) else [d]


def functions(kind):
    """as_tex of functions with symbolic coefficients is the function."""
    rep = harness.Rep(max_violations=3)
    a = [sym(f"a{i}") for i in range(12)]
    x0, x1, x2 = X
    forms = [a[0], sympy.Integer(0), sympy.Integer(-3), a[0] + a[1] * x0, x0**2 * x1 - a[1] * x2, sympy.Rational(2, 3) * x0 - x1 / 7,
             -a[0] * x0**10 * x1**12 + a[1], sympy.sqrt(2) * x0 / 2 - sympy.sqrt(3) * x1 * a[2], (x0 + a[0]) * (x1 - a[1]) * (1 - x2),
             a[0] * t[0]**2 - t[1] * t[2], (a[0] - x0)**3, sympy.Rational(-5, 11) * a[0] * x2**3, (x0 * x1) / (1 + x2**2), a[3] * (x1 - 1) / 6]
    if kind == "scalar":
        made = [(f"scalar {f}", f, ScalarFunction) for f in forms]
        made += [(f"wrapped scalar {f}", f, lambda f: fun.Wrapped(ScalarFunction(f))) for f in forms[3:6]]
    elif kind == "vector":
        made = [(f"vector {i} {n}", tuple(forms[(i + 3 * k) % len(forms)] for k in range(n)), VectorFunction)
                for n in (1, 2, 3) for i in range(len(forms))]
    else:
        made = [(f"matrix {i} {n}x{m}", tuple(tuple(forms[(i + 3 * k + 5 * j) % len(forms)] for j in range(m)) for k in range(n)), MatrixFunction)
                for n in (1, 2, 3) for m in (1, 2, 3) for i in range(0, len(forms), 3)]
    names = sorted(a, key=str)
    for what, data, make in made:
        def replay(m, data=data, make=make):
            d = harness.at(data, m)
            s = make(d).as_tex()
            try:
                return differ(table(tex.function(s, X, (), tuple(t))), table(d))
            except tex.Unreadable as err:
                return f"{s!r}: {err}"

        try:
            got = tex.function(make(data).as_tex(), X, names, tuple(t))
        except tex.Unreadable as err:
            rep.info["obligations"] += 1
            rep.violate(f"{what}: {err}")
            continue
        if isinstance(data, tuple) and (len(got), len(got[0])) != (len(data), len(data[0]) if isinstance(data[0], tuple) else 1):
            rep.violate(f"{what}: the shape {len(got)}x{len(got[0])} is written")
            continue
        rep.equal(table(got), table(data), what, guard(replay))
    return rep.result()


PIECES = {
    1: [("Interval", [((0,), (1,)), ((1,), (3,))])],
    2: [("Triangle", [((0, 0), (1, 0), (0, 1)), ((1, 0), (0, 1), (1, 1))]),
        ("Quadrilateral", [((0, 0), (1, 0), (0, 1), (1, 1)), ((1, 0), (2, 0), (1, 1), (2, 1))])],
    3: [("Tetrahedron", [((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)), ((1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1))])],
}


def piecewise(tdim):
    """A piecewise function is written as cases: each piece with the cell it lives on."""
    rep = harness.Rep(max_violations=3)
    a = [sym(f"a{i}") for i in range(4)]
    for word, shapes in PIECES[tdim]:
        for kind in ("scalar", "vector"):
            fs = [a[0] + a[1] * X[0] / 3, a[2] * X[tdim - 1] - sympy.Rational(1, 2)]
            if kind == "vector":
                fs = [(fs[0], a[3]), (fs[1], fs[0])]
            shp = [tuple(tuple(sympy.Integer(c) for c in v) for v in s) for s in shapes]

            def make(put):
                return PiecewiseFunction({s: put(f) for s, f in zip(shp, fs)}, tdim)

            def cases(text, symbols):
                m = re.fullmatch(r"\\begin\{cases\}(.*)\\end\{cases\}", text, re.S)
                if not m:
                    raise tex.Unreadable(f"{text!r} is not a list of cases")
                rows = re.findall(r"(.*?)&\\text\{in \}\\operatorname\{(\w+)\}\((\(.*?\)\))\)(?:\\\\|\s*$)", m.group(1), re.S)
                return [(table(tex.function(f, X, symbols)), w, tuple(tuple(sympy.Integer(int(c)) for c in re.findall(r"-?\d+", v))
                                                                     for v in re.findall(r"\(([^()]*)\)", s))) for f, w, s in rows]

            def replay(m):
                got = cases(make(lambda e: harness.at(e, m)).as_tex(), ())
                return differ([c for g in got for c in g[0]], [c for f in fs for c in table(harness.at(f, m))])

            what = f"{kind} function on pieces of kind {word}"
            try:
                got = cases(make(lambda e: e).as_tex(), a)
            except tex.Unreadable as err:
                rep.violate(f"{what}: {err}")
                continue
            rep.info["obligations"] += 1
            if [g[1:] for g in got] != [(word, s) for s in shp]:
                rep.violate(f"{what}: the pieces are written as {[g[1:] for g in got]}")
                continue
            rep.equal([c for g in got for c in g[0]], [c for f in fs for c in table(f)], what, guard(replay))
    return rep.result()


def jobs(tier):
    out = []
    for k in ("scalar", "vector", "matrix"):
        out.append((f"functions {k}", functions, (k,)))
    for cell in ("triangle", "quadrilateral", "tetrahedron"):
        out.append((f"flattened {cell}", flattened, (cell,)))
    out.append(("derivatives on an interval", line, ()))
    for d in (1, 2, 3):
        out.append((f"piecewise {d}", piecewise, (d,)))
    for cell in ("interval", "triangle", "quadrilateral", "tetrahedron", "hexahedron"):
        for skew in (False, True):
            out.append((f"points {cell} {skew}", constructed, ("points", cell, skew)))
            for dim in range(1, cells.TDIM[cell] + 1):
                for n in range(len(cells.ENT[cell][dim])):
                    if tier == "quick" and cell == "hexahedron" and n % 3:
                        continue
                    if skew and dim == cells.TDIM[cell]:
                        continue
                    out.append((f"integrals {cell} {(dim, n)} {skew}", constructed, ("integrals", cell, dim, n, skew)))
    for s in elements.select(1 if tier == "quick" else 30):
        if s[1] in ("EG", "LFEG", "direct serendipity"):
            continue
        out.append((f"element {elements.name(s)}", element, s))
    return out


if __name__ == "__main__":
    runner.main(
        "C30", jobs, "other",
        "the TeX written by the real code for functions and degrees of freedom with symbolic coefficients is read by an independent "
        "reader and turned into a term; z3 refutes values that differ from what the real object computes",
        lambda tier: "descriptions of all types of degrees of freedom at all points, with all vectors and weights (polynomials of degree at "
        "most 2 in the coordinates of the entity) on the default and one skew cell; those of the elements in job_names; applied to all "
        "polynomials of degree at most 3 (1 to 2 for elements); functions: the listed shapes with all coefficients",
        ["lib/tex.py: the reader (t_i are the coordinates on the entity, normals and tangents those of the documented numbering)",
         "integrals of monomials over the reference cells by their closed formulas",
         "which coefficient of the Bernstein basis is meant by an index is not interpreted"],
        ["functionals.*.get_tex", "functionals.*.entity_definition", "functions.*.as_tex", "PiecewiseFunction.as_tex"],
        "The written form of each function and degree of freedom denotes its value for all coefficients within the bounds.",
    )
