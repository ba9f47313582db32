"""C09: function arithmetic is pointwise arithmetic."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.realpath(__file__))))
from lib import boot, harness, runner, smt  # noqa: E402,F401
from lib import fun  # noqa: E402

import sympy  # noqa: E402

from symfem.functions import (MatrixFunction, ScalarFunction, VectorFunction,  # noqa: E402
                              parse_function_input, parse_function_list_input)
from symfem.symbols import x  # noqa: E402

flat, differ, guard, at = harness.flat, harness.differ, harness.guard, harness.at
X = fun.X


class V:
    """Operand: a table of terms (scalar: one entry; vector: list; matrix: list of lists) plus the
    form in which it is handed to the real code."""

    def __init__(self, kind, data, form):
        self.kind, self.data, self.form = kind, data, form

    def real(self, sub=None):
        d = self.data if sub is None else deep(lambda e: e.subs(sub), self.data)
        if self.form == "plain":
            if self.kind == "s":
                return d
            if self.kind == "v":
                return tuple(d)
            return tuple(tuple(r) for r in d)
        if self.form == "list":
            return d
        if self.form == "sympy":
            return sympy.Matrix(d)
        if self.form == "int":
            return int(d)
        f = {"s": ScalarFunction, "v": VectorFunction, "m": MatrixFunction}[self.kind](d)
        if self.form == "basis":
            return fun.Wrapped(f)
        if self.form == "subbed":
            # substitution that changes nothing: z does not occur in the entries
            return fun.Wrapped(f).subs((x[2],), (x[0],))
        return f

    def shape(self):
        if self.kind == "v":
            return (len(self.data),)
        if self.kind == "m":
            return (len(self.data), len(self.data[0]))
        return ()


def deep(f, d):
    if isinstance(d, (list, tuple)):
        return [deep(f, i) for i in d]
    return f(sympy.sympify(d))


def zipw(f, a, b):
    if isinstance(a, (list, tuple)):
        return [zipw(f, i, j) for i, j in zip(a, b)]
    return f(a, b)


def scal(tag):
    # a value that also depends on the point
    return harness.sym(tag) + harness.sym(tag + "x") * X[0]


def scalar(tag, form="fun"):
    return V("s", scal(tag), form)


def vector(tag, n, form="fun"):
    return V("v", [scal(f"{tag}{i}") for i in range(n)], form)


def matrix(tag, n, m, form="fun"):
    return V("m", [[scal(f"{tag}{i}{j}") for j in range(m)] for i in range(n)], form)


def ob(rep, name, op, oracle, *ops, kind=None):
    """op on the real operands equals oracle on the tables."""
    def replay(vals):
        subbed = [o.real(vals) for o in ops]
        want = flat(deep(lambda e: e.subs(vals), oracle(*[o.data for o in ops])))
        got = op(*subbed)
        return shape_of(got, kind) or differ([sympy.sympify(i).subs(vals) for i in flat(got)], want)

    what = f"{name} on {[(o.kind, o.form, o.shape()) for o in ops]}"
    try:
        got = op(*[o.real() for o in ops])
    except Exception as e:  # noqa: BLE001
        rep.info["obligations"] += 1
        rep.violate(f"{what} raised {type(e).__name__}: {e}", {"operands": [o.data for o in ops]})
        return
    bad = shape_of(got, kind)
    if bad:
        rep.info["obligations"] += 1
        rep.violate(f"{what}: {bad}")
        return
    want = flat(oracle(*[o.data for o in ops]))
    ctx = smt.Ctx()
    rep.equal(flat(got), want, what, guard(replay), ctx)


def shape_of(got, kind):
    if kind is None:
        return None
    ok = {"s": lambda g: g.is_scalar, "v": lambda g: g.is_vector, "m": lambda g: g.is_matrix}[kind[0]](got)
    if not ok:
        return f"result {type(got).__name__} is not of kind {kind[0]}"
    if len(kind) > 1 and tuple(got.shape) != tuple(kind[1:]):
        return f"result has shape {got.shape}, not {tuple(kind[1:])}"
    return None


FF = ["fun", "basis", "subbed"]


def dotv(a, b):
    return sum(p * q for p, q in zip(a, b))


def matmul(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(len(b))) for j in range(len(b[0]))] for i in range(len(a))]


def cross(a, b):
    if len(a) == 2:
        return a[0] * b[1] - a[1] * b[0]
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def det(m):
    if len(m) == 1:
        return m[0][0]
    return sum((-1) ** j * m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]]) for j in range(len(m)))


def scalars():
    rep = harness.Rep()
    pairs = [(f, g) for f in FF for g in FF + ["plain"]] + [("plain", g) for g in FF]
    for f, g in pairs:
        a, b = scalar("a", f), scalar("b", g)
        ob(rep, "+", lambda p, q: p + q, lambda p, q: p + q, a, b, kind="s")
        ob(rep, "-", lambda p, q: p - q, lambda p, q: p - q, a, b, kind="s")
        ob(rep, "*", lambda p, q: p * q, lambda p, q: p * q, a, b, kind="s")
        ob(rep, "/", lambda p, q: p / q, lambda p, q: p / q, a, b, kind="s")
        if f != "plain":
            ob(rep, "dot", lambda p, q: p.dot(q), lambda p, q: p * q, a, b, kind="s")
    for f in FF:
        a, k = scalar("a", f), V("s", sympy.Integer(3), "int")
        ob(rep, "+int", lambda p, q: p + q, lambda p, q: p + q, a, k, kind="s")
        ob(rep, "int-", lambda p, q: q - p, lambda p, q: q - p, a, k, kind="s")
        ob(rep, "-int", lambda p, q: p - q, lambda p, q: p - q, a, k, kind="s")
        ob(rep, "int*", lambda p, q: q * p, lambda p, q: p * q, a, k, kind="s")
        ob(rep, "int/", lambda p, q: q / p, lambda p, q: q / p, a, k, kind="s")
        ob(rep, "/int", lambda p, q: p / q, lambda p, q: p / q, a, k, kind="s")
        ob(rep, "neg", lambda p: -p, lambda p: -p, a, kind="s")
        for n in range(0, 5):
            ob(rep, f"**{n}", lambda p, n=n: p**n, lambda p, n=n: sympy.prod([p] * n), a, kind="s")
        for n in (1, 2):
            ob(rep, f"**-{n}", lambda p, n=n: p**-n, lambda p, n=n: 1 / sympy.prod([p] * n), a, kind="s")
        ob(rep, "norm", lambda p: p.norm() ** 2, lambda p: p * p, a, kind="s")
    nn = ScalarFunction(scal("a")).norm()
    c = smt.Ctx()
    v = c.real(nn.as_sympy())
    rep.never(c, v < 0, list(c.vars), "norm is negative",
              lambda vals: "negative" if nn.as_sympy().subs(vals) < 0 else None)
    return rep.result()


def vectors(n):
    rep = harness.Rep()
    for f, g in itertools.product(FF, FF):
        a, b = vector("a", n, f), vector("b", n, g)
        ob(rep, "+", lambda p, q: p + q, lambda p, q: zipw(lambda i, j: i + j, p, q), a, b, kind=("v", n))
        ob(rep, "-", lambda p, q: p - q, lambda p, q: zipw(lambda i, j: i - j, p, q), a, b, kind=("v", n))
        ob(rep, "dot", lambda p, q: p.dot(q), dotv, a, b, kind="s")
        if n > 1:
            ob(rep, "cross", lambda p, q: p.cross(q), cross, a, b, kind="s" if n == 2 else ("v", 3))
    for f in FF:
        a = vector("a", n, f)
        for g in ["plain", "list"]:
            b = vector("b", n, g)
            ob(rep, "+seq", lambda p, q: p + q, lambda p, q: zipw(lambda i, j: i + j, p, q), a, b, kind=("v", n))
            ob(rep, "seq+", lambda p, q: q + p, lambda p, q: zipw(lambda i, j: i + j, p, q), a, b, kind=("v", n))
            ob(rep, "-seq", lambda p, q: p - q, lambda p, q: zipw(lambda i, j: i - j, p, q), a, b, kind=("v", n))
            ob(rep, "seq-", lambda p, q: q - p, lambda p, q: zipw(lambda i, j: j - i, p, q), a, b, kind=("v", n))
            ob(rep, "dot seq", lambda p, q: p.dot(q), dotv, a, b, kind="s")
            if n > 1:
                ob(rep, "cross seq", lambda p, q: p.cross(q), cross, a, b, kind="s" if n == 2 else ("v", 3))
        for g in FF + ["plain"]:
            s = scalar("s", g)
            ob(rep, "*s", lambda p, q: p * q, lambda p, q: [i * q for i in p], a, s, kind=("v", n))
            ob(rep, "s*", lambda p, q: q * p, lambda p, q: [i * q for i in p], a, s, kind=("v", n))
            ob(rep, "/s", lambda p, q: p / q, lambda p, q: [i / q for i in p], a, s, kind=("v", n))
        k = V("s", sympy.Integer(-3), "int")
        ob(rep, "*int", lambda p, q: p * q, lambda p, q: [i * q for i in p], a, k, kind=("v", n))
        ob(rep, "int*", lambda p, q: q * p, lambda p, q: [i * q for i in p], a, k, kind=("v", n))
        ob(rep, "/int", lambda p, q: p / q, lambda p, q: [i / q for i in p], a, k, kind=("v", n))
        ob(rep, "neg", lambda p: -p, lambda p: [-i for i in p], a, kind=("v", n))
        ob(rep, "**2", lambda p: p**2, lambda p: [i * i for i in p], a, kind=("v", n))
        ob(rep, "norm", lambda p: p.norm(), lambda p: sympy.sqrt(dotv(p, p)), a, kind="s")
        ob(rep, "list", lambda p: [i for i in p], lambda p: p, a)
        ob(rep, "nested iteration", lambda p: [i * j for i in p for j in p], lambda p: [i * j for i in p for j in p], a)
        for i in range(-n, n):
            ob(rep, f"[{i}]", lambda p, i=i: p[i], lambda p, i=i: p[i], a, kind="s")
        for i in range(n):
            for j in range(i, n + 1):
                ob(rep, f"[{i}:{j}]", lambda p, i=i, j=j: p[i:j], lambda p, i=i, j=j: p[i:j], a, kind="v")
        ob(rep, "[::-1]", lambda p: p[::-1], lambda p: p[::-1], a, kind=("v", n))
        if len(a.real()) != n:
            rep.violate("len")
        for m in range(1, 4):
            for g in FF:
                M = matrix("m", n, m, g)
                ob(rep, "v@M", lambda p, q: p @ q,
                   lambda p, q: [sum(p[i] * q[i][j] for i in range(n)) for j in range(m)], a, M, kind=("v", m))
                M = matrix("m", m, n, g)
                ob(rep, "M@v", lambda p, q: q @ p,
                   lambda p, q: [sum(p[i] * q[j][i] for i in range(n)) for j in range(m)], a, M, kind=("v", m))
    return rep.result()


def matrices(n, m):
    rep = harness.Rep()
    sh = ("m", n, m)
    for f, g in itertools.product(FF, FF):
        a, b = matrix("a", n, m, f), matrix("b", n, m, g)
        ob(rep, "+", lambda p, q: p + q, lambda p, q: zipw(lambda i, j: i + j, p, q), a, b, kind=sh)
        ob(rep, "-", lambda p, q: p - q, lambda p, q: zipw(lambda i, j: i - j, p, q), a, b, kind=sh)
        ob(rep, "dot", lambda p, q: p.dot(q),
           lambda p, q: sum(i * j for r, s in zip(p, q) for i, j in zip(r, s)), a, b, kind="s")
    for f in FF:
        a = matrix("a", n, m, f)
        for g in ["plain", "list", "sympy"]:
            b = matrix("b", n, m, g)
            ob(rep, "+seq", lambda p, q: p + q, lambda p, q: zipw(lambda i, j: i + j, p, q), a, b, kind=sh)
            ob(rep, "-seq", lambda p, q: p - q, lambda p, q: zipw(lambda i, j: i - j, p, q), a, b, kind=sh)
            if g != "sympy":
                ob(rep, "seq+", lambda p, q: q + p, lambda p, q: zipw(lambda i, j: i + j, p, q), a, b, kind=sh)
                ob(rep, "seq-", lambda p, q: q - p, lambda p, q: zipw(lambda i, j: j - i, p, q), a, b, kind=sh)
            else:
                # sympy matrices do not hand their left operand over, so use the reflected operators directly
                ob(rep, "radd", lambda p, q: p.__radd__(q), lambda p, q: zipw(lambda i, j: i + j, p, q), a, b, kind=sh)
                ob(rep, "rsub", lambda p, q: p.__rsub__(q), lambda p, q: zipw(lambda i, j: j - i, p, q), a, b, kind=sh)
        for g in FF + ["plain"]:
            s = scalar("s", g)
            ob(rep, "*s", lambda p, q: p * q, lambda p, q: [[i * q for i in r] for r in p], a, s, kind=sh)
            ob(rep, "s*", lambda p, q: q * p, lambda p, q: [[i * q for i in r] for r in p], a, s, kind=sh)
            ob(rep, "/s", lambda p, q: p / q, lambda p, q: [[i / q for i in r] for r in p], a, s, kind=sh)
        k = V("s", sympy.Integer(5), "int")
        ob(rep, "*int", lambda p, q: p * q, lambda p, q: [[i * q for i in r] for r in p], a, k, kind=sh)
        ob(rep, "int*", lambda p, q: q * p, lambda p, q: [[i * q for i in r] for r in p], a, k, kind=sh)
        ob(rep, "/int", lambda p, q: p / q, lambda p, q: [[i / q for i in r] for r in p], a, k, kind=sh)
        ob(rep, "neg", lambda p: -p, lambda p: [[-i for i in r] for r in p], a, kind=sh)
        ob(rep, "**2", lambda p: p**2, lambda p: [[i * i for i in r] for r in p], a, kind=sh)
        ob(rep, "transpose", lambda p: p.transpose(), lambda p: [list(c) for c in zip(*p)], a, kind=("m", m, n))
        for i in range(n):
            ob(rep, f"[{i}]", lambda p, i=i: p[i], lambda p, i=i: p[i], a, kind=("v", m))
            for j in range(m):
                ob(rep, f"[{i},{j}]", lambda p, i=i, j=j: p[i, j], lambda p, i=i, j=j: p[i][j], a, kind="s")
        if n == m:
            ob(rep, "det", lambda p: p.det(), det, a, kind="s")
        elif (n, m) == (3, 2):
            ob(rep, "det", lambda p: p.det(), lambda p: sympy.sqrt(dotv(*[cross(*[list(c) for c in zip(*p)])] * 2)), a, kind="s")
        for r in range(1, 4):
            for g in FF:
                b = matrix("b", m, r, g)
                ob(rep, "@", lambda p, q: p @ q, matmul, a, b, kind=("m", n, r))
    a = matrix("a", n, m)
    for i in range(n):
        ob(rep, f"row {i}", lambda p, i=i: p.row(i), lambda p, i=i: p[i], a, kind=("v", m))
    for j in range(m):
        ob(rep, f"col {j}", lambda p, j=j: p.col(j), lambda p, j=j: [r[j] for r in p], a, kind=("v", n))
    return rep.result()


def inputs():
    """Every accepted form of input becomes the function it denotes."""
    rep = harness.Rep()
    for form in ["plain", "fun"]:
        ob(rep, "parse", parse_function_input, lambda p: p, scalar("a", form), kind="s")
    ob(rep, "parse int", parse_function_input, lambda p: p, V("s", sympy.Integer(4), "int"), kind="s")
    for n in range(1, 4):
        for form in ["plain", "list", "fun"]:
            ob(rep, "parse", parse_function_input, lambda p: p, vector("a", n, form), kind=("v", n))
            for m in range(1, 4):
                ob(rep, "parse", parse_function_input, lambda p: p, matrix("a", n, m, form), kind=("m", n, m))
    ob(rep, "parse list", lambda a, b: parse_function_list_input([a, b]), lambda a, b: [a, b],
       scalar("a", "plain"), vector("b", 2, "plain"))
    for n in range(1, 4):
        ob(rep, "vector of functions", lambda *p: VectorFunction(list(p)), lambda *p: list(p),
           *[scalar(f"a{i}", FF[i % 2]) for i in range(n)], kind=("v", n))
        ob(rep, "matrix of functions", lambda *p: MatrixFunction([list(p), list(p[::-1])]),
           lambda *p: [list(p), list(p[::-1])], *[scalar(f"a{i}", FF[i % 2]) for i in range(n)], kind=("m", 2, n))
        for m in range(1, 4):
            ob(rep, "from sympy matrix", lambda p: MatrixFunction(p), lambda p: p, matrix("a", n, m, "sympy"), kind=("m", n, m))
    # floating point version of functions with dyadic coefficients is exactly the function
    p = (sympy.Rational(3, 4) + sympy.Rational(5, 8) * X[0] - 2 * X[0] * X[1] + X[1]**3 / 2 - sympy.Rational(1, 4) * X[2]
         + X[0]**2 * X[1] * X[2])
    q = 7 - X[0] / 16 + X[2]**2
    for f in [ScalarFunction(p), VectorFunction([p, q, p * 2]), MatrixFunction([[p, q], [q, p], [p, p]]),
              fun.Wrapped(ScalarFunction(p)), fun.Wrapped(VectorFunction([q, p]))]:
        g = f.with_floats()
        rep.equal(flat(g), flat(f), "with_floats", guard(
            lambda vals, f=f: differ([e.subs(vals) for e in flat(f.with_floats())], [e.subs(vals) for e in flat(f)])))
        if not any(e.has(sympy.Float) for e in flat(g)):
            rep.violate("with_floats returns no floats")
    return rep.result()


def powers():
    """Powers whose exponent is written as a function or as a sympy number; comparisons of scalars."""
    rep = harness.Rep()
    bases = [(scalar("a", f), "s") for f in FF] + [(vector("a", 2, f), ("v", 2)) for f in FF] \
        + [(matrix("a", 2, 3, f), ("m", 2, 3)) for f in FF]
    for a, kind in bases:
        for n in (-1, 0, 1, 2, 3):
            def want(p, n=n):
                return deep(lambda e: sympy.prod([e] * n) if n >= 0 else 1 / e, p)

            ob(rep, f"** sympy {n}", lambda p, n=n: p ** sympy.Integer(n), want, a, kind=kind)
            for form in FF if kind == "s" else FF[:1]:
                k = V("s", sympy.Integer(n), form)
                ob(rep, f"** function {n}", lambda p, q: p ** q, lambda p, q, n=n: want(p), a, k, kind=kind)
    for n in (0, 1, 3):
        k = V("s", sympy.Integer(n), "fun")
        ob(rep, "plain ** function", lambda p, q: p ** q, lambda p, q, n=n: p**n, scalar("a", "plain"), k, kind="s")
    orders = {"<": lambda p, q: p < q, "<=": lambda p, q: p <= q, ">": lambda p, q: p > q, ">=": lambda p, q: p >= q}
    for name, op in orders.items():
        for form in ["fun", "subbed"]:
            for other in ["plain", "int"]:
                a = scalar("a", form)
                b = scalar("b", "plain") if other == "plain" else V("s", sympy.Integer(2), "int")
                what = f"comparison {name} of {form} and {other}"
                try:
                    got = op(a.real(), b.real())
                except TypeError:
                    rep.info["obligations"] += 1
                    if form == "fun":
                        rep.violate(f"{what} is refused")
                    continue
                c = smt.Ctx()
                z = c.bool(op(a.data, b.data))
                rep.never(c, c.bool(got) != z, list(c.vars), what, guard(
                    lambda m, a=a, b=b, op=op: None if bool(op(a.real(m), b.real(m)).subs(m)) == bool(op(a.data.subs(m), b.data.subs(m)))
                    else f"{a.data.subs(m)} and {b.data.subs(m)}"))
    return rep.result()


def jobs(tier):
    out = [("scalars", scalars, ()), ("powers", powers, ()), ("inputs", inputs, ())]
    for n in range(1, 4):
        out.append((f"vectors {n}", vectors, (n,)))
        for m in range(1, 4):
            out.append((f"matrices {n}x{m}", matrices, (n, m)))
    return out


if __name__ == "__main__":
    runner.main(
        "C09", jobs, "other",
        "symbolic execution of the real operators on functions with symbolic entries; z3 (QF_NRA) refutes every difference",
        "scalars, vectors of length 1-3, matrices of every shape up to 3x3; entries a+b*x with a, b, x unbounded reals; "
        "operands given as functions, basis functions, substituted basis functions, numbers, lists, tuples, sympy matrices; powers -2..4",
        ["entries stand for the values of arbitrary functions: operators act on entries", "sympy builds the terms (trusted)"],
        ["ScalarFunction/VectorFunction/MatrixFunction/BasisFunction operators, dot, cross, norm, det, transpose, indexing",
         "parse_function_input", "with_floats"],
        "Each operator is run on operands whose entries are symbolic; z3 shows that every entry of the result equals the "
        "entrywise definition for all values.")
