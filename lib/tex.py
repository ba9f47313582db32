"""Reads the TeX in which functions and degrees of freedom are written, as a mathematician would.

A body such as ``\\int_{e_{0}}(1 - t_{0})\\boldsymbol{v}\\cdot\\hat{\\boldsymbol{n}}_{0}`` becomes a term: it is
evaluated for a given function v on a given cell.  Anything that cannot be read raises Unreadable.
"""
import re

import sympy

from . import cells


class Unreadable(Exception):
    pass


class Fn:
    """The function that is being described (or a derivative of it): nested tuples of terms in x."""

    def __init__(self, data):
        self.data = data


class Op:
    """A differential operator waiting for the function it acts on."""

    def __init__(self, apply):
        self.apply = apply


class Mat:
    """A matrix; vectors are columns."""

    def __init__(self, m):
        self.m = sympy.Matrix(m)


def tokens(text, names=()):
    names = sorted(names, key=len, reverse=True)
    out = []
    i = 0
    pat = re.compile(r"\\\\|\\[a-zA-Z]+|\\[,;!]|\d+|.", re.S)
    while i < len(text):
        for n in names:
            if text.startswith(n, i):
                out.append(("sym", n))
                i += len(n)
                break
        else:
            m = pat.match(text, i)
            s = m.group()
            i = m.end()
            if s.isspace() or s in ("\\displaystyle", "\\,", "\\;", "\\!"):
                continue
            out.append(("num" if s.isdigit() else "tok", s))
    return out


def depth(d):
    return 1 + depth(d[0]) if isinstance(d, (tuple, list)) else 0


def dmap(f, d):
    return tuple(dmap(f, i) for i in d) if isinstance(d, (tuple, list)) else f(d)


class Reader:
    def __init__(self, text, X, T=(), fn=None, geo=None, symbols=None):
        self.symbols = symbols or {}
        self.names = {sympy.latex(s): s for s in self.symbols}
        self.text = text
        self.toks = tokens(text, self.names)
        self.i = 0
        self.X, self.T = X, T
        self.fn = fn
        self.geo = geo
        self.mentioned = set()

    # -- tokens
    def peek(self, k=0):
        return self.toks[self.i + k][1] if self.i + k < len(self.toks) else None

    def kind(self):
        return self.toks[self.i][0] if self.i < len(self.toks) else None

    def next(self):
        if self.i >= len(self.toks):
            raise Unreadable(f"{self.text!r} ends early")
        self.i += 1
        return self.toks[self.i - 1][1]

    def take(self, *want):
        for w in want:
            got = self.next()
            if got != w:
                raise Unreadable(f"{got!r} where {w!r} was expected in {self.text!r}")

    def accept(self, *want):
        if all(self.peek(k) == w for k, w in enumerate(want)):
            self.i += len(want)
            return True
        return False

    # -- grammar
    def sum(self):
        sign = 1
        if self.accept("-"):
            sign = -1
        elif self.accept("+"):
            pass
        out = self.scale(self.dots(), sign)
        while self.peek() in ("+", "-"):
            s = 1 if self.next() == "+" else -1
            out = self.add(out, self.scale(self.dots(), s))
        return out

    def dots(self):
        out = self.product()
        while self.peek() in ("\\cdot", ":"):
            op = self.next()
            out = self.dot(out, self.product(), op)
        return out

    STOP = ("+", "-", "\\cdot", ":", ")", "\\right", "}", ",", "&", "\\\\", "|", None, "\\end")

    def product(self):
        items = [self.factor()]
        while (self.peek() not in self.STOP) or (self.peek() == "|" and self.peek(1) == "{"):
            items.append(self.factor())
        return items[0] if len(items) == 1 else Product(items).value(self)

    def group(self):
        self.take("{")
        out = self.sum()
        self.take("}")
        return out

    def factor(self):
        base = self.atom()
        while True:
            if self.peek() == "^":
                self.next()
                if self.accept("{", "\\text", "{", "t", "}", "}"):
                    if not isinstance(base, Mat):
                        raise Unreadable(f"transpose of something that is not a vector in {self.text!r}")
                    base = Mat(base.m.T)
                    continue
                if self.peek() == "{":
                    e = self.group()
                else:
                    e = sympy.Integer(int(self.next()))
                if not isinstance(base, sympy.Expr) or not isinstance(e, sympy.Expr):
                    raise Unreadable(f"power in {self.text!r}")
                base = base**e
            else:
                return base

    def atom(self):
        if self.kind() == "num":
            s = self.next()
            if self.peek() == "." and self.i + 1 < len(self.toks) and self.toks[self.i + 1][0] == "num":
                self.next()
                return sympy.Rational(s + "." + self.next())
            return sympy.Integer(int(s))
        if self.kind() == "sym":
            return self.names[self.next()]
        t = self.next()
        if t in ("x", "y", "z"):
            return self.X["xyz".index(t)]
        if t == "t":
            self.take("_")
            i = self.index()
            return self.T[i]
        if t in ("\\frac", "\\tfrac", "\\dfrac"):
            return self.fraction()
        if t == "\\sqrt":
            if self.accept("["):
                n = int(self.next())
                self.take("]")
                return self.group() ** sympy.Rational(1, n)
            return sympy.sqrt(self.group())
        if t == "\\left":
            self.take("(")
            if self.peek() == "\\begin":
                out = self.array()
            else:
                out = self.sum()
            self.take("\\right", ")")
            return out
        if t == "(":
            first = self.sum()
            self.take(")")
            return first
        if t == "{":
            out = self.sum()
            self.take("}")
            return out
        if self.fn is not None:
            return self.functional_atom(t)
        raise Unreadable(f"{t!r} in {self.text!r}")

    def index(self):
        if self.accept("{"):
            i = int(self.next())
            self.take("}")
            return i
        return int(self.next())

    def array(self):
        self.take("\\begin", "{", "a", "r", "r", "a", "y", "}", "{")
        cols = 0
        while self.accept("c"):
            cols += 1
        self.take("}")
        rows = [[self.sum()]]
        while self.peek() in ("&", "\\\\"):
            if self.next() == "&":
                rows[-1].append(self.sum())
            else:
                rows.append([self.sum()])
        self.take("\\end", "{", "a", "r", "r", "a", "y", "}")
        if any(len(r) != cols for r in rows):
            raise Unreadable(f"array with rows of {[len(r) for r in rows]} entries and {cols} columns")
        return Mat(rows)

    # -- algebra
    def scale(self, a, s):
        if s == 1:
            return a
        return Mat(-a.m) if isinstance(a, Mat) else -a

    def add(self, a, b):
        if isinstance(a, Mat) and isinstance(b, Mat):
            return Mat(a.m + b.m)
        if isinstance(a, sympy.Expr) and isinstance(b, sympy.Expr):
            return a + b
        raise Unreadable(f"sum of different things in {self.text!r}")

    def plain(self, a):
        """A function as the matrix, column or term of its values."""
        if not isinstance(a, Fn):
            return a
        d = depth(a.data)
        if d == 0:
            return a.data
        return Mat([[i] for i in a.data]) if d == 1 else Mat([list(r) for r in a.data])

    def frobenius(self, a, b):
        if a.m.shape != b.m.shape:
            # a matrix-valued function whose values are listed row by row
            if a.m.cols == 1 and a.m.rows == b.m.rows * b.m.cols:
                a = Mat(a.m.reshape(*b.m.shape))
            elif b.m.cols == 1 and b.m.rows == a.m.rows * a.m.cols:
                b = Mat(b.m.reshape(*a.m.shape))
            else:
                raise Unreadable(f"product of shapes {a.m.shape} and {b.m.shape} in {self.text!r}")
        return sum((p * q for p, q in zip(a.m, b.m)), sympy.Integer(0))

    def dot(self, a, b, op):
        a, b = self.plain(a), self.plain(b)
        if isinstance(a, Mat) and isinstance(b, Mat):
            return self.frobenius(a, b)
        if isinstance(a, sympy.Expr) and isinstance(b, sympy.Expr) and op == "\\cdot":
            return a * b
        raise Unreadable(f"{op} of different things in {self.text!r}")

    def times(self, a, b):
        a, b = self.plain(a), self.plain(b)
        if isinstance(a, sympy.Expr) and isinstance(b, sympy.Expr):
            return a * b
        if isinstance(a, sympy.Expr):
            return Mat(a * b.m)
        if isinstance(b, sympy.Expr):
            return Mat(a.m * b)
        if a.m.shape == b.m.shape and a.m.rows > 1:
            return self.frobenius(a, b)
        if a.m.cols != b.m.rows:
            raise Unreadable(f"product of shapes {a.m.shape} and {b.m.shape} in {self.text!r}")
        p = a.m * b.m
        return p[0, 0] if p.shape == (1, 1) else Mat(p)

    # -- the function, operators on it, and the geometry of the cell
    def functional_atom(self, t):
        X = self.X
        n = self.geo.gdim
        if t in ("v", "V") or t in ("\\boldsymbol", "\\mathbf"):
            if t in ("\\boldsymbol", "\\mathbf"):
                self.take("{")
                if self.next() not in ("v", "V"):
                    raise Unreadable(f"unknown name in {self.text!r}")
                self.take("}")
            f = Fn(self.fn)
            order = 0
            while self.accept("'"):
                order += 1
            if self.accept("^", "{", "("):
                order = int(self.next())
                self.take(")", "}")
            if order and n != 1:
                raise Unreadable(f"primes on a function of {n} variables in {self.text!r}")
            for _ in range(order):
                f = Fn(dmap(lambda e: e.diff(X[0]), f.data))
            return self.single_point(f)
        if t == "\\nabla":
            if self.accept("\\cdot"):
                def div(f):
                    if depth(f.data) != 1:
                        raise Unreadable(f"divergence of something that is not a vector in {self.text!r}")
                    return Fn(sum((c.diff(v) for c, v in zip(f.data, X)), sympy.Integer(0)))

                return self.operated(Op(div))

            def grad(f):
                if depth(f.data) != 0:
                    raise Unreadable(f"gradient of something that is not a scalar in {self.text!r}")
                return Fn(tuple(f.data.diff(v) for v in X[:n]))

            return self.operated(Op(grad))
        if t == "\\hat":
            self.take("{", "\\boldsymbol", "{")
            w = self.next()
            self.take("}", "}")
            tr = self.accept("^", "{", "\\text", "{", "t", "}", "}")
            self.take("_")
            i = self.index()
            self.mentioned.add((w, i))
            if w == "n":
                v = self.geo.normal(i)
            elif w == "t":
                v = self.geo.tangent(i)
            else:
                raise Unreadable(f"unknown direction {w!r} in {self.text!r}")
            m = Mat([[c] for c in v])
            return Mat(m.m.T) if tr else m
        if t == "|":
            self.take("{")
            e = self.entity()
            self.take("}", "|")
            return self.geo.measure(e)
        raise Unreadable(f"{t!r} in {self.text!r}")

    def entity(self):
        """R or v_{i}, e_{i}, f_{i}, c_{i}."""
        t = self.next()
        if t == "R":
            e = (self.geo.tdim, 0)
            self.mentioned.add(("R",))
            return e
        if t not in "vefc":
            raise Unreadable(f"unknown entity {t!r} in {self.text!r}")
        self.take("_")
        i = self.index()
        self.mentioned.add((t, i))
        return ("vefc".index(t), i)

    def single_point(self, f):
        """A point in brackets directly after the function."""
        if self.peek() != "(":
            return f
        self.next()
        pt = [self.sum()]
        while self.accept(","):
            pt.append(self.sum())
        self.take(")")
        if len(pt) != self.geo.gdim:
            raise Unreadable(f"a point with {len(pt)} coordinates in {self.text!r}")
        sub = dict(zip(self.X, pt))
        return Fn(dmap(lambda e: sympy.sympify(e).subs(sub, simultaneous=True), f.data))

    def operated(self, op):
        """An operator followed by the function and, possibly, the point at which the derivative is taken."""
        ops = [op]
        while self.peek() == "\\frac" and self.peek(2) == "\\partial":
            self.next()
            apply, inside = self.derivative()
            if inside:
                raise Unreadable(f"two derivatives of one function in {self.text!r}")
            ops.append(Op(apply))
        braces = self.accept("{")
        t = self.next()
        if t in ("\\boldsymbol", "\\mathbf"):
            self.take("{")
            t = self.next()
            self.take("}")
        if t not in ("v", "V"):
            raise Unreadable(f"a derivative of {t!r} in {self.text!r}")
        if braces:
            self.take("}")
        f = Fn(self.fn)
        for o in reversed(ops):
            f = o.apply(f)
        return self.single_point(f)

    def fraction(self):
        if self.peek() == "{" and self.peek(1) == "\\partial":
            apply, inside = self.derivative()
            return self.single_point(apply(Fn(self.fn))) if inside else self.operated(Op(apply))
        a = self.group()
        b = self.group()
        if not isinstance(a, sympy.Expr) or not isinstance(b, sympy.Expr):
            raise Unreadable(f"fraction of vectors in {self.text!r}")
        return a / b

    def derivative(self):
        """\\frac{\\partial^{n}[v]}{\\partial a^{i}\\partial b^{j}...}"""
        self.take("{", "\\partial")
        order = 1
        if self.accept("^"):
            order = self.index()
        inside = False
        if self.peek() != "}":
            if self.next() not in ("v", "V"):
                raise Unreadable(f"derivative of an unknown function in {self.text!r}")
            inside = True
        self.take("}", "{")
        steps = []
        while self.accept("\\partial"):
            if self.peek() in ("x", "y", "z"):
                i = "xyz".index(self.next())
                if i >= self.geo.gdim:
                    raise Unreadable(f"derivative in a direction that does not exist in {self.text!r}")
                d = [sympy.Integer(int(i == j)) for j in range(self.geo.gdim)]
            else:
                a = self.atom()
                if not isinstance(a, Mat) or a.m.cols != 1 or a.m.rows != self.geo.gdim:
                    raise Unreadable(f"derivative in an unknown direction in {self.text!r}")
                d = list(a.m)
            k = 1
            if self.accept("^"):
                k = self.index()
            steps += [d] * k
        self.take("}")
        if len(steps) != order:
            raise Unreadable(f"derivative of order {order} with {len(steps)} directions in {self.text!r}")

        def apply(f):
            data = f.data
            for d in steps:
                data = dmap(lambda e, d=d: sum((c * e.diff(v) for c, v in zip(d, self.X)), sympy.Integer(0)), data)
            return Fn(data)

        return apply, inside

    def whole(self):
        out = self.sum()
        if self.i != len(self.toks):
            raise Unreadable(f"{self.peek()!r} is left over in {self.text!r}")
        return self.plain(out)


class Product:
    def __init__(self, parts):
        self.parts = parts

    def value(self, reader):
        # a row or scalar first: products are associative, so any order will do; scalars are moved out
        parts = [reader.plain(p) for p in self.parts]
        scal = sympy.Integer(1)
        rest = []
        for p in parts:
            if isinstance(p, sympy.Expr):
                scal = scal * p
            elif isinstance(p, Mat):
                rest.append(p)
            else:
                raise Unreadable(f"unexpected factor in {reader.text!r}")
        if not rest:
            return scal
        out = rest[0]
        for p in rest[1:]:
            out = reader.times(out, p)
        return reader.times(scal, out)


class Geo:
    """Geometry of a cell of the given kind with the given vertices."""

    def __init__(self, cell, vertices=None):
        self.cell = cell
        self.vertices = vertices or cells.DEFAULT[cell]
        self.tdim = cells.TDIM[cell]
        self.gdim = len(self.vertices[0])

    def entity(self, e):
        if e[0] >= len(cells.ENT[self.cell]) + 1 or (e[0] < self.tdim and e[1] >= len(cells.ENT[self.cell][e[0]])):
            raise Unreadable(f"there is no entity {e} of a {self.cell}")
        if e[0] == self.tdim:
            vs = self.vertices
            p = [tuple(sympy.sympify(c) for c in v) for v in vs]
            ends = {"interval": (1,), "triangle": (1, 2), "quadrilateral": (1, 2), "tetrahedron": (1, 2, 3),
                    "hexahedron": (1, 2, 4), "prism": (1, 2, 3), "pyramid": (1, 2, 4)}[self.cell]
            return self.cell, p[0], [tuple(b - a for a, b in zip(p[0], p[k])) for k in ends]
        return cells.entity(self.cell, e[0], e[1], self.vertices)

    def measure(self, e):
        kind, o, axes = self.entity(e)
        return cells.VOLUME[kind] * sympy.sqrt(cells.gram(axes))

    def tangent(self, i):
        a = self.entity((1, i))[2][0]
        n = sympy.sqrt(sum(c**2 for c in a))
        return tuple(c / n for c in a)

    def normal(self, i):
        axes = self.entity((self.tdim - 1, i))[2]
        if len(axes) == 1:
            v = (-axes[0][1], axes[0][0])
        else:
            a, b = axes
            v = (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])
        n = sympy.sqrt(sum(c**2 for c in v))
        return tuple(c / n for c in v)


def functional(text, fn, geo, X, T, integral, symbols=()):
    """The value of the functional written in text for the function fn, and what the text mentions.

    integral(entity, term in X and T) integrates over an entity, T being its own coordinates."""
    head, sep, body = text.partition("\\mapsto")
    if not sep or head.strip() not in ("v", "\\boldsymbol{v}", "\\mathbf{v}", "\\mathbf{V}", "\\boldsymbol{V}"):
        raise Unreadable(f"{text!r} does not say what it acts on")
    before, sep, after = body.partition("\\int_")
    factor = sympy.Integer(1)
    if not sep:
        r = Reader(body, X, (), fn, geo, symbols)
        return r.whole(), r.mentioned
    if before.replace("\\displaystyle", "").strip():
        factor = Reader(before, X, (), None, geo, symbols).whole()
    r = Reader(after, X, T, fn, geo, symbols)
    r.take("{")
    e = r.entity()
    r.take("}")
    val = r.whole()
    if not isinstance(val, sympy.Expr) or not isinstance(factor, sympy.Expr):
        raise Unreadable(f"{text!r} is not scalar")
    return factor * integral(geo.entity(e), val), r.mentioned


def function(text, X, symbols=(), T=()):
    """The value written in a TeX expression, as nested lists."""
    v = Reader(text, X, T, None, None, symbols).whole()
    if isinstance(v, Mat):
        return [list(v.m.row(i)) for i in range(v.m.rows)]
    return v
