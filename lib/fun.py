"""Symbolic functions and an independent calculus on them."""
import itertools

import sympy

from symfem.basis_functions import BasisFunction
from symfem.symbols import t, x

from .symexec import sym

X = tuple(x)


def exponents(dim, deg):
    return [e for e in itertools.product(range(deg + 1), repeat=dim) if sum(e) <= deg]


class P:
    """A polynomial in x as {exponents: coefficient}: the oracle's own arithmetic."""

    def __init__(self, d):
        self.d = dict(d)

    @staticmethod
    def gen(tag, dim, deg):
        return P({e + (0,) * (3 - dim): sym(tag + "".join(map(str, e))) for e in exponents(dim, deg)})

    def expr(self, at=X):
        out = sympy.Integer(0)
        for e, c in self.d.items():
            m = c
            for b, k in zip(at, e):
                m = m * b**k
            out += m
        return out

    def diff(self, i):
        out = {}
        for e, c in self.d.items():
            if e[i]:
                f = list(e)
                f[i] -= 1
                out[tuple(f)] = out.get(tuple(f), 0) + c * e[i]
        return P(out)

    def __add__(self, o):
        out = dict(self.d)
        for e, c in o.d.items():
            out[e] = out.get(e, 0) + c
        return P(out)

    def scale(self, c):
        return P({e: c * v for e, v in self.d.items()})

    def __sub__(self, o):
        return self + o.scale(-1)

    def coeffs(self):
        return [c for c in self.d.values()]


class Wrapped(BasisFunction):
    """A basis function that is defined by a given function (through the public extension point)."""

    def __init__(self, f):
        super().__init__(scalar=f.is_scalar, vector=f.is_vector, matrix=f.is_matrix)
        self._inner = f

    def get_function(self):
        return self._inner

    @property
    def shape(self):
        return self._inner.shape


def vec(tag, n):
    return [sym(f"{tag}{i}") for i in range(n)]


def mat(tag, n, m):
    return [[sym(f"{tag}{i}{j}") for j in range(m)] for i in range(n)]


def atoms(e):
    """The square roots and absolute values of a term."""
    return [a for a in e.atoms(sympy.Pow, sympy.Abs)
            if isinstance(a, sympy.Abs) or (a.exp.is_Rational and a.exp.q == 2 and not a.base.is_number)]


def unify_root(e, square, root):
    """Replace the roots in e whose square is the given polynomial by one symbol (standing for the non-negative root).

    |a| with a^2 = square and (square)^(k/2) all denote powers of the same non-negative number; whether they do
    is decided on polynomials.  Other roots are left for the solver.
    """
    sub = {}
    for a in atoms(e):
        if isinstance(a, sympy.Abs):
            if sympy.expand(a.args[0]**2 - square) == 0:
                sub[a] = root
        elif sympy.expand(a.base - square) == 0:
            sub[a] = root ** (2 * a.exp)
    return e.xreplace(sub)


def cases(e):
    """[(condition, value)] of a term that may contain Piecewise, first matching condition first."""
    e = sympy.piecewise_fold(e) if e.has(sympy.Piecewise) else e
    if not isinstance(e, sympy.Piecewise):
        return [(sympy.true, e)]
    out = []
    before = sympy.true
    for v, c in e.args:
        out.append((sympy.And(before, c), v))
        before = sympy.And(before, sympy.Not(c))
    return out
