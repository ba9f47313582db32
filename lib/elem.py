"""Shared steps of the element checks."""
import sympy

import symfem
from symfem.functions import parse_function_input
from symfem.piecewise_functions import PiecewiseFunction
from symfem.symbols import x

from . import elements, harness, spaces
from .symexec import sym

X = tuple(x)
spaces.use(X)


def tidy(e):
    """Expanded term (radical constants multiplied out)."""
    e = sympy.sympify(e)
    e = sympy.expand(e)
    return e


def combine(cs, fs):
    """sum_j cs[j] fs[j] as a symfem function, built by the real function arithmetic."""
    out = None
    for c, f in zip(cs, fs):
        g = parse_function_input(c) * f
        out = g if out is None else out + g
    return out


def as_function(gen, shape):
    """A symfem function from a tuple of components."""
    gen = [sympy.expand(g) for g in gen]
    if shape is None and len(gen) == 1:
        return parse_function_input(gen[0])
    if shape is not None and len(shape) == 2:
        r, c = shape
        return parse_function_input(tuple(tuple(gen[i * c + j] for j in range(c)) for i in range(r)))
    return parse_function_input(tuple(gen))


def generic(gens, tag="a"):
    cs = [sym(f"{tag}{i}") for i in range(len(gens))]
    return cs, tuple(sum((c * g[j] for c, g in zip(cs, gens)), sympy.Integer(0)) for j in range(len(gens[0])))


def pieces(f):
    """[(region or None, components)] of a basis function."""
    if hasattr(f, "get_function") and not isinstance(f, PiecewiseFunction):
        f = f.get_function()
    if isinstance(f, PiecewiseFunction):
        return [(cell, harness.flat(g)) for cell, g in f.pieces.items()]
    return [(None, harness.flat(f))]


def is_piecewise(e):
    return isinstance(e.get_basis_functions()[0], PiecewiseFunction)


def radical(e):
    return any(isinstance(p.exp, sympy.Rational) and p.exp.q != 1 for p in sympy.sympify(e).atoms(sympy.Pow))


def has_dofs(e):
    return hasattr(e, "dofs")


__all__ = ["symfem", "elements"]


def spaces_denominator(e, gens):
    """Does the term have a denominator that involves the variables?"""
    return any(p.exp.is_number and p.exp.is_negative and p.base.free_symbols & set(gens) for p in sympy.sympify(e).atoms(sympy.Pow))
