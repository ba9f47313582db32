"""Translation of the sympy terms produced by the real code into z3, and proof obligations over them.

A term is translated to a fraction  num/den  of z3 reals (den is kept as a factor multiset so that
equal denominators are shared), square roots become fresh non-negative reals with a defining
equation, |a|, max, min and relationals are translated to their definitions.  An obligation is the
conjunction of the side conditions (non-zero denominators, defining equations), the stated
assumptions and the negated property.  `unsat` discharges it, `sat` yields a model that is replayed
on the real code, `unknown` is inconclusive and makes the check fail with an error exit.
"""
import time
from fractions import Fraction

import sympy
import z3
from sympy.core.function import AppliedUndef
from sympy.core.relational import Relational

STATS = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "solver_s": 0.0, "reach": 0}


class RealCodeFailure(Exception):
    """The real code raised an exception on concrete, valid input."""

    def __init__(self, what, key=None):
        super().__init__(what)
        self.key = key


class Inconclusive(Exception):
    """z3 answered unknown, or the term lies outside the translated fragment."""


def frac(q):
    return Fraction(int(q.p), int(q.q))


def zrat(q):
    q = Fraction(q)
    return z3.RealVal(str(q.numerator) if q.denominator == 1 else f"{q.numerator}/{q.denominator}")


class Ctx:
    """One translation context: variable map, fresh symbols, side conditions."""

    def __init__(self, ints=()):
        self.vars = {}
        self.side = []
        self.ints = set(ints)
        self.cache = {}
        self.roots = {}
        self.dens = {}
        self.nz = []

    def var(self, s):
        if s not in self.vars:
            self.vars[s] = z3.Int(s.name) if s in self.ints else z3.Real(s.name)
        v = self.vars[s]
        return z3.ToReal(v) if s in self.ints else v

    # --- fractions: (num, {den_key: power}) where den_key indexes self.dens
    def _denmul(self, d):
        out = None
        for k, p in d.items():
            for _ in range(p):
                out = self.dens[k] if out is None else out * self.dens[k]
        return out

    def _add(self, terms):
        big = {}
        for _, d in terms:
            for k, p in d.items():
                if big.get(k, 0) < p:
                    big[k] = p
        nums = []
        for n, d in terms:
            rest = {k: p - d.get(k, 0) for k, p in big.items() if p > d.get(k, 0)}
            m = self._denmul(rest)
            nums.append(n if m is None else n * m)
        return (nums[0] if len(nums) == 1 else z3.Sum(nums)), big

    def _mul(self, a, b):
        d = dict(a[1])
        for k, p in b[1].items():
            d[k] = d.get(k, 0) + p
        return a[0] * b[0], d

    def _inv(self, a, key):
        n, d = a
        k = key
        if k not in self.dens:
            self.dens[k] = n
            self.nz.append(n)
        m = self._denmul(d)
        return (z3.RealVal(1) if m is None else m), {k: 1}

    def _root(self, arg):
        """Non-negative square root of a sympy term."""
        if arg.is_Rational and arg >= 0:
            out = sympy.Integer(1)
            rad = None
            # sqrt(p/q) = sqrt(p*q)/q, split over primes so products of roots normalise
            coeff = sympy.Rational(1, arg.q)
            for p, e in sympy.factorint(int(arg.p) * int(arg.q)).items():
                coeff *= p ** (e // 2)
                if e % 2:
                    rp = self._prime_root(int(p))
                    rad = rp if rad is None else rad * rp
            c = zrat(frac(sympy.Rational(coeff)))
            return (c if rad is None else c * rad), {}
        if arg not in self.roots:
            r = z3.Real(f"root!{len(self.roots)}")
            self.roots[arg] = r
            n, d = self.term(arg)
            m = self._denmul(d)
            self.side.append(r >= 0)
            self.side.append((r * r * m if m is not None else r * r) == n)
        return self.roots[arg], {}

    def _prime_root(self, p):
        if p not in self.roots:
            r = z3.Real(f"sqrt!{p}")
            self.roots[p] = r
            self.side.append(r >= 0)
            self.side.append(r * r == p)
        return self.roots[p]

    def _guardvar(self, e, tag, cons):
        key = (tag, e)
        if key not in self.roots:
            r = z3.Real(f"{tag}!{len(self.roots)}")
            self.roots[key] = r
            self.side.extend(cons(r))
        return self.roots[key], {}

    def term(self, e):
        if e in self.cache:
            return self.cache[e]
        out = self._term(e)
        self.cache[e] = out
        return out

    def real(self, e):
        """A z3 real equal to e; introduces a quotient variable when e has a denominator."""
        n, d = self.term(sympy.sympify(e))
        if not d:
            return n
        return n / self._denmul(d)

    def _term(self, e):
        if e.is_Integer or e.is_Rational:
            return zrat(frac(e)), {}
        if e.is_Float:
            return zrat(Fraction(float(e))), {}
        if e.is_Symbol:
            return self.var(e), {}
        if e.is_Add:
            return self._add([self.term(a) for a in e.args])
        if e.is_Mul:
            out = (z3.RealVal(1), {})
            first = True
            for a in e.args:
                t = self.term(a)
                out = t if first else self._mul(out, t)
                first = False
            return out
        if isinstance(e, (AppliedUndef, sympy.Derivative)):
            # an unspecified smooth function (or a derivative of it) at an arbitrary point
            key = ("fun", e)
            if key not in self.roots:
                self.roots[key] = z3.Real(f"fun!{len(self.roots)}!{e}")
            return self.roots[key], {}
        if isinstance(e, sympy.Abs):
            a = self.real(e.args[0])
            return self._guardvar(e, "abs", lambda r: [r >= 0, z3.Or(r == a, r == -a)])
        if isinstance(e, sympy.Pow):
            b, x = e.args
            if b is sympy.E:
                raise Inconclusive(f"exp in {e}")
            if x.is_Integer:
                n = int(x)
                if n >= 0:
                    t = self.term(b)
                    out = (z3.RealVal(1), {})
                    for i in range(n):
                        out = t if i == 0 else self._mul(out, t)
                    return out
                inv = self._inv(self.term(b), b)
                out = inv
                for _ in range(-n - 1):
                    out = self._mul(out, inv)
                return out
            if x.is_Rational and x.q == 2:
                n = int(x.p)
                r = self._root(b)
                if n > 0:
                    out = r
                    for _ in range(n - 1):
                        out = self._mul(out, r)
                    return out
                inv = self._inv(r, sympy.Pow(b, sympy.Rational(1, 2)))
                out = inv
                for _ in range(-n - 1):
                    out = self._mul(out, inv)
                return out
            raise Inconclusive(f"power {e}")
        if isinstance(e, (sympy.Max, sympy.Min)):
            rs = [self.real(a) for a in e.args]
            out = rs[0]
            for r in rs[1:]:
                out = z3.If(r > out, r, out) if isinstance(e, sympy.Max) else z3.If(r < out, r, out)
            return out, {}
        if isinstance(e, sympy.Piecewise):
            out = None
            for v, c in reversed(e.args):
                out = self.real(v) if out is None else z3.If(self.bool(c), self.real(v), out)
            return out, {}
        if isinstance(e, (sympy.cos, sympy.sin)):
            r = e.rewrite(sympy.sqrt) if hasattr(e, "rewrite") else e
            r = sympy.expand_func(r)
            if isinstance(r, (sympy.cos, sympy.sin)):
                r = sympy.simplify(e)
            if isinstance(r, (sympy.cos, sympy.sin)):
                raise Inconclusive(f"trig {e}")
            return self.term(r)
        raise Inconclusive(f"cannot translate {type(e).__name__}: {e}")

    def bool(self, c):
        if c is True or c == sympy.true:
            return z3.BoolVal(True)
        if c is False or c == sympy.false:
            return z3.BoolVal(False)
        if isinstance(c, z3.BoolRef):
            return c
        if isinstance(c, Relational):
            a, b = self.real(c.lhs), self.real(c.rhs)
            return {
                "==": lambda: a == b,
                "!=": lambda: a != b,
                "<=": lambda: a <= b,
                ">=": lambda: a >= b,
                "<": lambda: a < b,
                ">": lambda: a > b,
            }[c.rel_op]()
        if isinstance(c, sympy.And):
            return z3.And(*[self.bool(i) for i in c.args])
        if isinstance(c, sympy.Or):
            return z3.Or(*[self.bool(i) for i in c.args])
        if isinstance(c, sympy.Not):
            return z3.Not(self.bool(c.args[0]))
        raise Inconclusive(f"cannot translate condition {c!r}")

    def differs(self, p, q):
        """z3 formula: p != q. Denominators are non-zero by the side conditions."""
        p, q = sympy.sympify(p), sympy.sympify(q)
        for e in (p, q):
            if e.has(sympy.nan, sympy.zoo, sympy.oo, sympy.S.NegativeInfinity):
                return z3.BoolVal(p != q)
        d = p - q
        if d == 0:
            # the same term on both sides: kept as an obligation on the term itself
            n = self.term(p)[0]
            return n != n
        return self.term(d)[0] != 0

    def nonzero(self, e):
        """z3 formula: e != 0 (given the side conditions, only the numerator matters)."""
        return self.term(sympy.sympify(e))[0] != 0


def as_rational(v):
    """Exact rational of a z3 model value, or None when irrational."""
    if z3.is_int_value(v):
        return sympy.Integer(v.as_long())
    if z3.is_rational_value(v):
        return sympy.Rational(v.numerator_as_long(), v.denominator_as_long())
    return None


def check(formulas, timeout_ms=20000):
    """Check a conjunction; returns ('unsat'|'sat'|'unknown', model)."""
    t = time.time()
    STATS["queries"] += 1
    s = z3.Solver()
    s.set("timeout", int(timeout_ms))
    for f in formulas:
        s.add(f)
    r = s.check()
    m = s.model() if r == z3.sat else None
    STATS["solver_s"] += time.time() - t
    STATS[str(r)] += 1
    return str(r), m


def model_values(ctx, model, symbols):
    """{Symbol: Rational} for the model, None if some value is irrational."""
    out = {}
    for s in symbols:
        v = ctx.vars.get(s)
        if v is None:
            out[s] = sympy.Integer(0)
            continue
        q = as_rational(model.eval(v, model_completion=True))
        if q is None:
            return None
        out[s] = q
    return out


_SEEDS = [1, 2, -1, 3, Fraction(1, 2), -2, Fraction(1, 3), 5, Fraction(-3, 2), 4, 7, Fraction(2, 5)]


def refute(ctx, negated, symbols, assume=(), timeout_ms=20000):
    """Decide whether the negated property is satisfiable.

    Returns ('unsat', None) or ('sat', {Symbol: Rational}); raises Inconclusive otherwise.
    A satisfying assignment with irrational values, or an `unknown`, is retried with part of the
    variables pinned to rationals (still the solver's verdict, on a sub-space).
    """
    base = list(assume) + list(ctx.side) + [n != 0 for n in ctx.nz] + [negated]
    r, m = check(base, timeout_ms)
    if r == "unsat":
        return "unsat", None
    if r == "sat":
        vals = model_values(ctx, m, symbols)
        if vals is not None:
            return "sat", vals
    syms = [s for s in symbols if s in ctx.vars]
    for shift in range(6):
        pins = []
        for i, s in enumerate(syms):
            pins.append(ctx.vars[s] == (_SEEDS[(i * 5 + shift * 3) % len(_SEEDS)] if s not in ctx.ints else i))
        for keep in (0, 1, 2, 3):
            r2, m2 = check(base + pins[keep:], min(timeout_ms, 5000))
            if r2 == "sat":
                vals = model_values(ctx, m2, symbols)
                if vals is not None:
                    return "sat", vals
    raise Inconclusive(f"z3: {r}")


def merge_stats(into, other):
    for k, v in other.items():
        into[k] = into.get(k, 0) + v


def take_stats():
    out = dict(STATS)
    for k in STATS:
        STATS[k] = 0.0 if k == "solver_s" else 0
    return out
