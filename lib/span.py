"""Spans of functions as linear systems for the solver.

A function is a row of coefficients over monomials (per component and per region).  `p` lies outside the span of
`fs` exactly when some linear functional vanishes on every f and not on p: that functional is what z3 looks for.
"""
import sympy
import z3

from . import smt


def rows(fs, gens):
    """fs: list of lists of (tag, expr). Returns (keys, [dict key -> coefficient]) over the polynomial ring in gens.

    Rational functions are brought over one common denominator first.
    """
    den = sympy.Integer(1)
    parsed = []
    for f in fs:
        cur = []
        for tag, e in f:
            e = sympy.sympify(e)
            if e.is_Add or e.is_Mul or e.is_Pow:
                n, d = sympy.fraction(sympy.together(e)) if _rational(e, gens) else (e, sympy.Integer(1))
            else:
                n, d = e, sympy.Integer(1)
            if d.free_symbols & set(gens):
                den = sympy.lcm(den, d)
            cur.append((tag, n, d))
        parsed.append(cur)
    keys = {}
    out = []
    for cur in parsed:
        row = {}
        for tag, n, d in cur:
            q = sympy.cancel(den / d) if den != 1 else 1 / d
            for mon, c in sympy.Poly(sympy.expand(n * q), *gens).terms():
                if c != 0:
                    k = (tag, mon)
                    keys.setdefault(k, len(keys))
                    row[k] = row.get(k, 0) + c
        out.append(row)
    return keys, out


def _rational(e, gens):
    return any(p.exp.is_negative and p.base.free_symbols & set(gens) for p in e.atoms(sympy.Pow))


class Span:
    def __init__(self, basis, others, gens, ctx=None, timeout_ms=60000):
        """basis, others: lists of functions (lists of (tag, expr))."""
        self.keys, rs = rows(list(basis) + list(others), gens)
        self.basis, self.others = rs[: len(basis)], rs[len(basis):]
        self.ctx = ctx or smt.Ctx()
        self.lam = {k: z3.Real(f"lam{i}") for k, i in self.keys.items()}
        self.timeout_ms = timeout_ms

    def value(self, row):
        if not row:
            return z3.RealVal(0)
        return z3.Sum([self.ctx.real(c) * self.lam[k] for k, c in row.items()])

    def outside(self, rows_):
        """(verdict, index of a function outside the span)."""
        cons = [self.value(r) == 0 for r in self.basis]
        vals = [self.value(r) for r in rows_]
        if not vals:
            return "unsat", None
        r, m = smt.check(cons + self.ctx.side + [z3.Or(*[v == 1 for v in vals])], self.timeout_ms)
        if r == "sat":
            for i, v in enumerate(vals):
                if z3.is_true(m.eval(v == 1, model_completion=True)):
                    return "sat", i
        return r, None
