"""Obligation bookkeeping used inside jobs."""
import sympy
import z3

from . import smt, symexec

sym = symexec.sym


def flat(v):
    """Flatten scalars / vectors / matrices (symfem or sympy) to a list of sympy terms."""
    if hasattr(v, "as_sympy"):
        v = v.as_sympy()
    if isinstance(v, dict):
        return [i for k in v for i in flat(v[k])]
    if isinstance(v, sympy.MatrixBase):
        return [v[i, j] for i in range(v.rows) for j in range(v.cols)]
    if isinstance(v, (list, tuple)):
        return [i for j in v for i in flat(j)]
    return [sympy.sympify(v)]


class Rep:
    """Collects obligations, counterexamples and coverage counters of one job."""

    def __init__(self, max_violations=3, timeout_ms=20000):
        self.info = {"obligations": 0, "witnesses": 0, "paths": 0}
        self.violations = []
        self.max = max_violations
        self.timeout_ms = timeout_ms

    def result(self):
        out = dict(self.info)
        out["violations"] = self.violations
        return out

    def full(self):
        return len(self.violations) >= self.max

    def violate(self, what, data=None, key=None):
        if not self.full():
            self.violations.append((what, {str(k): str(v) for k, v in (data or {}).items()}, key))

    def _replay(self, what, vals, replay, key):
        msg = replay(vals)
        if not msg:
            raise smt.Inconclusive(f"counterexample did not reproduce: {what} at {vals}")
        self.violate(f"{what}: {msg}", {str(k): v for k, v in vals.items()}, key)

    def never(self, ctx, formula, symbols, what, replay, assume=(), key=None, reach=True):
        """Obligation: `formula` (z3) is unsatisfiable under the assumptions."""
        if self.full():
            return False
        self.info["obligations"] += 1
        r, vals = smt.refute(ctx, formula, symbols, assume, self.timeout_ms)
        if r == "sat":
            self._replay(what, vals, replay, key)
            return False
        return True

    def equal(self, a, b, what, replay, ctx=None, assume=(), key=None, symbols=None):
        """Obligation: the two values agree for every value of their symbols."""
        a, b = flat(a), flat(b)
        if len(a) != len(b):
            self.info["obligations"] += 1
            vals = {s: sympy.Rational(i + 2, 7) for i, s in enumerate(sorted(symbols or [], key=str))}
            self._replay(f"{what} (shape {len(a)} vs {len(b)})", vals, replay, key)
            return False
        c = ctx or smt.Ctx()
        ss = set(symbols or [])
        parts = []
        for p, q in zip(a, b):
            ss |= p.free_symbols | q.free_symbols
            parts.append(c.differs(p, q))
        self.info["compared"] = self.info.get("compared", 0) + len(parts)
        return self.never(c, z3.Or(*parts), sorted(ss, key=str), what, replay, assume, key)

    def defined(self, ctx, symbols, what, replay, assume=(), key=None):
        """Obligation: no denominator of the translated terms vanishes under the assumptions."""
        nz = list(ctx.nz)
        for n in nz:
            ctx.nz = []
            try:
                self.never(ctx, n == 0, symbols, f"{what}: denominator vanishes", replay, assume, key)
            finally:
                ctx.nz = nz

    def feasible(self, ctx, assume):
        """Can the assumptions hold (unknown counts as yes)?"""
        r, _ = smt.check(list(assume) + list(ctx.side) + [n != 0 for n in ctx.nz], self.timeout_ms)
        return r != "unsat"

    def reachable(self, ctx, assume, what):
        """Vacuity witness: the assumptions (with the side conditions) must be satisfiable."""
        r, _ = smt.check(list(assume) + list(ctx.side) + [n != 0 for n in ctx.nz], self.timeout_ms)
        if r != "sat":
            raise smt.Inconclusive(f"assumptions of {what} are {r}: vacuous")
        self.info["witnesses"] += 1
        smt.STATS["reach"] += 1


def differ(a, b, tol=None):
    """Concrete comparison used in replays: exact zero test of the difference."""
    a, b = flat(a), flat(b)
    if len(a) != len(b):
        return f"sizes {len(a)} and {len(b)}"
    for p, q in zip(a, b):
        d = sympy.nsimplify(p - q) if (p - q).has(sympy.Float) else p - q
        if d == 0:
            continue
        n = sympy.N(d, 40)
        if not n.is_number or abs(n) > sympy.Float("1e-25"):
            return f"{p} != {q}"
    return None


def at(e, vals):
    """Substitute the model into a (nested) value."""
    if hasattr(e, "as_sympy"):
        e = e.as_sympy()
    if isinstance(e, (tuple, list)):
        return tuple(at(i, vals) for i in e)
    if isinstance(e, sympy.MatrixBase):
        return e.subs(vals)
    return sympy.sympify(e).subs(vals)


def guard(fn):
    """Run a concrete replay; an exception of the real code is itself the reproduced failure."""

    def run(vals):
        try:
            return fn(vals)
        except smt.Inconclusive:
            raise
        except Exception as e:  # noqa: BLE001
            return f"real code raised {type(e).__name__}: {e}"

    return run
