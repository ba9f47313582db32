"""Path-forking symbolic execution of the real Python code on sympy terms.

The real functions run unmodified; their inputs are sympy symbols.  Arithmetic builds terms.  Every
branch on a symbolic condition reaches one of two hooks:

* ``bool(relational)``: sympy refuses to convert a symbolic relational to bool; while an exploration
  is active the hook decides it instead;
* ``a == b`` / ``a != b`` on terms, when the caller is a symfem frame: sympy's answer is structural,
  which would silently take the "different" branch; the hook decides Eq(a, b) instead.

A decision asks z3 which outcomes are satisfiable together with the path condition.  When both are,
the path forks (the run is repeated with the other outcome forced).  The union of the explored path
conditions therefore covers every value of the symbols allowed by the assumptions.
"""
import sys

import sympy
from sympy.core.basic import Basic
from sympy.core.expr import Expr
from sympy.core.relational import Relational

from . import smt

_ACTIVE = None
HARNESS_PREFIX = "hs_"


def is_sym(e):
    return isinstance(e, Basic) and any(s.name.startswith(HARNESS_PREFIX) for s in e.free_symbols)


def sym(name):
    return sympy.Symbol(HARNESS_PREFIX + name, real=True)


def syms(name, n):
    return [sym(f"{name}{i}") for i in range(n)]


class TooManyPaths(smt.Inconclusive):
    pass


class _Explorer:
    def __init__(self, ctx, assume, timeout_ms):
        self.ctx = ctx
        self.assume = list(assume)
        self.timeout_ms = timeout_ms
        self.prefix = []
        self.start()

    def start(self):
        self.pos = 0
        self.pc = []
        self.conds = []
        self.trace = []
        self.pending = []
        self.known = {}

    def sat(self, f):
        r, _ = smt.check(self.assume + self.ctx.side + [n != 0 for n in self.ctx.nz] + self.pc + [f], self.timeout_ms)
        return r != "unsat"

    def decide(self, cond):
        if cond in (sympy.true, sympy.false):
            return bool(cond)
        key = cond
        if key in self.known:
            return self.known[key]
        f = self.ctx.bool(cond)
        if self.pos < len(self.prefix):
            out = self.prefix[self.pos]
        else:
            import z3

            t = self.sat(f)
            if not t:
                out = False
            elif not self.sat(z3.Not(f)):
                out = True
            else:
                out = True
                self.pending.append(self.trace + [False])
        import z3

        self.pos += 1
        self.trace.append(out)
        self.pc.append(f if out else z3.Not(f))
        self.conds.append((cond, out))
        self.known[key] = out
        return out


_orig = {}


def _symfem_caller(depth=2):
    f = sys._getframe(depth)
    return f.f_code.co_filename.startswith("/repo/symfem")


def install():
    """Install the hooks (idempotent). They are inert unless an exploration is active."""
    if _orig:
        return
    _orig["bool"] = Relational.__bool__

    def rel_bool(self):
        if _ACTIVE is not None:
            return _ACTIVE.decide(self)
        return _orig["bool"](self)

    Relational.__bool__ = rel_bool
    Relational.__nonzero__ = rel_bool

    def hook(cls):
        if "__eq__" not in cls.__dict__:
            return
        oe = cls.__dict__["__eq__"]
        one = cls.__dict__.get("__ne__")

        def eq(self, other):
            r = oe(self, other)
            if _ACTIVE is None or r is True or not _symfem_caller():
                return r
            return _decide_eq(self, other, r)

        def ne(self, other):
            if _ACTIVE is None or not _symfem_caller():
                return one(self, other) if one is not None else not oe(self, other)
            r = oe(self, other)
            if r is True:
                return False
            r = _decide_eq(self, other, r)
            return r if r is NotImplemented else not r

        h = cls.__hash__
        cls.__eq__ = eq
        cls.__ne__ = ne
        cls.__hash__ = h

    from sympy.core import numbers

    for cls in [Basic, Expr, numbers.Number, numbers.Rational, numbers.Integer, numbers.Float]:
        hook(cls)
    for cls in list(numbers.__dict__.values()):
        if isinstance(cls, type) and issubclass(cls, numbers.Integer) and cls is not numbers.Integer:
            hook(cls)

    # harness symbols stand for arbitrary constants
    def constants(cls):
        oc = cls.__dict__["is_constant"]

        def is_constant(self, *wrt, **flags):
            fs = self.free_symbols
            if not wrt and fs and any(s.name.startswith(HARNESS_PREFIX) for s in fs):
                return all(s.name.startswith(HARNESS_PREFIX) for s in fs)
            return oc(self, *wrt, **flags)

        cls.is_constant = is_constant

    for cls in (Expr, sympy.Symbol):
        if "is_constant" in cls.__dict__:
            constants(cls)


def _decide_eq(a, b, r):
    if isinstance(a, Expr) and isinstance(b, (Expr, int)) and (is_sym(a) or is_sym(b)):
        d = sympy.sympify(a) - sympy.sympify(b)
        if not is_sym(d):
            return bool(d == 0)
        other = [v for v in d.free_symbols if not v.name.startswith(HARNESS_PREFIX)]
        if other:
            # an identity of functions of the remaining variables: every coefficient must vanish
            try:
                co = sympy.Poly(d, *sorted(other, key=str)).coeffs()
            except sympy.PolynomialError:
                co = [d]
            return _ACTIVE.decide(sympy.And(*[sympy.Eq(k, 0) for k in co]))
        return _ACTIVE.decide(sympy.Eq(d, 0, evaluate=False))
    return r


class Path:
    def __init__(self, pc, conds, value, error):
        self.pc = pc
        self.conds = conds
        self.value = value
        self.error = error


def explore(fn, ctx=None, assume=(), max_paths=400, timeout_ms=10000):
    """Run fn() along every feasible path. Returns (ctx, [Path])."""
    global _ACTIVE
    install()
    ctx = ctx or smt.Ctx()
    ex = _Explorer(ctx, assume, timeout_ms)
    work = [[]]
    paths = []
    while work:
        ex.prefix = work.pop()
        ex.start()
        _ACTIVE = ex
        value = error = None
        try:
            value = fn()
        except smt.Inconclusive:
            raise
        except Exception as e:  # noqa: BLE001 - the outcome of the path is the exception
            error = e
        finally:
            _ACTIVE = None
        work.extend(ex.pending)
        paths.append(Path(list(ex.pc), list(ex.conds), value, error))
        if len(paths) > max_paths:
            raise TooManyPaths(f"more than {max_paths} paths")
    return ctx, paths
