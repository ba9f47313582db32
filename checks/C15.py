"""C15: element creation admits exactly the documented elements and orders."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.realpath(__file__))))
from lib import boot, elements, harness, runner, smt, symexec  # noqa: E402,F401

import sympy  # noqa: E402
import z3  # noqa: E402

import symfem  # noqa: E402
from symfem import create  # noqa: E402
from symfem.finite_element import FiniteElement  # noqa: E402

guard, sym = harness.guard, harness.sym
symexec.install()

I, T, Q, K, H, PR, PY, DP = ("interval", "triangle", "quadrilateral", "tetrahedron", "hexahedron", "prism", "pyramid", "dual polygon")  # noqa: E741
CELLS = [I, T, Q, K, H, PR, PY, DP]
SIMPLEX = (I, T, K)
NONE = None


# ---------------------------------------------------------------- the documented elements
def documented():
    """[(names, {cell: (lowest order, highest order or None)})], from the README and the definitions of the families."""
    def on(cells, lo, hi=None):
        return {c: (lo, hi) for c in cells}

    return [
        (["Alfeld-Sorokina", "AS"], on([T], 2, 2)),
        (["Arbogast-Correa", "AC", "AC full", "Arbogast-Correa full"], on([Q], 0)),
        (["Argyris"], on([T], 5, 5)),
        (["Arnold-Boffi-Falk", "ABF"], on([Q], 0)),
        (["Arnold-Winther", "AW", "conforming Arnold-Winther"], on([T], 3)),
        (["nonconforming Arnold-Winther", "nonconforming AW"], on([T], 2, 2)),
        (["Bell"], on([T], 5, 5)),
        (["Bernardi-Raugel"], {T: (1, 1), K: (1, 2)}),
        (["Guzman-Neilan"], {T: (1, 1), K: (1, 2)}),
        (["Bernstein", "Bernstein-Bezier"], on(SIMPLEX, 0)),
        (["Bogner-Fox-Schmit", "BFS"], on([Q], 3, 3)),
        (["Brezzi-Douglas-Duran-Fortin", "BDDF"], on([H], 1)),
        (["Brezzi-Douglas-Fortin-Marini", "BDFM"], on([T, Q, K, H], 1)),
        (["Brezzi-Douglas-Marini", "BDM", "N2div"], on([T, K], 1)),
        (["bubble"], {I: (2, None), T: (3, None), K: (4, None), Q: (2, None), H: (2, None)}),
        (["bubble enriched Lagrange"], on([T], 1)),
        (["bubble enriched vector Lagrange"], on([T], 1)),
        (["Buffa-Christiansen", "BC"], on([DP], 1, 1)),
        (["rotated Buffa-Christiansen", "RBC"], on([DP], 1, 1)),
        (["dual polynomial", "dual P", "dual"], on([DP], 0, 1)),
        (["conforming Crouzeix-Raviart", "conforming CR"], on([T], 1)),
        (["Crouzeix-Raviart", "CR", "Crouzeix-Falk", "CF"], {T: (1, None), K: (1, 1)}),
        (["direct serendipity"], on([Q], 1)),
        (["dPc"], on([I, Q, H], 0)),
        (["vector dPc"], on([Q, H], 0)),
        (["enriched Galerkin", "EG"], on([I, T, Q, K, H], 1)),
        (["enriched vector Galerkin", "locking-free enriched Galerkin", "LFEG"], on([T, Q, K, H], 1)),
        (["Fortin-Soulie", "FS"], on([T], 2, 2)),
        (["Hellan-Herrmann-Johnson", "HHJ"], on([T, K], 0)),
        (["Hermite"], on(SIMPLEX, 3, 3)),
        (["Hsieh-Clough-Tocher", "Clough-Tocher", "HCT", "CT"], on([T], 3, 3)),
        (["reduced Hsieh-Clough-Tocher", "rHCT"], on([T], 3, 3)),
        (["Huang-Zhang", "HZ"], on([Q], 2)),
        (["Kong-Mulder-Veldhuizen", "KMV"], on([T, K], 1)),
        (["Lagrange", "P"], on(SIMPLEX, 0)),
        (["Lagrange", "P"], on([PR], 0)),
        (["Lagrange", "P"], on([PY], 0)),
        (["Q", "Lagrange", "P"], on([Q, H], 0)),
        (["vector Q", "vQ"], on([Q, H], 0)),
        (["vector Lagrange", "vP"], on(SIMPLEX, 0)),
        (["matrix Lagrange"], on([T, K], 0)),
        (["symmetric matrix Lagrange"], on([T, K], 0)),
        (["Mardal-Tai-Winther", "MTW"], on([T, K], 3, 3)),
        (["Morley"], on([T], 2, 2)),
        (["Morley-Wang-Xu", "MWX"], {I: (1, 1), T: (1, 2), K: (1, 3)}),
        (["NCE", "RTCE", "Qcurl", "Nedelec", "Ncurl"], on([Q, H], 1)),
        (["NCF", "RTCF", "Qdiv"], on([Q, H], 1)),
        (["Nedelec", "Nedelec1", "N1curl"], on([T, K], 1)),
        (["Nedelec", "Ncurl"], on([PR], 1, 2)),
        (["Nedelec2", "N2curl"], on([T, K], 1)),
        (["P1 macro"], on([T], 1, 1)),
        (["P1-iso-P2", "P2-iso-P1", "iso-P2 P1"], on([I], 1, 1)),
        (["P1-iso-P2", "P2-iso-P1", "iso-P2 P1"], on([T], 1, 1)),
        (["P1-iso-P2", "P2-iso-P1", "iso-P2 P1"], on([Q], 1, 1)),
        (["Rannacher-Turek"], on([Q, H], 1, 1)),
        (["Raviart-Thomas", "RT", "N1div"], on([T, K], 1)),
        (["Regge"], on([T, K], 0)),
        (["Regge"], on([Q, H], 0)),
        (["serendipity", "S"], on([I, Q, H], 1)),
        (["serendipity Hcurl", "Scurl", "BDMCE", "AAE"], on([Q, H], 1)),
        (["serendipity Hdiv", "Sdiv", "BDMCF", "AAF"], on([Q, H], 1)),
        (["Taylor", "discontinuous Taylor"], on(SIMPLEX, 0)),
        (["tiniest tensor", "TNT"], on([Q, H], 1)),
        (["tiniest tensor Hcurl", "TNTcurl"], on([Q, H], 1)),
        (["tiniest tensor Hdiv", "TNTdiv"], on([Q, H], 1)),
        (["transition"], on([T, K], 1)),
        (["trimmed serendipity Hcurl", "TScurl"], on([Q, H], 1)),
        (["trimmed serendipity Hdiv", "TSdiv"], on([Q, H], 1)),
        (["Wu-Xu"], {I: (2, 2), T: (3, 3), K: (4, 4)}),
    ]


DOC = documented()
RANGE = {(c, n): (f, r) for f, (names, cells) in enumerate(DOC) for c, r in cells.items() for n in names}
NAMES = sorted({n for names, _ in DOC for n in names})


def cell_arg(c):
    return "dual polygon(4)" if c == DP else c


# ---------------------------------------------------------------- integers that are terms
class SymInt(int):
    """An int whose value is a term; comparisons fork the path."""

    def __new__(cls, term):
        self = int.__new__(cls, 424242)
        self.term = sympy.sympify(term)
        return self

    def _no(self, *args):
        raise smt.Inconclusive("the value of a symbolic order is needed")

    __index__ = __int__ = __float__ = __round__ = __trunc__ = __hash__ = _no

    def __bool__(self):
        return bool(sympy.Ne(self.term, 0))

    def __repr__(self):
        return f"<{self.term}>"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __neg__(self):
        return SymInt(-self.term)

    def __pos__(self):
        return self


def _other(o):
    return o.term if isinstance(o, SymInt) else sympy.nsimplify(o) if isinstance(o, float) else sympy.sympify(o)


def _cmp(rel):
    def go(self, o):
        if not isinstance(o, (int, float, sympy.Expr)):
            return NotImplemented
        return bool(rel(self.term, _other(o)))
    return go


def _arith(name):
    def go(self, o):
        if not isinstance(o, (int, sympy.Expr)):
            return NotImplemented
        return SymInt(getattr(self.term, name)(_other(o)))
    return go


for _n, _r in (("__lt__", sympy.Lt), ("__le__", sympy.Le), ("__gt__", sympy.Gt), ("__ge__", sympy.Ge), ("__eq__", sympy.Eq), ("__ne__", sympy.Ne)):
    setattr(SymInt, _n, _cmp(_r))
for _n in ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__"):
    setattr(SymInt, _n, _arith(_n))
for _n in ("__floordiv__", "__rfloordiv__", "__mod__", "__rmod__", "__divmod__", "__truediv__", "__rtruediv__", "__pow__", "__rpow__", "__abs__"):
    setattr(SymInt, _n, SymInt._no)


class StandIns:
    """While active, constructors of elements only note what they were asked for."""

    def __enter__(self):
        self.saved = []

        def note(e, reference, order, *args, **kwargs):
            e.reference, e.order, e.args, e.kwargs = reference, order, args, kwargs

        classes, todo = [], [FiniteElement]
        while todo:
            c = todo.pop()
            classes.append(c)
            todo += c.__subclasses__()
        for c in classes:
            if "__init__" in c.__dict__:
                self.saved.append((c, c.__dict__["__init__"]))
                c.__init__ = note
        return self

    def __exit__(self, *exc):
        for c, i in self.saved:
            c.__init__ = i
        return False


def inside(n, lo, hi):
    """n (z3 integer) is in the range."""
    fs = ([n >= lo] if lo is not None else []) + ([n <= hi] if hi is not None else [])
    return z3.And(*fs)


CLS = {}


def family_class(c, name):
    """The class that the cell and name give at the lowest documented order."""
    if (c, name) not in CLS:
        f, (lo, _) = RANGE[c, name]
        try:
            with StandIns():
                CLS[c, name] = type(create.create_element(cell_arg(c), name, lo))
        except Exception as e:  # noqa: BLE001
            raise smt.RealCodeFailure(f"{name} of order {lo} on {c}: real code raised {type(e).__name__}: {e}", f"{name} on {c}") from e
    return CLS[c, name]


def admission(c, names):
    """An order is accepted exactly when it is in the documented range, and what is made is what was asked for."""
    rep = harness.Rep(max_violations=4)
    for name in names:
        lo, hi, want = 1, 0, None
        if (c, name) in RANGE:
            lo, hi = RANGE[c, name][1]
            want = family_class(c, DOC[RANGE[c, name][0]][0][0])
        t = sym("order")
        ctx = smt.Ctx(ints=[t])
        n = ctx.var(t)
        with StandIns():
            ctx, paths = symexec.explore(lambda: create.create_element(cell_arg(c), name, SymInt(t), some="thing"), ctx)
        rep.info["paths"] += len(paths)
        bad = []
        for p in paths:
            pc = z3.And(*p.pc) if p.pc else z3.BoolVal(True)
            if p.error is not None:
                bad.append(z3.And(pc, inside(n, lo, hi)))
            else:
                e = p.value
                right = type(e) is want and name in e.names and e.reference.name == c and e.args == () and e.kwargs == {"some": "thing"}
                same = isinstance(e.order, SymInt) and e.order.term == t
                ok = inside(n, lo, hi) if right else z3.BoolVal(False)
                if not same:
                    ok = z3.And(ok, n == (e.order if not isinstance(e.order, SymInt) else ctx.real(e.order.term)))
                bad.append(z3.And(pc, z3.Not(ok)))

        def replay(v, name=name, lo=lo, hi=hi, want=want):
            o = int(v[t])
            okay = lo <= o and (hi is None or o <= hi)
            try:
                with StandIns():
                    e = create.create_element(cell_arg(c), name, o, some="thing")
            except Exception as err:  # noqa: BLE001
                return f"order {o} is refused ({type(err).__name__}: {err})" if okay else None
            if not okay:
                return f"order {o} is accepted"
            if type(e) is not want or name not in e.names:
                return f"order {o} gives a {type(e).__name__}"
            if e.reference.name != c or e.order != o:
                return f"order {o} gives order {e.order} on a {e.reference.name}"
            if e.args != () or e.kwargs != {"some": "thing"}:
                return f"order {o} is made with the keyword arguments {e.kwargs}"
            return None

        rep.never(ctx, z3.Or(*bad), [t], f"{name} on {c}", replay, key=f"{name} on {c}")
    return rep.result()


def distinct():
    """Two families are never the same class, and no name is registered beyond the documented ones."""
    rep = harness.Rep(max_violations=4)
    t = sym("order")
    for c in CELLS:
        seen = {}
        for f, (names, cells) in enumerate(DOC):
            if c not in cells:
                continue
            k = family_class(c, names[0])
            rep.info["obligations"] += 1
            if k in seen:
                rep.violate(f"{names[0]} and {seen[k]} on {c} are the same element", {}, f"{names[0]} on {c}")
            seen[k] = names[0]
    # names nobody documented
    for c in CELLS:
        for name in ("", "p", "lagrange", "Lagrange ", "Raviart", "P1", "None", "dual polygon", "symmetric", "VectorLagrange", "RTN", "Qgrad"):
            ctx = smt.Ctx(ints=[t])
            ctx.var(t)
            with StandIns():
                ctx, paths = symexec.explore(lambda: create.create_element(cell_arg(c), name, SymInt(t)), ctx)

            def replay(v, name=name):
                try:
                    with StandIns():
                        create.create_element(cell_arg(c), name, int(v[t]))
                except Exception:  # noqa: BLE001
                    return None
                return f"order {v[t]} is accepted"

            ok = [z3.And(*p.pc) if p.pc else z3.BoolVal(True) for p in paths if p.error is None]
            rep.never(ctx, z3.Or(*ok), [t], f"element called {name!r} on {c}", replay, key=f"{name!r} on {c}")
    for cell in ("", "Triangle", "triangles", "square", "line", "cube", "polygon(4)", "simplex", "tri"):
        ctx = smt.Ctx(ints=[t])
        ctx.var(t)
        with StandIns():
            ctx, paths = symexec.explore(lambda: create.create_element(cell, "P", SymInt(t)), ctx)

        def replay(v, cell=cell):
            try:
                with StandIns():
                    create.create_element(cell, "P", int(v[t]))
            except Exception:  # noqa: BLE001
                return None
            return f"order {v[t]} is accepted"

        ok = [z3.And(*p.pc) if p.pc else z3.BoolVal(True) for p in paths if p.error is None]
        rep.never(ctx, z3.Or(*ok), [t], f"P on the cell {cell!r}", replay, key=f"cell {cell!r}")
    return rep.result()


# ---------------------------------------------------------------- elements that a user adds
def added():
    """Elements that a user adds are made for exactly the orders that their limits, whatever these are, allow."""
    rep = harness.Rep(max_violations=4)
    t, a, b = sym("order"), sym("low"), sym("high")
    ALL = {"order": t, "low": a, "high": b}

    def limits(kind, v):
        """(attributes of the class, is the order allowed)"""
        n, lo, hi = v["order"], v["low"], v["high"]
        return {
            "none": ({}, []),
            "min": ({"min_order": lo}, [(lo, n)]),
            "max": ({"max_order": hi}, [(n, hi)]),
            "both": ({"min_order": lo, "max_order": hi}, [(lo, n), (n, hi)]),
            "by cell": ({"min_order": {T: lo, Q: 100}, "max_order": {T: hi, Q: 200}}, [(lo, n), (n, hi)]),
            "other cell": ({"min_order": {Q: lo}, "max_order": {Q: hi}}, []),
            "low here": ({"min_order": {T: lo}, "max_order": {Q: hi}}, [(lo, n)]),
            "high here": ({"min_order": {Q: lo}, "max_order": {T: hi}}, [(n, hi)]),
            "mixed": ({"min_order": lo, "max_order": {T: hi}}, [(lo, n), (n, hi)]),
        }[kind]

    def init(self, reference, order):
        self.reference, self.order = reference, order

    for i, kind in enumerate(("none", "min", "max", "both", "by cell", "other cell", "low here", "high here", "mixed")):
        names = [f"harness element {i}", f"HE{i}"]

        def make(v, names=names, kind=kind):
            attrs, want = limits(kind, v)
            cls = type("Added", (symfem.finite_element.CiarletElement,), {"names": names, "references": [T, Q], "__init__": init, **attrs})
            create.add_element(cls)
            return cls, want

        def forget(names=names):
            for n in names:
                create._elementmap.pop(n, None)

        for name in names:
            ctx = smt.Ctx(ints=[t, a, b])
            zs = {k: ctx.var(s) for k, s in ALL.items()}

            def run(name=name):
                cls, _ = make({k: SymInt(s) for k, s in ALL.items()})
                try:
                    e = create.create_element(T, name, SymInt(t))
                    return type(e) is cls and e.reference.name == T and isinstance(e.order, SymInt) and e.order.term == t
                finally:
                    forget()

            ctx, paths = symexec.explore(run, ctx)
            rep.info["paths"] += len(paths)
            _, pairs = limits(kind, zs)
            want = z3.And(*[p <= q for p, q in pairs])
            bad = [z3.And(*(p.pc + [want if p.error is not None else z3.Not(want) if p.value else z3.BoolVal(True)])) for p in paths]

            def replay(v, name=name):
                c = {k: int(v[s]) for k, s in ALL.items()}
                cls, pairs = make(c)
                okay = all(p <= q for p, q in pairs)
                try:
                    got = create.create_element(T, name, c["order"])
                except Exception as e:  # noqa: BLE001
                    return f"{c} is refused ({e})" if okay else None
                finally:
                    forget()
                return None if okay and type(got) is cls and got.order == c["order"] else f"{c} gives a {type(got).__name__} of order {got.order}"

            rep.never(ctx, z3.Or(*bad), [t, a, b], f"added element with limits: {kind}", replay, key=f"added {kind}")
            # and on no other cell
            for c in (I, K, H):
                cls, _ = make({"order": 1, "low": 0, "high": 9})
                rep.info["obligations"] += 1
                try:
                    e = create.create_element(c, name, 2)
                    rep.violate(f"an element added on a triangle and a quadrilateral is made on a {c} ({type(e).__name__})", {}, f"added on {c}")
                except ValueError:
                    pass
                finally:
                    forget()
    # what cannot be added
    for what, thing in (("an instance", symfem.create_element("interval", "P", 1)), ("a function", lambda: None), ("another class", dict), ("FiniteElement", FiniteElement),
                        ("a class without names", type("NoName", (symfem.finite_element.CiarletElement,), {"names": [], "references": [T]}))):
        rep.info["obligations"] += 1
        before = {k: dict(v) for k, v in create._elementmap.items()}
        try:
            create.add_element(thing)
            rep.violate(f"{what} can be added as an element", {}, f"add {what}")
        except (TypeError, AssertionError, ValueError):
            pass
        if before != create._elementmap:
            rep.violate(f"adding {what} changes the elements that there are", {}, f"add {what} changes")
    # a name that is taken stays with its element
    taken = type("Taken", (symfem.finite_element.CiarletElement,), {"names": ["Lagrange"], "references": [T], "__init__": lambda self, *a, **k: None})
    before = {k: dict(v) for k, v in create._elementmap.items()}
    try:
        create.add_element(taken)
    except Exception:  # noqa: BLE001
        pass
    rep.info["obligations"] += 1
    if type(create.create_element(T, "Lagrange", 1)) is taken:
        rep.violate("a user's element called Lagrange replaces Lagrange on the triangle", {}, "taken")
    create._elementmap.clear()
    create._elementmap.update(before)
    return rep.result()


# ---------------------------------------------------------------- cells
COUNT = {"point": (0, 1), I: (1, 2), T: (2, 3), Q: (2, 4), K: (3, 4), H: (3, 8), PR: (3, 6), PY: (3, 5)}
FIRST = {I: ("P", 1), T: ("P", 1), Q: ("Q", 1), K: ("P", 1), H: ("Q", 1), PR: ("P", 1), PY: ("P", 1)}


def cells():
    """Cells keep the vertices they are made with; elements are refused on cells in more dimensions than their own."""
    rep = harness.Rep(max_violations=4)
    for c, (td, nv) in COUNT.items():
        default = symfem.create_reference(c)
        rep.info["obligations"] += 1
        if default.name != c or default.tdim != td or len(default.vertices) != nv:
            rep.violate(f"the default {c} is a {default.name} with {len(default.vertices)} vertices", {}, f"default {c}")
        for gd in range(max(td, 1), 4):
            vs = tuple(tuple(sym(f"v{i}_{j}") for j in range(gd)) for i in range(nv))
            ss = [s for v in vs for s in v]

            def replay(v, c=c, vs=vs, td=td, gd=gd):
                pts = harness.at(vs, v)
                r = symfem.create_reference(c, pts)
                if r.name != c or r.tdim != td or r.gdim != gd:
                    return f"a {r.name} of dimensions {r.tdim}, {r.gdim}"
                return harness.differ(r.vertices, pts)

            got = []
            for form in ((lambda vs=vs: vs), (lambda vs=vs: [list(v) for v in vs])):
                ctx, paths = symexec.explore(lambda: symfem.create_reference(c, form()))
                for p in paths:
                    rep.info["paths"] += 1
                    if p.error is not None or p.value.name != c or p.value.tdim != td or p.value.gdim != gd:
                        rep.never(ctx, z3.And(*p.pc) if p.pc else z3.BoolVal(True), ss, f"{c} in {gd} dimensions", guard(replay), key=f"{c} in {gd}")
                        continue
                    got.append(p.value)
                    rep.equal(p.value.vertices, vs, f"vertices of a {c} in {gd} dimensions", guard(replay), ctx=ctx, assume=p.pc, symbols=ss, key=f"vertices {c} {gd}")
            if c == "point":
                continue
            fam, order = FIRST[c]

            def made(v, c=c, vs=vs, gd=gd, td=td, fam=fam, order=order):
                pts = harness.at(vs, v)
                try:
                    with StandIns():
                        e = create.create_element(c, fam, order, vertices=pts)
                except Exception as err:  # noqa: BLE001
                    return f"an element on {pts} is refused ({err})" if gd == td else None
                if gd != td:
                    return f"an element is made on {pts}"
                return harness.differ(e.reference.vertices, pts)

            with StandIns():
                ctx, paths = symexec.explore(lambda: create.create_element(c, fam, order, vertices=vs))
            for p in paths:
                rep.info["paths"] += 1
                pc = z3.And(*p.pc) if p.pc else z3.BoolVal(True)
                if (p.error is None) != (gd == td):
                    rep.never(ctx, pc, ss, f"element on a {c} in {gd} dimensions", made, key=f"element {c} {gd}")
                elif p.error is None:
                    rep.equal(p.value.reference.vertices, vs, f"cell of the element on a {c}", made, ctx=ctx, assume=p.pc, symbols=ss, key=f"element cell {c}")
    for n in (3, 4, 5, 6, 7):
        r = symfem.create_reference(f"dual polygon({n})")
        rep.info["obligations"] += 1
        if r.name != DP or len(r.vertices) != 2 * n:
            rep.violate(f"dual polygon({n}) has {len(r.vertices)} vertices", {}, f"dual polygon({n})")
    return rep.result()


# ---------------------------------------------------------------- elements made again
SLOW = {("Bernstein", I): 4, ("Bernstein", T): 2, ("Bernstein", K): 2, ("enriched vector Galerkin", H): 1, ("enriched vector Galerkin", K): 2, ("enriched vector Galerkin", Q): 3, ("enriched Galerkin", H): 2, ("Brezzi-Douglas-Duran-Fortin", H): 5, ("NCE", H): 4, ("NCF", H): 4, ("Nedelec2", K): 4,
        ("Hellan-Herrmann-Johnson", K): 4, ("bubble", H): 4, ("Regge", H): 4, ("tiniest tensor Hcurl", H): 4, ("tiniest tensor Hdiv", H): 3,
        ("serendipity Hcurl", H): 5, ("serendipity Hdiv", H): 5, ("Guzman-Neilan", K): 1, ("Brezzi-Douglas-Marini", K): 5, ("Nedelec", K): 5}
HIGHEST = {("Kong-Mulder-Veldhuizen", T): 3, ("Kong-Mulder-Veldhuizen", K): 2}
KW = {("transition", T): {"edge_orders": [2, 1, 3]}, ("transition", K): {"edge_orders": [1, 2, 1, 1, 1, 2], "face_orders": [1, 3, 1, 1]}}
VARIANTS = ("lobatto", "legendre")
MOVED = {I: ((1,), (4,)), T: ((1, 2), (3, 1), (2, 5)), Q: ((1, 1), (4, 2), (2, 3), (5, 4)), K: ((1, 0, 2), (3, 1, 2), (2, 4, 1), (0, 1, 5)),
         H: ((1, 0, 0), (3, 1, 0), (1, 2, 1), (3, 3, 1), (0, 0, 4), (2, 1, 4), (0, 2, 5), (2, 3, 5)), PR: ((0, 0, 1), (2, 0, 0), (0, 3, 1), (1, 0, 4), (3, 0, 3), (1, 3, 4)),
         PY: ((1, 0, 0), (3, 0, 0), (1, 2, 0), (3, 2, 0), (2, 1, 4))}


def describe(e):
    """(what cannot be a term, terms)"""
    dofs, terms = [], []
    for d in getattr(e, "dofs", []):
        dofs.append((type(d).__name__, d.entity, d.mapping))
        try:
            terms += [sympy.sympify(i) for i in d.dof_point()] + [sympy.sympify(i) for i in (d.dof_direction() or ())]
        except Exception as err:  # noqa: BLE001 - not every functional has them
            dofs.append(type(err).__name__)
        for attr in ("f", "weight"):
            if hasattr(d, attr):
                try:
                    terms += harness.flat(getattr(d, attr))
                except Exception:  # noqa: BLE001
                    pass
    try:
        poly = e.get_polynomial_basis()
    except (NotImplementedError, ValueError):
        poly = e.get_basis_functions()
    for p in poly:
        f = p.get_function() if hasattr(p, "get_function") else p
        ps = getattr(f, "pieces", None)
        if ps is not None:
            for k, g in ps.items():
                terms += harness.flat(k.vertices if hasattr(k, "vertices") else k) + harness.flat(g)
        else:
            terms += harness.flat(f)
    return (type(e), e.name, e.order, e.space_dim, e.reference.name, tuple(dofs)), terms + harness.flat(e.reference.vertices)


def again(c, name, order, kw, vertices=None):
    """Making an element by any of its names, or from what it reports about itself, gives the same element."""
    rep = harness.Rep()
    what = f"{name} {order} on {c} {kw or ''} {vertices or ''}"
    names = DOC[RANGE[c, name][0]][0]

    def build(n):
        return create.create_element(cell_arg(c), n, order, **({"vertices": vertices} if vertices else {}), **kw)

    try:
        e = build(name)
    except Exception as err:  # noqa: BLE001
        if vertices and isinstance(err, symfem.references.NonDefaultReferenceError):
            return {"refused": 1}
        if "variant" in kw and isinstance(err, (TypeError, ValueError, KeyError, NotImplementedError)):  # this family has no such variant
            return {"refused": 1}
        raise smt.RealCodeFailure(f"{what}: real code raised {type(err).__name__}: {str(err)[:200]}", what) from err
    if e.order != order or e.reference.name != c or name not in e.names:
        rep.violate(f"{what}: is a {e.name} of order {e.order} on a {e.reference.name}", {}, what)
    if vertices and harness.differ(e.reference.vertices, vertices):
        rep.violate(f"{what}: is on {e.reference.vertices}", {}, what)
    if len(getattr(e, "dofs", [])) not in (0, e.space_dim):
        rep.violate(f"{what}: {len(e.dofs)} degrees of freedom for a space of dimension {e.space_dim}", {}, what)
    shape, terms = describe(e)

    def reported():
        n = cell_arg(c) if c == DP else e.reference.name
        return create.create_element(n, e.name, e.order, vertices=None if c == DP else e.reference.vertices, **e.init_kwargs())

    for label, make in [(f"as {n}", lambda n=n: build(n)) for n in names if n != name] + [("from what it reports", reported)]:
        try:
            e2 = make()
        except Exception as err:  # noqa: BLE001
            rep.violate(f"{what} made {label}: real code raised {type(err).__name__}: {err}", {}, f"{what} {label}")
            continue
        shape2, terms2 = describe(e2)
        if shape != shape2 or len(terms) != len(terms2):
            rep.info["obligations"] += 1
            rep.violate(f"{what} made {label}: {str(shape2)[:200]} instead of {str(shape)[:200]}", {}, f"{what} {label}")
            continue
        pairs = [(p, q) for p, q in zip(terms, terms2) if p != q]

        def replay(v, pairs=pairs):
            return harness.differ([harness.at(p, v) for p, _ in pairs], [harness.at(q, v) for _, q in pairs])

        rep.equal([p for p, _ in pairs] + [terms[0]], [q for _, q in pairs] + [terms2[0]], f"{what} made {label}", replay, key=f"{what} {label}")
    return rep.result()


def jobs(tier):
    out = []
    deep = tier == "thorough"
    for c in CELLS:
        for i in range(0, len(NAMES), 30):
            out.append((f"orders on {c}: {i}", admission, (c, NAMES[i:i + 30])))
    out += [("distinct", distinct, ()), ("added elements", added, ()), ("cells", cells, ())]
    for names, on in DOC:
        name = names[0]
        for c, (lo, hi) in on.items():
            top = min([lo + (5 if deep else 3)] + ([hi] if hi is not None else []) + [d[name, c] for d in (SLOW, HIGHEST) if (name, c) in d])
            if not deep and c == H:
                top = min(top, lo + 2, 2)
            if not deep and c == K:
                top = min(top, lo + 2)
            top = max(top, lo)
            kws = [dict(KW.get((name, c), {}))]
            for o in range(lo, top + 1):
                if (name, c) == ("Guzman-Neilan", K) and not deep:
                    continue
                out.append((f"{name} {o} on {c}", again, (c, name, o, kws[0])))
            o = min(lo + 1, top)
            for v in VARIANTS:
                if (name, c) != ("Guzman-Neilan", K):
                    out.append((f"{name} {o} on {c} {v}", again, (c, name, o, {**kws[0], "variant": v})))
            if c in MOVED and (name, c) not in (("Guzman-Neilan", K), ("Bernstein", K)):
                out.append((f"{name} {lo} on a moved {c}", again, (c, name, lo, kws[0], MOVED[c])))
    # all the interior degrees of freedom
    out.append(("TScurl 4 on hexahedron", again, (H, "trimmed serendipity Hcurl", 4, {})))
    return out


if __name__ == "__main__":
    runner.main(
        "C15", jobs, "other",
        "create_element, create_reference and add_element run on the real code with a symbolic integer order (comparisons fork the path), symbolic vertices and symbolic order limits, "
        "constructors replaced by stand-ins that note their arguments; z3 refutes integers for which acceptance differs from the documented range; elements made by every alias and from what "
        "they report about themselves are compared with the solver at all points",
        "all integer orders, for all pairs of 8 cells and 114 names, documented or not; all integer limits of added elements; all vertices of each cell in up to 3 dimensions; "
        "construction itself at the lowest 4 (6) orders of each family, three variants and a cell elsewhere",
        ["that a constructor is able to build every order admitted beyond those built", "names that are not in the list (a dozen undocumented ones are tried)",
         "Kong-Mulder-Veldhuizen elements above order 3 (triangle) and 2 (tetrahedron), which the constructor says are not implemented"],
        ["create_element", "create_reference", "add_element", "_order_is_allowed", "element constructors", "FiniteElement.init_kwargs", "FiniteElement.name"],
        "Acceptance of every integer order against the documented ranges.",
    )
