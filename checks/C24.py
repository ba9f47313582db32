"""C24: pictures place what they draw where it was asked for."""
import builtins
import os
import re
import sys
import tempfile
import types
import xml.etree.ElementTree as ET

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.realpath(__file__))))
from lib import boot, elem, harness, runner, smt, symexec  # noqa: E402,F401

import sympy  # noqa: E402
import z3  # noqa: E402

import symfem  # noqa: E402
from symfem import functions, plotting, references  # noqa: E402

guard, sym = harness.guard, harness.sym
symexec.install()
R = sympy.Rational


# ---------------------------------------------------------------- numbers that are terms
class Num:
    """Stands for float(e) of a symbolic term: prints as a token that is found again in the output."""

    table = []

    def __init__(self, e):
        self.e = sympy.sympify(e)
        self.k = len(Num.table)
        Num.table.append(self.e)

    def __repr__(self):
        return f"@{self.k}@"

    __str__ = __repr__

    def __format__(self, spec):
        return f"@{self.k}@"

    def _sympy_(self):
        return self.e

    def __float__(self):
        raise TypeError("a symbolic number")

    def __hash__(self):
        return hash(self.e)


def _op(name):
    def go(self, other):
        o = other.e if isinstance(other, Num) else sympy.sympify(other)
        return Num(getattr(self.e, name)(o))
    return go


for _n in ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__truediv__", "__rtruediv__", "__pow__"):
    setattr(Num, _n, _op(_n))
for _n in ("__lt__", "__le__", "__gt__", "__ge__"):
    setattr(Num, _n, (lambda name: lambda self, other: bool(getattr(self.e, name)(other.e if isinstance(other, Num) else other)))(_n))
Num.__neg__ = lambda self: Num(-self.e)
Num.__abs__ = lambda self: Num(abs(self.e))


class _Meta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (builtins.float, Num))


class RealFloat(metaclass=_Meta):
    """float() in the modules under test."""

    def __new__(cls, e=0):
        if isinstance(e, Num):
            return e
        s = e.as_sympy() if hasattr(e, "as_sympy") else e
        if symexec.is_sym(s):
            return Num(s)
        return builtins.float(e)


class Sympy(types.ModuleType):
    """sympy as the modules under test see it: numbers made from symbolic terms are the terms."""

    def __init__(self):
        super().__init__("sympy")

    def __getattr__(self, name):
        return getattr(sympy, name)

    @staticmethod
    def _keep(real):
        def go(e=0, *a):
            if isinstance(e, Num):
                return e.e
            return e if symexec.is_sym(e) else real(e, *a)
        return go


class Symbolic:
    """float and the number constructors pass symbolic terms through while active."""

    def __enter__(self):
        Num.table.clear()
        s = Sympy()
        s.Integer, s.Float = s._keep(sympy.Integer), s._keep(sympy.Float)
        self.mods = [(m, m.sympy) for m in (plotting, functions)]
        for m, _ in self.mods:
            m.float, m.sympy = RealFloat, s
        references.float = RealFloat

    def __exit__(self, *a):
        for m, real in self.mods:
            m.sympy = real
            if "float" in vars(m):
                del m.float
        if "float" in vars(references):
            del references.float


TOKEN = re.compile(r"@(\d+)@")
NUMBER = r"@\d+@|[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?"


def number(t):
    m = TOKEN.fullmatch(t.strip())
    if m:
        return Num.table[int(m.group(1))]
    return sympy.Float(t)


def numbers(t):
    return [number(i) for i in re.findall(NUMBER, t)]


# ---------------------------------------------------------------- reading what was written
def local(tag):
    return tag.rsplit("}", 1)[-1]


def side(v, h):
    return f"{v} {h}".strip() or "center"


def svg_side(n):
    """The point of the text that is put where asked for. Values that svg does not have are ignored by it, which leaves the defaults."""
    style = dict(re.findall(r"([\w-]+)\s*:\s*([^;]+?)\s*(?:;|$)", n.get("style") or ""))
    h = {"middle": "", "end": "east"}.get(style.get("text-anchor", n.get("text-anchor")), "west")
    v = style.get("dominant-baseline", n.get("dominant-baseline"))
    v = "" if v in ("middle", "central") else "north" if v in ("hanging", "text-before-edge", "text-top") else "south"
    return side(v, h)


def read_svg(text):
    """(width, height), shapes as (kind, [coordinates], label)."""
    root = ET.fromstring(text)
    size = (number(root.get("width")), number(root.get("height")))
    shapes = []
    for n in root.iter():
        k = local(n.tag)
        if k == "line":
            shapes.append(("line", [number(n.get(i)) for i in ("x1", "y1", "x2", "y2")], None))
        elif k == "path":
            shapes.append(("path", numbers(re.sub("[A-Za-z]", " ", n.get("d"))), None))
        elif k in ("polygon", "polyline"):
            shapes.append((k, numbers(n.get("points")), None))
        elif k == "circle":
            shapes.append(("circle", [number(n.get("cx")), number(n.get("cy"))], None))
        elif k == "text":
            shapes.append(("text", [number(n.get("x")), number(n.get("y"))], f"{n.text} at {svg_side(n)}"))
        elif k not in ("svg", "title", "desc", "metadata", "g", "defs"):
            raise smt.Inconclusive(f"svg element {k}")
    return size, shapes


def read_tikz(text):
    inner = text[text.index(r"\begin{tikzpicture}"):text.index(r"\end{tikzpicture}")]
    inner = re.sub(r"\\definecolor.*\n", "", inner.split("\n", 1)[1] if "\n" in inner else inner)
    shapes = []
    pair = re.compile(rf"\(\s*({NUMBER})\s*,\s*({NUMBER})\s*\)")
    for cmd in inner.split(";"):
        cmd = cmd.strip()
        if not cmd:
            continue
        co = [number(c) for p in pair.findall(cmd) for c in p]
        kind = re.match(r"\\(\w+)", cmd).group(1)
        if kind == "draw":
            kind = "circle" if "circle" in cmd else "path" if "controls" in cmd else "line"
        elif kind == "fill":
            kind = "polygon"
        elif kind == "node":
            kind = "text"
        else:
            raise smt.Inconclusive(f"tikz command {kind}")
        label = None
        if kind == "text":
            m = re.search(r"\{\\\w+\s*\$?([^${}]*)\$?\}$", cmd)
            label = m.group(1).strip() if m else None
            m = re.search(r"anchor\s*=\s*([a-z ]+)", cmd)
            label = f"{label} at {m.group(1).strip() if m else 'center'}"
        shapes.append((kind, co, label))
    return None, shapes


# ---------------------------------------------------------------- what is asked for
AXES = ((R(1), R(-2, 25)), (R(1, 2), R(1, 5)), (R(0), R(1)))


def flat2(p, axes):
    """The place in the plane of a point of any dimension."""
    p = [sympy.sympify(i) for i in p]
    if len(p) == 3:
        return tuple(sum(a[i] * c for a, c in zip(axes, p)) for i in (0, 1))
    return tuple(p[i] if i < len(p) else sympy.Integer(0) for i in (0, 1))


def add(img, item):
    kind, pts, label = item
    if kind == "line":
        img.add_line(*pts)
    elif kind == "bezier":
        img.add_bezier(*pts)
    elif kind == "arrow":
        img.add_arrow(*pts)
    elif kind == "ncircle":
        img.add_ncircle(pts[0], label)
    elif kind == "dof":
        img.add_dof_marker(pts[0], label, "red")
    elif kind == "plain dof":
        img.add_dof_marker(pts[0], label, "red", False)
    elif kind == "fill":
        img.add_fill(pts)
    elif kind == "math":
        img.add_math(pts[0], label)
    elif kind.startswith("math "):
        img.add_math(pts[0], label, anchor=kind[5:])


def wanted(item, fmt):
    """Shapes an item consists of: (kind, [points or None for any], label)."""
    kind, pts, label = item
    if kind == "line":
        return [("line", pts, None)]
    if kind == "bezier":
        return [("path", pts, None)]
    if kind == "arrow":
        return [("line", pts, None)] + ([("line", [None, pts[1]], None)] * 2 if fmt == "svg" else [])
    if kind in ("ncircle", "dof", "plain dof"):
        return [("circle", pts, None), ("text", pts, f"{label} at center")]
    if kind == "fill":
        return [("polygon", pts, None)]
    return [("text", pts, f"{label} at {kind[5:] or 'center'}")]


def picture(items, opts):
    o = dict(opts)
    o.setdefault("svg_metadata", "")
    o.setdefault("tex_comment", "")
    img = plotting.Picture(**o)
    for i in items:
        add(img, i)
    return img


def draw(items, opts, fmt, folder=None):
    img = picture(items, opts)
    if folder is None:
        text = img.as_svg() if fmt == "svg" else img.as_tikz()
    else:
        # by way of files, several at once
        names = [os.path.join(folder, f"p.{e}") for e in ("svg", "tex")]
        img.save(names)
        with open(names[0 if fmt == "svg" else 1]) as f:
            text = f.read()
    sc, h, w, _ = img.compute_scale("px" if fmt == "svg" else "cm", fmt == "svg")
    size, shapes = (read_svg if fmt == "svg" else read_tikz)(text)
    return sc, (w, h), size, shapes


def expected_shapes(items, fmt, axes):
    out = []
    for it in items:
        for kind, pts, label in wanted(it, fmt):
            out.append((kind, [None if p is None else flat2(p, axes) for p in pts], label))
    return out


def structure(shapes, want):
    """None or what differs that is not a coordinate."""
    if len(shapes) != len(want):
        return f"{len(shapes)} shapes drawn, {len(want)} expected"
    for (k, co, lab), (k2, pts, lab2) in zip(shapes, want):
        if k != k2 or len(co) != 2 * len(pts):
            return f"{k} with {len(co) // 2} points instead of {k2} with {len(pts)}"
        if lab2 is not None and lab != lab2:
            return f"label {lab!r} instead of {lab2!r}"
    return None


def drawn_points(shapes, want):
    """Pairs (asked for, drawn)."""
    out = []
    for (_, co, _), (_, pts, _) in zip(shapes, want):
        for i, p in enumerate(pts):
            if p is not None:
                out.append((p, (co[2 * i], co[2 * i + 1])))
    return out


def conditions(fmt, opts, sc, total, size, pairs):
    """Named lists of sympy facts: ('zero', e), ('nonneg', e), ('pos', e), ('some', [e...]) all must hold."""
    sign = -1 if fmt == "svg" else 1
    out = []
    p0, d0 = pairs[0]
    for p, d in pairs[1:]:
        out.append(("the horizontal distance of two points", "zero", (d[0] - d0[0]) - sc * (p[0] - p0[0])))
        out.append(("the vertical distance of two points", "zero", (d[1] - d0[1]) - sign * sc * (p[1] - p0[1])))
    unit = 1 if fmt == "svg" else R(1, 200)
    if "width" in opts or "height" in opts:
        i, name = (0, "width") if "width" in opts else (1, "height")
        ds = [p[i] - q[i] for p, _ in pairs for q, _ in pairs]
        want = opts[name] * unit
        # the extent of what is drawn, or the whole image, has the size asked for
        out.append((f"the {name} asked for", "some", [sc * d - want for d in ds] + [total[i] - want]))
        for d in ds:
            out.append((f"the {name} asked for is exceeded", "nonneg", want - sc * d))
    else:
        out.append(("the scale", "zero", sc - opts.get("scale", 450) * unit))
    out.append(("the sign of the scale", "pos", sc))
    if fmt == "svg":
        out.append(("the width written", "zero", size[0] - total[0]))
        out.append(("the height written", "zero", size[1] - total[1]))
        for p, d in pairs:
            for i in (0, 1):
                out.append(("a point outside the image", "nonneg", d[i]))
                out.append(("a point outside the image", "nonneg", size[i] - d[i]))
    return out


def negation(ctx, kind, e):
    if kind == "zero":
        return ctx.differs(sympy.expand(e) if not e.free_symbols else e, sympy.Integer(0))
    if kind == "nonneg":
        return ctx.real(e) < 0
    if kind == "pos":
        return ctx.real(e) <= 0
    return z3.And(*[ctx.differs(i, sympy.Integer(0)) for i in e])


def fails(kind, e):
    tol = 1e-7
    if kind == "some":
        return min(abs(builtins.float(i)) for i in e) > tol
    v = builtins.float(e)
    return abs(v) > tol if kind == "zero" else v < -tol if kind == "nonneg" else v <= 0


def at(v, vals):
    if isinstance(v, (list, tuple)):
        return type(v)(at(i, vals) for i in v)
    if isinstance(v, dict):
        return {k: at(i, vals) for k, i in v.items()}
    return v.subs(vals) if isinstance(v, sympy.Basic) else v


def concrete(items, opts, fmt, axes, folder, vals):
    items, opts, axes = at(items, vals), at(opts, vals), at(axes, vals)
    for k in ("scale", "width", "height"):
        if k in opts and not (opts[k] == int(opts[k])):
            raise smt.Inconclusive("not an integer")
    sc, total, size, shapes = draw(items, opts, fmt, folder)
    want = expected_shapes(items, fmt, axes)
    bad = structure(shapes, want)
    if bad:
        return bad
    for what, kind, e in conditions(fmt, opts, sc, total, size, drawn_points(shapes, want)):
        if fails(kind, e):
            return f"{what} is wrong in the {fmt} of {items} with {opts}"
    return None


SAMPLES = [[R(1), R(2), R(-3, 2), R(5), R(7, 3), R(0), R(11, 4), R(-1, 3), R(9, 2), R(3), R(-2), R(6), R(1, 5), R(8), R(-7, 2)],
           [R(0), R(-1), R(4), R(2, 3), R(-5), R(13, 6), R(1), R(1), R(-2), R(7), R(3, 8), R(-4), R(5), R(2), R(1, 9)]]


def layout(items, opts, fmt, axes=None, files=False, what=""):
    """All coordinates: one run of the drawing code per order of the coordinates."""
    rep = harness.Rep()
    opts = dict(opts)
    if axes is not None:
        opts["axes_3d"] = axes
    ax = axes or AXES
    free = set()

    def collect(v):
        if isinstance(v, (list, tuple)):
            for i in v:
                collect(i)
        elif isinstance(v, dict):
            collect(list(v.values()))
        elif isinstance(v, sympy.Basic):
            free.update(v.free_symbols)

    collect([items, opts])
    symbols = sorted(free, key=str)
    ints = [opts[k] for k in ("scale", "width", "height") if k in opts]
    tmp = tempfile.mkdtemp() if files else None
    n = [0]

    def run(vals):
        return concrete(items, opts, fmt, ax, tmp, {s: vals.get(s, R(1)) for s in symbols})

    replay = guard(run)
    # `sizes` are positive integers in concrete runs; the solver works with all positive ones
    ctx = smt.Ctx(ints=[s for s in ints if isinstance(s, sympy.Symbol)])
    assume = [ctx.real(s) > 0 for s in ints if isinstance(s, sympy.Symbol)]
    if isinstance(opts.get("padding"), sympy.Symbol):
        assume.append(ctx.real(opts["padding"]) >= 0)
    pts = [p for it in items for p in it[1]]
    if "width" in opts or "height" in opts:
        # a size can be given to what has an extent
        i = 0 if "width" in opts else 1
        f = [flat2(p, ax)[i] for p in pts]
        assume.append(z3.Or(*[ctx.real(a) != ctx.real(f[0]) for a in f[1:]]))

    def go():
        n[0] += 1
        return draw(items, opts, fmt, tmp)

    want = expected_shapes(items, fmt, ax)
    try:
        with Symbolic():
            _, paths = symexec.explore(go, ctx, assume)
            for p in paths:
                if p.error is not None and isinstance(p.error, smt.Inconclusive):
                    raise p.error
            done = [(p, at(p.value, {})) for p in paths]
    except smt.Inconclusive:
        done = None
    if done is None or any(p.error is not None for p, _ in done):
        # the code does something with the numbers that terms do not allow: concrete coordinates only
        for vs in SAMPLES:
            vals = {s: (sympy.Integer(200 + 7 * k) if s in ints or s == opts.get("padding") else vs[k % len(vs)]) for k, s in enumerate(symbols)}
            rep.info["obligations"] += 1
            bad = replay(vals)
            if bad:
                rep.violate(f"{what}: {bad}", vals)
                return rep.result()
        err = None if done is None else next(p.error for p, _ in done if p.error is not None)
        raise smt.Inconclusive(f"drawing cannot be followed with symbolic coordinates: {err!r}")
    for p, value in done:
        if rep.full():
            break
        rep.info["paths"] += 1
        sc, total, size, shapes = value
        bad = structure(shapes, want)
        if bad:
            rep.never(ctx, z3.And(*p.pc) if p.pc else z3.BoolVal(True), symbols, f"{what}: {bad}", replay, assume)
            continue
        neg = [negation(ctx, kind, e) for _, kind, e in conditions(fmt, opts, sc, total, size, drawn_points(shapes, want))]
        rep.info["compared"] = rep.info.get("compared", 0) + len(neg)
        rep.never(ctx, z3.And(z3.Or(*neg), *p.pc), symbols, what, replay, assume)
    return rep.result()


# ---------------------------------------------------------------- degree of freedom arrows
def record(fn, symbolic=True):
    """What fn draws on a picture: list of (kind, points)."""
    img = plotting.Picture()
    img.elements = []
    fn(img)
    out = []
    for e in img.elements:
        c = type(e).__name__
        if c in ("Line", "Arrow"):
            out.append((c, [e.start, e.end], getattr(e, "width", None)))
        elif c == "Bezier":
            out.append((c, [e.start, e.mid1, e.mid2, e.end], e.width))
        elif c == "NCircle":
            out.append((c, [e.centre], e.number))
        elif c == "Fill":
            out.append((c, list(e.vertices), None))
        else:
            out.append((c, list(e.points), None))
    return out


def t2(p):
    p = p.as_sympy() if hasattr(p, "as_sympy") else p
    return tuple(sympy.sympify(i) for i in p)


def dof_arrow(shifted, bold, dim):
    """An arrow of a degree of freedom starts at its marker, points along its direction and has the size asked for."""
    rep = harness.Rep()
    p, d = [sym(f"p{i}") for i in range(dim)], [sym(f"d{i}") for i in range(dim)]
    size = sym("size")
    what = f"arrow of a degree of freedom in {dim} dimensions (shifted {shifted}, bold {bold})"

    def run(p, d, size):
        img = plotting.Picture(dof_arrow_size=size)
        img.add_dof_arrow(tuple(p), tuple(d), 7, "red", shifted, bold)
        out = record(lambda im: None)
        for e in img.elements:
            c = type(e).__name__
            out.append((c, [t2(e.start), t2(e.end)] if c == "Arrow" else [t2(e.centre)], getattr(e, "number", None)))
        return out

    def facts(out, p, d, size):
        if [o[0] for o in out] != ["Arrow", "NCircle"] or out[1][2] != 7:
            return None
        s, e = out[0][1]
        c = out[1][1][0]
        q, v = flat2(p, AXES), flat2(d, AXES)
        a = [e[i] - s[i] for i in (0, 1)]
        n2 = v[0]**2 + v[1]**2
        fs = [("zero", a[0] * v[1] - a[1] * v[0]), ("nonneg", a[0] * v[0] + a[1] * v[1]), ("zero", (a[0]**2 + a[1]**2) - size**2 / 64)]
        fs += [("zero", c[i] - s[i]) for i in (0, 1)]
        if shifted:
            fs += [("zero", (s[0] - q[0]) * v[1] - (s[1] - q[1]) * v[0]), ("nonneg", (s[0] - q[0]) * v[0] + (s[1] - q[1]) * v[1])]
        else:
            fs += [("zero", s[i] - q[i]) for i in (0, 1)]
        return fs, n2

    def replay(mod):
        g = [[mod.get(i, R(1)) for i in v] for v in (p, d)]
        sz = sympy.sympify(mod.get(size, R(1)))
        f = facts(run(*g, sz), *g, sz)
        if f is None:
            return "does not draw an arrow and a marker"
        for kind, e in f[0]:
            if fails(kind, e):
                return f"wrong at {g[0]} with direction {g[1]}"
        return None

    out = run(p, d, size)
    f = facts(out, p, d, size)
    if f is None:
        rep.violate(f"{what}: " + (guard(replay)({}) or "?"))
        return rep.result()
    ctx = smt.Ctx()
    assume = [ctx.real(f[1]) > 0, ctx.real(size) > 0]
    for kind, e in f[0]:
        e = sympy.simplify(e) if kind == "zero" else e
        rep.never(ctx, negation(ctx, kind, e), [*p, *d, size], what, guard(replay), assume)
    return rep.result()


# ---------------------------------------------------------------- functions
T = sym("t")
X = elem.X


def graph(cell, degree, n):
    """The plot of a function: curves between the lattice points whose ends lie on the graph, with its slopes there."""
    rep = harness.Rep()
    ref = symfem.create_reference(cell)
    td = ref.tdim
    mons = [sympy.prod([X[i]**k[i] for i in range(td)]) for k in __import__("itertools").product(range(degree + 1), repeat=td) if sum(k) <= degree]
    co = [sym(f"c{i}") for i in range(len(mons))]
    scale = sym("scale")
    what = f"plot of a function on the {cell} with {n} points"

    def run(co, scale):
        f = functions.ScalarFunction(sum((c * m for c, m in zip(co, mons)), sympy.Integer(0)))
        got = []

        class Img(plotting.Picture):
            def add_bezier(self, *pts, **k):
                got.append([t2(p) if not isinstance(p, str) else None for p in pts[:4]])

        f.plot_values(ref, Img(), scale, n)
        return got

    def exact(v):
        return sympy.nsimplify(v, rational=True, tolerance=1e-12) if not symexec.is_sym(v) else v

    _, pairs = ref.make_lattice_with_lines(n)
    pts = ref.make_lattice_with_lines(n)[0]

    def facts(got, co, scale):
        if len(got) != len(pairs):
            return None
        f = sum((c * m for c, m in zip(co, mons)), sympy.Integer(0))
        out = []
        for (i, j), (s, m1, m2, e) in zip(pairs, got):
            a, b = pts[i], pts[j]
            z = scale * R(5, 8)
            for pt, q in ((a, s), (b, e)):
                out += [q[k] - pt[k] for k in range(td)]
            # every point of the curve lies on the graph
            c = [(1 - T)**3 * s[k] + 3 * (1 - T)**2 * T * m1[k] + 3 * (1 - T) * T**2 * m2[k] + T**3 * e[k] for k in range(td + 1)]
            on = [sympy.expand(i) for i in c[:td]]
            h = sympy.expand(c[td] - z * f.subs(dict(zip(X[:td], on)), simultaneous=True))
            out += sympy.Poly(h, T).coeffs()
        return out

    def replay(mod):
        c = [mod.get(i, R(1)) for i in co]
        sc = mod.get(scale, R(1))
        f = facts(run(c, sc), c, sc)
        if f is None:
            return f"number of curves is not {len(pairs)}"
        bad = [i for i in f if abs(builtins.float(i)) > 1e-7]
        return f"{len(bad)} coordinates are off the graph" if bad else None

    with Symbolic():
        got = run(co, scale)
        got = [[tuple(sympy.nsimplify(c, rational=True, tolerance=1e-12) for c in p) for p in b] for b in got]
    f = facts(got, co, scale)
    if f is None:
        rep.violate(f"{what}: " + (guard(replay)({}) or "?"))
        return rep.result()
    rep.equal([sympy.expand(i) for i in f], [0] * len(f), what, guard(replay), symbols=[*co, scale])
    return rep.result()


def arrows(cell, degree, n):
    """The plot of a vector function: an arrow at each lattice point along the value there, in proportion to it."""
    rep = harness.Rep()
    ref = symfem.create_reference(cell)
    td = ref.tdim
    mons = [sympy.prod([X[i]**k[i] for i in range(td)]) for k in __import__("itertools").product(range(degree + 1), repeat=td) if sum(k) <= degree]
    co = [[sym(f"c{d}_{i}") for i in range(len(mons))] for d in range(td)]
    allco = [c for row in co for c in row]
    scale = sym("scale")
    what = f"plot of a vector function on the {cell} with {n} points"
    pts = ref.make_lattice(n)

    def run(co, scale):
        f = functions.VectorFunction([sum((c * m for c, m in zip(row, mons)), sympy.Integer(0)) for row in co])
        got = []

        class Img(plotting.Picture):
            def add_arrow(self, s, e, *a, **k):
                got.append((t2(s), t2(e)))

        f.plot_values(ref, Img(), scale, n)
        return got

    def facts(got, co, scale):
        if len(got) != len(pts):
            return None
        out = []
        for pt, (s, e) in zip(pts, got):
            sub = dict(zip(X[:td], pt))
            for k in range(td):
                v = sum((c * m.subs(sub) for c, m in zip(co[k], mons)), sympy.Integer(0))
                out += [s[k] - pt[k], (e[k] - s[k]) - scale * v / 4]
        return out

    def replay(mod):
        c = [[mod.get(i, R(1)) for i in row] for row in co]
        sc = mod.get(scale, R(1))
        f = facts(run(c, sc), c, sc)
        if f is None:
            return f"number of arrows is not {len(pts)}"
        bad = [i for i in f if abs(builtins.float(i)) > 1e-7]
        return f"{len(bad)} coordinates are wrong" if bad else None

    with Symbolic():
        got = run(co, scale)
        got = [tuple(tuple(sympy.nsimplify(c, rational=True, tolerance=1e-12) for c in p) for p in b) for b in got]
    f = facts(got, co, scale)
    if f is None:
        rep.violate(f"{what}: " + (guard(replay)({}) or "?"))
        return rep.result()
    rep.equal([sympy.expand(i) for i in f], [0] * len(f), what, guard(replay), symbols=[*allco, scale])
    return rep.result()


# ---------------------------------------------------------------- diagrams
DIM_COLOR = {0: plotting.Colors.ORANGE, 1: plotting.Colors.BLUE, 2: plotting.Colors.GREEN, 3: plotting.Colors.PURPLE}
C = plotting.Colors


def recorder(real=plotting.Picture):
    """A picture that keeps what it is asked to draw."""
    got = []

    class Img(real):
        def __init__(self, **k):
            got.append(("options", k))
            super().__init__(**k)

        def add_line(self, s, e, color=C.BLACK, width=4.0):
            got.append(("line", t2(s), t2(e), color))

        def add_fill(self, vs, color="red", opacity=1.0):
            got.append(("fill", [t2(v) for v in vs], color))

        def add_dof_arrow(self, p, d, n, color=C.PURPLE, shifted=False, bold=True):
            got.append(("dof", t2(p), t2(d), n, color, builtins.bool(shifted)))

        def add_dof_marker(self, p, n, color=C.PURPLE, bold=True):
            got.append(("dof", t2(p), None, n, color, False))

        def save(self, *a, **k):
            got.append(("save", a, k))

    return got, Img


def outline(got, ref, color, extra, only=None):
    """Is every edge of the cell drawn once, in the colour asked for?  Is every fill a polygon with the edges of a face?"""
    V = [t2(v) for v in ref.vertices]
    lines = [g for g in got if g[0] == "line"]
    for i, e in enumerate(ref.edges):
        ends = {V[k] + extra for k in e}
        c = [g[3] for g in lines if {g[1], g[2]} == ends]
        if c != [color(i)]:
            return f"edge {i} is drawn in {c}, expected {color(i)} once"
    return f"{len(lines)} lines for {len(ref.edges)} edges" if len(lines) != len(ref.edges) else None


def polygon(ref, vs, face, extra):
    V = [t2(v) + extra for v in ref.vertices]
    if len(vs) != len(face) or set(vs) != {V[k] for k in face}:
        return False
    es = [{V[k] for k in e} for e in ref.edges]
    return all({vs[i], vs[i - 1]} in es for i in range(len(vs)))


def diagram(cell, fam, order):
    """DOF diagrams: the cell, and each degree of freedom once, at its position, along its direction, aside where two share a position."""
    import symfem.finite_element as fe

    rep = harness.Rep()
    what = f"diagram of {cell} {fam} {order}"
    base = symfem.create_element(cell, fam, order)
    n, td = base.space_dim, base.reference.tdim
    has = [d is not None for d in base.dof_directions()]
    ents = list(base.dof_entities())
    P = [[sym(f"p{i}_{k}") for k in range(td)] for i in range(n)]
    D = [[sym(f"d{i}_{k}") for k in range(td)] if has[i] else None for i in range(n)]
    sy = [c for r in P for c in r] + [c for r in D if r for c in r]

    def run(P, D):
        e = symfem.create_element(cell, fam, order)
        e.dof_plot_positions = lambda: [tuple(p) for p in P]
        e.dof_directions = lambda: [None if d is None else tuple(d) for d in D]
        got, img = recorder()
        old = fe.Picture
        fe.Picture = img
        try:
            e.plot_dof_diagram("a.svg", {"svg": {"x": 1}}, padding=7)
        finally:
            fe.Picture = old
        return got

    def wrong(got, same, P, D):
        """None, or a text."""
        ref = base.reference
        w = outline(got, ref, lambda i: C.BLACK, ())
        if w:
            return w
        fills = [g for g in got if g[0] == "fill"]
        if td >= 2 and (len(fills) != len(ref.faces) or not all(any(polygon(ref, g[1], f, ()) for g in fills) for f in ref.faces)):
            return f"the faces are drawn as {[g[1] for g in fills]}"
        ds = [g for g in got if g[0] == "dof"]
        if sorted(g[3] for g in ds) != list(range(n)):
            return f"the degrees of freedom {[g[3] for g in ds]} are drawn"
        for g in ds:
            i = g[3]
            want = ("dof", t2(P[i]), None if D[i] is None else t2(D[i]), i, DIM_COLOR[ents[i][0]], D[i] is not None and same(i))
            if g != want:
                return f"{g[1:]} is drawn, expected {want[1:]}"
        if got[0] != ("options", {"padding": 7}) or got[-1][0] != "save" or got[-1][1][:1] != ("a.svg",) or got[-1][2].get("plot_options") != {"svg": {"x": 1}}:
            return f"options or file are {got[0]}, {got[-1]}"
        return None

    def replay(m):
        p = [[m.get(c, R(0)) for c in r] for r in P]
        d = [None if r is None else [m.get(c, R(0)) for c in r] for r in D]
        same = lambda i: any(i != j and p[i] == p[j] for j in range(n))
        q = [[R(2 * i + 1, 5 + k) for k in range(td)] for i in range(n)]
        b = [None if r is None else [R(i + 3, 7 + k) for k in range(td)] for i, r in enumerate(D)]
        return wrong(run(p, d), same, p, d) or wrong(run(q, b), lambda i: False, q, b)

    ctx = smt.Ctx()
    eq = [[z3.And(*[ctx.real(a) == ctx.real(b) for a, b in zip(P[i], P[j])]) for j in range(n)] for i in range(n)]
    share = [z3.Or(*[eq[i][j] for j in range(n) if j != i], z3.BoolVal(False)) for i in range(n)]
    _, paths = symexec.explore(lambda: run(P, D), ctx, [], max_paths=600)
    rep.info["paths"] = rep.info.get("paths", 0) + len(paths)
    for p in paths:
        if p.error is not None:
            raise p.error
        w = wrong(p.value, lambda i: [g for g in p.value if g[0] == "dof" and g[3] == i][0][5], P, D)
        if w is not None:
            bad = z3.And(*p.pc, z3.BoolVal(True))
        else:
            bad = z3.And(*p.pc, z3.Or(*[z3.Not(share[g[3]]) if g[5] else share[g[3]] for g in p.value if g[0] == "dof" and has[g[3]]], z3.BoolVal(False)))
        rep.never(ctx, bad, sy, what, guard(replay))
        if rep.full():
            break
    return rep.result()


def plotted(cell, fam, order, entity):
    """Plot of a function: the cell with the sub-entity picked out, the values once with the scale asked for, the marker of its degree of freedom."""
    rep = harness.Rep()
    base = symfem.create_element(cell, fam, order)
    ref = base.reference
    td = ref.tdim
    scalar = base.range_dim == 1
    extra = (sympy.Integer(0),) if scalar else ()
    point, direction, scale = [sym(f"p{k}") for k in range(td)], [sym(f"d{k}") for k in range(td)], sym("scale")
    for what, arrow in (("marker", False), ("arrow", True), ("nothing", None)):
        f = functions.ScalarFunction(X[0]) if scalar else functions.VectorFunction(X[:td])

        def run(pt, dr, sc, f=f, arrow=arrow):
            got, img = recorder()
            old, plotting.Picture = plotting.Picture, img
            f.plot_values = lambda r, i, v=1, *a, **k: got.append(("values", r, isinstance(i, img), sympy.sympify(k.get("value_scale", v))))
            try:
                f.plot(ref, "b.svg", None if arrow is None else tuple(pt), tuple(dr) if arrow else None, entity, 3, sc, {"tikz": {}}, padding=5)
            finally:
                plotting.Picture = old
            return got

        def wrong(got, pt, dr, sc, arrow=arrow):
            w = outline(got, ref, lambda i: C.BLUE if entity == (1, i) else C.GRAY, extra)
            if w:
                return w
            fills = [g for g in got if g[0] == "fill"]
            if entity is not None and entity[0] == 2:
                if len(fills) != 1 or fills[0][2] != C.BLUE or not polygon(ref, fills[0][1], ref.faces[entity[1]], extra):
                    return f"face {entity[1]} is drawn as {fills}"
            elif fills and (entity is None or entity[0] < 2):
                return f"{fills} is drawn"
            vals = [g for g in got if g[0] == "values"]
            if len(vals) != 1 or vals[0][1] is not ref or not vals[0][2] or vals[0][3] != sc:
                return f"the values are drawn {len(vals)} times: {vals}"
            ds = {g[:5] for g in got if g[0] == "dof"}
            want = set() if arrow is None else {("dof", tuple(pt) + extra, tuple(dr) + extra if arrow else None, 3, C.PURPLE)}
            if ds != want:
                return f"{ds} is drawn, expected {want}"
            if got[0] != ("options", {"padding": 5}) or got[-1][0] != "save" or got[-1][1][:1] != ("b.svg",) or got[-1][2].get("plot_options") != {"tikz": {}}:
                return f"options or file are {got[0]}, {got[-1]}"
            return None

        ctx = smt.Ctx()
        _, paths = symexec.explore(lambda: run(point, direction, scale), ctx, [], max_paths=50)
        rep.info["paths"] = rep.info.get("paths", 0) + len(paths)

        def replay(m, run=run, wrong=wrong):
            a = [m.get(c, R(1)) for c in point], [m.get(c, R(1)) for c in direction], m.get(scale, R(1))
            b = [R(1, k + 5) for k in range(td)], [R(k + 3, 7) for k in range(td)], R(13, 11)
            return wrong(run(*a), *a) or wrong(run(*b), *b)

        for p in paths:
            if p.error is not None:
                raise p.error
            w = wrong(p.value, point, direction, scale)
            rep.never(ctx, z3.And(*p.pc, z3.BoolVal(w is not None)), [*point, *direction, scale], f"function on the {cell} with {what} at {entity}", guard(replay))
            if rep.full():
                return rep.result()
    return rep.result()


def basis_plot(cell, fam, order):
    """Plots of basis functions: that function, its own degree of freedom, and a scale that brings the largest value at the lattice to one."""
    rep = harness.Rep()
    e = symfem.create_element(cell, fam, order)
    what = f"basis function of {cell} {fam} {order}"
    bs = e.get_basis_functions()
    top = sympy.Integer(0)
    for p in e.reference.make_lattice(6):
        for b in bs:
            v = harness.flat(b.subs(X, p))
            top = max(top, sum(sympy.sympify(c)**2 for c in v))
    cells_ = [None]
    if not hasattr(e, "dofs") and fam != "direct serendipity":
        V = e.reference.vertices
        cells_.append(symfem.create_reference(cell, tuple(tuple(2 * c + 1 for c in v) for v in V)))
    for c in cells_:
        for n in range(e.space_dim):
            got = []

            def plot(self, *a, **k):
                got.append((self, a, k))

            old = functions.AnyFunction.plot
            functions.AnyFunction.plot = plot
            try:
                e.plot_basis_function(n, "c.svg", c, padding=2)
            finally:
                functions.AnyFunction.plot = old
            rep.info["obligations"] += 1
            if len(got) != 1:
                rep.violate(f"{what} {n}: {len(got)} plots")
                return rep.result()
            f, a, k = got[0]
            g = (bs if c is None else e.map_to_cell(c.vertices))[n]
            d = e.dofs[n] if hasattr(e, "dofs") else None
            want = (None, None, None) if d is None else (d.dof_point(), d.dof_direction(), d.entity)
            if a[0] != (e.reference if c is None else c) or a[1] != "c.svg" or tuple(a[2:5]) != want or a[5] != n or k != {"padding": 2}:
                rep.violate(f"{what} {n}: plotted with {a[1:6]}, {k}; expected {want}")
            rep.equal(harness.flat(f), harness.flat(g), f"{what} {n}", guard(lambda m, f=f, g=g, n=n: f"{harness.flat(f)} is plotted as function {n}, which is {harness.flat(g)}"), symbols=X[:e.reference.tdim])
            gap = sympy.N(a[6]**2 * top - 1, 30)
            rep.never(smt.Ctx(), z3.BoolVal(builtins.bool(abs(gap) > R(1, 10**9))), [], f"{what} {n} scale",
                      guard(lambda m, n=n, a=a: f"function {n} is scaled by {a[6]}, the largest norm is the root of {top}"))
            if rep.full():
                return rep.result()
    return rep.result()


def entities(cell, vertices):
    """Diagrams of a cell: for each dimension a copy of the cell with every sub-entity of that dimension numbered at its midpoint."""
    rep = harness.Rep()
    ref = symfem.create_reference(cell, vertices) if vertices else symfem.create_reference(cell)
    ctx = smt.Ctx()
    sy = sorted(set().union(*[sympy.sympify(c).free_symbols for v in ref.vertices for c in v]), key=str)

    def run(ref):
        got, img = recorder()

        class Img(img):
            def add_ncircle(self, p, n, color="red", *a, **k):
                got.append(("circle", t2(p), n, color))

        old, plotting.Picture = plotting.Picture, Img
        try:
            ref.plot_entity_diagrams("e.svg", {"svg": {}}, padding=3)
        finally:
            plotting.Picture = old
        return got

    def facts(got, ref):
        """Text of what is wrong, or pairs that must be equal."""
        V = [t2(v) for v in ref.vertices]
        subs = [[(i,) for i in range(len(V))], ref.edges, ref.faces, ref.volumes][:ref.tdim + 1]
        circles = [g for g in got if g[0] == "circle"]
        mean = lambda pts: [sum(p[k] for p in pts) / R(len(pts)) for k in range(ref.gdim)]
        pairs, moved = [], []
        for d, ents in enumerate(subs):
            mine = {g[2]: g[1] for g in circles if g[3] == DIM_COLOR[d]}
            if sorted(g[2] for g in circles if g[3] == DIM_COLOR[d]) != list(range(len(ents))):
                return f"entities of dimension {d} are numbered {sorted(mine)}", []
            t = [a - b / 2 for a, b in zip(mine[0], mean([V[i] for i in ents[0]]))]
            moved.append(t2(sympy.expand(c) for c in t))
            for n, e in enumerate(ents):
                pairs += [(a, b / 2 + c) for a, b, c in zip(mine[n], mean([V[i] for i in e]), t)]
        lines = [g for g in got if g[0] == "line"]
        if len(lines) != len(ref.edges) * (ref.tdim + 1):
            return f"{len(lines)} lines", []
        want = [{t2(sympy.expand(a / 2 + b) for a, b in zip(V[i], t)) for i in e} for t in moved for e in ref.edges]
        have = [{t2(sympy.expand(c) for c in g[1]), t2(sympy.expand(c) for c in g[2])} for g in lines]
        if any(have.count(w) != 1 for w in want):
            return "the edges are not each drawn once for each dimension", []
        if len(set(moved)) < len(moved):
            return "two dimensions are drawn over each other", []
        if got[0] != ("options", {"padding": 3}) or got[-1][0] != "save" or got[-1][1][:1] != ("e.svg",) or {"svg": {}} not in (*got[-1][1], *got[-1][2].values()):
            return f"options or file are {got[0]}, {got[-1]}", []
        return None, pairs

    def replay(m):
        vs = tuple(tuple(harness.at(c, m) for c in v) for v in ref.vertices)
        r = symfem.create_reference(cell, vs) if vertices else ref
        w, pairs = facts(run(r), r)
        return w or next((f"{a} in place of {b} in the diagram of {cell} {vs}" for a, b in pairs if sympy.simplify(a - b) != 0), None)

    _, paths = symexec.explore(lambda: run(ref), ctx, [], max_paths=50)
    rep.info["paths"] = rep.info.get("paths", 0) + len(paths)
    for p in paths:
        if p.error is not None:
            raise p.error
        w, pairs = facts(p.value, ref)
        if w:
            rep.never(ctx, z3.And(*p.pc, z3.BoolVal(True)), sy, f"diagram of {cell}: {w}", guard(replay))
        else:
            rep.equal([a for a, _ in pairs], [b for _, b in pairs], f"diagram of {cell}", guard(replay), symbols=sy)
    return rep.result()


def pieces(tdim):
    """Plot of a piecewise function: each piece is plotted on its own cell with the scale asked for."""
    from symfem.piecewise_functions import PiecewiseFunction

    rep = harness.Rep()
    scale = sym("scale")
    cells_ = {1: [((0,), (R(1, 2),)), ((R(1, 2),), (1,))], 2: [((0, 0), (1, 0), (0, 1)), ((1, 0), (1, 1), (0, 1))],
              3: [((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)), ((1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1))]}[tdim]
    if tdim == 2:
        cells_.append(((1, 0), (2, 0), (1, 1), (2, 1)))
    f = PiecewiseFunction({c: X[0] + i for i, c in enumerate(cells_)}, tdim)
    got = []
    old = functions.ScalarFunction.plot_values
    img = plotting.Picture()
    functions.ScalarFunction.plot_values = lambda self, r, i, v=1, *a, **k: got.append((self, r, i, k.get("value_scale", v)))
    try:
        f.plot_values(symfem.create_reference({1: "interval", 2: "triangle", 3: "tetrahedron"}[tdim]), img, scale)
    finally:
        functions.ScalarFunction.plot_values = old
    rep.info["obligations"] += 1
    if sorted(sorted(t2(v) for v in g[1].vertices) for g in got) != sorted(sorted(t2(R(c) for c in v) for v in vs) for vs in cells_) or any(g[2] is not img for g in got):
        rep.violate(f"pieces on {cells_} are plotted on {[g[1].vertices for g in got]}")
        return rep.result()
    for g in got:
        i = next(i for i, c in enumerate(cells_) if {t2(R(x) for x in v) for v in c} == {t2(v) for v in g[1].vertices})
        rep.equal([*harness.flat(g[0]), sympy.sympify(g[3])], [X[0] + i, scale], f"piece {i}", guard(lambda m, g=g, i=i: f"{g[0]} is plotted at scale {g[3]} on piece {i} of {f}"), symbols=[X[0], scale])
    return rep.result()


# ---------------------------------------------------------------- jobs
def P(name, dim):
    return tuple(sym(f"{name}{i}") for i in range(dim))


def items_of(kind, dim):
    a, b, c, d = (P(n, dim) for n in "abcd")
    return {
        "line": [("line", [a, b], None)],
        "arrow": [("arrow", [(R(1, 3),) * dim, a], None)],
        "bezier": [("bezier", [a, b, c, a], None)],
        "fill": [("fill", [a, b, c], None)],
        "dots": [("ncircle", [a], 3), ("dof", [b], 12), ("plain dof", [b], 4)],
        "label": [("math", [a], "x"), ("line", [b, a], None)],
        "several": [("line", [a, b], None), ("ncircle", [b], 5), ("math", [(R(2),) * dim], "y"), ("fill", [a, b, (R(0),) * dim], None)],
        "curve": [("line", [(R(0),) * dim, (R(1),) * dim], None), ("bezier", [(R(0),) * dim, a, b, (R(1),) * dim], None)],
    }[kind]


def jobs(tier):
    out = []
    opts = {"default": {}, "padding": {"padding": sym("pad")}, "scale": {"scale": sym("scale")}, "width": {"width": sym("size"), "padding": sym("pad")},
            "height": {"height": sym("size")}}
    kinds = ["line", "bezier", "fill", "dots", "label", "several", "curve"]
    for kind in kinds:
        for o in opts:
            for fmt in ("svg", "tikz"):
                if tier == "quick" and o == "padding" and kind not in ("line", "fill", "curve"):
                    continue
                if tier == "quick" and (kind, o) in (("curve", "width"), ("several", "width"), ("several", "height"), ("curve", "height")):
                    continue
                w = f"{kind} with {o} as {fmt}"
                out.append((w, layout, (items_of(kind, 2), opts[o], fmt, None, False, w)))
    for kind in ("line", "label", "fill"):
        for fmt in ("svg", "tikz"):
            w = f"{kind} in one dimension as {fmt}"
            out.append((w, layout, (items_of(kind, 1), {}, fmt, None, False, w)))
            w = f"{kind} in three dimensions as {fmt}"
            out.append((w, layout, (items_of(kind, 3), {}, fmt, None, False, w)))
    w = "points of different dimensions"
    for fmt in ("svg", "tikz"):
        out.append((f"{w} as {fmt}", layout, ([("line", [P("a", 1), P("b", 2)], None), ("ncircle", [()], 1), ("math", [P("c", 3)], "z")], {}, fmt, None, False, w)))
    for anchor in ("center", "north", "south", "east", "west", "north east", "north west", "south east", "south west"):
        for fmt in ("svg", "tikz"):
            w = f"label with its {anchor} at a point as {fmt}"
            out.append((w, layout, ([(f"math {anchor}", [P("a", 2)], "x"), ("line", [(R(0), R(0)), P("b", 2)], None)], {}, fmt, None, False, w)))
    axes = tuple(P(f"ax{i}_", 2) for i in range(3))
    for fmt in ("svg", "tikz"):
        w = f"line with other axes as {fmt}"
        out.append((w, layout, ([("line", [(R(1), R(2), R(-1)), (R(0), R(3), R(2))], None)], {}, fmt, axes, False, w)))
        w = f"line, dot and label to several files as {fmt}"
        out.append((w, layout, (items_of("several", 2), {"scale": sym("scale")}, fmt, None, True, w)))
        w = f"arrow as {fmt}"
        out.append((w, layout, ([("arrow", [(R(1, 3), R(1, 2)), (R(4, 3), R(1, 4))], None), ("ncircle", [P("a", 2)], 2)], {}, fmt, None, False, w)))
    for dim in (2, 3):
        for shifted in (False, True):
            for bold in (True, False):
                w = f"dof arrow {dim} {shifted} {bold}"
                out.append((w, dof_arrow, (shifted, bold, dim)))
    for cell, deg, n in [("interval", 3, 6), ("triangle", 2, 4), ("quadrilateral", 2, 4)] + ([("triangle", 3, 6), ("quadrilateral", 3, 6)] if tier == "thorough" else []):
        out.append((f"graph on {cell} {deg} {n}", graph, (cell, deg, n)))
    for cell, deg, n in [("triangle", 2, 4), ("quadrilateral", 2, 4), ("tetrahedron", 1, 3), ("hexahedron", 1, 3)] + ([("triangle", 3, 6)] if tier == "thorough" else []):
        out.append((f"arrows on {cell} {deg} {n}", arrows, (cell, deg, n)))
    for cell, dim, n in (("interval", 1, 2), ("triangle", 2, 3), ("quadrilateral", 2, 4), ("tetrahedron", 3, 4), ("hexahedron", 3, 8), ("prism", 3, 6), ("pyramid", 3, 5)):
        out.append((f"entities of the {cell}", entities, (cell, tuple(tuple(sym(f"v{i}_{k}") for k in range(dim)) for i in range(n)))))
    for cell in ("dual polygon(4)", "dual polygon(5)"):
        out.append((f"entities of the {cell}", entities, (cell, None)))
    for d in (1, 2, 3):
        out.append((f"pieces in dimension {d}", pieces, (d,)))
    for c in DIAGRAMS:
        out.append((f"diagram {c[0]} {c[1]} {c[2]}", diagram, c))
    for c in (("interval", "Lagrange", 1), ("triangle", "Lagrange", 1), ("quadrilateral", "Q", 1), ("triangle", "RT", 1), ("quadrilateral", "Qdiv", 1),
              ("tetrahedron", "RT", 1), ("hexahedron", "Qcurl", 1), ("prism", "Nedelec", 1)):
        ref = symfem.create_reference(c[0])
        ents = [None] + [(d, i) for d in range(min(ref.tdim, 2) + 1) for i in range(ref.sub_entity_count(d))]
        for e in ents if tier == "thorough" or ref.tdim < 3 else ents[:1] + ents[-3:]:
            out.append((f"plotted {c[0]} {c[1]} {e}", plotted, (*c, e)))
    for c in (("interval", "Lagrange", 3), ("triangle", "Lagrange", 2), ("triangle", "RT", 2), ("quadrilateral", "Qcurl", 1), ("triangle", "enriched vector Galerkin", 1),
              ("quadrilateral", "enriched vector Galerkin", 1), ("quadrilateral", "direct serendipity", 1), ("tetrahedron", "Nedelec", 1)):
        out.append((f"basis {c[0]} {c[1]} {c[2]}", basis_plot, c))
    return out


DIAGRAMS = [("interval", "Lagrange", 1), ("triangle", "Lagrange", 1), ("triangle", "RT", 1), ("triangle", "Lagrange", 2), ("quadrilateral", "Q", 1), ("quadrilateral", "Qdiv", 1),
            ("interval", "Hermite", 3), ("interval", "Lagrange", 4), ("triangle", "vector Lagrange", 0), ("tetrahedron", "RT", 1), ("tetrahedron", "Lagrange", 0), ("hexahedron", "Q", 0), ("pyramid", "Lagrange", 0)]


if __name__ == "__main__":
    runner.main(
        "C24", jobs, "other",
        "the drawing code runs on pictures whose coordinates, padding, scale and size are symbols (float() keeps terms and prints them as tokens), forked on every "
        "comparison of coordinates; z3 refutes values for which a coordinate read back from the written svg or tikz text is not the affine image of the one asked for, "
        "lies outside the image, or the size is not the one requested",
        "pictures of up to four items (lines, curves, dots, filled triangles, labels, arrows), points in one to three dimensions, default and other axes; "
        "functions of degree up to 3 on intervals, triangles and quadrilaterals with symbolic coefficients; diagrams of thirteen elements with symbolic "
        "positions and directions of degrees of freedom, plots with symbolic points, directions and scales on seven cells, plots of basis functions of eight elements, "
        "diagrams of all seven cells with symbolic vertices and of two dual polygons",
        ["floating point numbers are taken as exact", "png output needs a package that is not installed", "heads of arrows"],
        ["Picture.compute_scale", "Picture.as_svg", "Picture.as_tikz", "Picture.save", "Picture.add_*", "PictureElement.as_svg", "PictureElement.as_tikz",
         "ScalarFunction.plot_values", "VectorFunction.plot_values", "AnyFunction.plot", "PiecewiseFunction.plot_values", "Reference.plot_entity_diagrams", "FiniteElement.plot_dof_diagram", "FiniteElement.plot_basis_function"],
        "Layout of pictures in both text formats, arrows of degrees of freedom, plots of functions and diagrams of elements and cells.",
    )
