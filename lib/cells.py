"""Independent description of the reference cells and symbolic (affine) copies of them."""
import sympy

from .symexec import sym

DEFAULT = {
    "interval": [(0,), (1,)],
    "triangle": [(0, 0), (1, 0), (0, 1)],
    "quadrilateral": [(0, 0), (1, 0), (0, 1), (1, 1)],
    "tetrahedron": [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)],
    "hexahedron": [(0, 0, 0), (1, 0, 0), (0, 1, 0), (1, 1, 0), (0, 0, 1), (1, 0, 1), (0, 1, 1), (1, 1, 1)],
    "prism": [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (0, 1, 1)],
    "pyramid": [(0, 0, 0), (1, 0, 0), (0, 1, 0), (1, 1, 0), (0, 0, 1)],
}
TDIM = {"interval": 1, "triangle": 2, "quadrilateral": 2, "tetrahedron": 3, "hexahedron": 3, "prism": 3, "pyramid": 3}
# volume of the default cell
VOLUME = {
    "interval": sympy.Integer(1),
    "triangle": sympy.Rational(1, 2),
    "quadrilateral": sympy.Integer(1),
    "tetrahedron": sympy.Rational(1, 6),
    "hexahedron": sympy.Integer(1),
    "prism": sympy.Rational(1, 2),
    "pyramid": sympy.Rational(1, 3),
}


def affine(cell, gdim, tag="v"):
    """Symbolic affine copy: (vertices, origin, axes), vertex i = origin + sum_j ref_i[j] * axis_j.

    Vertices 0 and one per axis are free symbols, the remaining ones follow.
    """
    td = TDIM[cell]
    o = tuple(sym(f"{tag}o{j}") for j in range(gdim))
    ends = [tuple(sym(f"{tag}{'abc'[i]}{j}") for j in range(gdim)) for i in range(td)]
    axes = [tuple(e[j] - o[j] for j in range(gdim)) for e in ends]
    verts = []
    for r in DEFAULT[cell]:
        if sum(r) == 0:
            verts.append(o)
        elif sum(r) == 1:
            verts.append(ends[list(r).index(1)])
        else:
            verts.append(tuple(o[j] + sum(c * a[j] for c, a in zip(r, axes)) for j in range(gdim)))
    return tuple(verts), o, axes


def free(cell, gdim, tag="w"):
    return tuple(tuple(sym(f"{tag}{i}_{j}") for j in range(gdim)) for i in range(len(DEFAULT[cell])))


def det(axes):
    return sympy.Matrix([list(a) for a in axes]).det()


def gram(axes):
    return sympy.Matrix([[sum(p * q for p, q in zip(a, b)) for b in axes] for a in axes]).det()


def inside(cell, p):
    """sympy condition: p (tdim coordinates) lies in the closed default cell."""
    A = sympy.And
    x = list(p)
    if cell in ("interval", "quadrilateral", "hexahedron"):
        return A(*[c >= 0 for c in x], *[c <= 1 for c in x])
    if cell in ("triangle", "tetrahedron"):
        return A(*[c >= 0 for c in x], sum(x) <= 1)
    if cell == "prism":
        return A(*[c >= 0 for c in x], x[0] + x[1] <= 1, x[2] <= 1)
    if cell == "pyramid":
        return A(*[c >= 0 for c in x], x[0] + x[2] <= 1, x[1] + x[2] <= 1)
    raise ValueError(cell)


def strict_inside(cell, p):
    A = sympy.And
    x = list(p)
    if cell in ("interval", "quadrilateral", "hexahedron"):
        return A(*[c > 0 for c in x], *[c < 1 for c in x])
    if cell in ("triangle", "tetrahedron"):
        return A(*[c > 0 for c in x], sum(x) < 1)
    if cell == "prism":
        return A(*[c > 0 for c in x], x[0] + x[1] < 1, x[2] < 1)
    if cell == "pyramid":
        return A(*[c > 0 for c in x], x[0] + x[2] < 1, x[1] + x[2] < 1)
    raise ValueError(cell)


# vertex lists of the sub-entities in the documented numbering
ENT = {
    "interval": [[(0,), (1,)], [(0, 1)]],
    "triangle": [[(i,) for i in range(3)], [(1, 2), (0, 2), (0, 1)], [(0, 1, 2)]],
    "quadrilateral": [[(i,) for i in range(4)], [(0, 1), (0, 2), (1, 3), (2, 3)], [(0, 1, 2, 3)]],
    "tetrahedron": [[(i,) for i in range(4)], [(2, 3), (1, 3), (1, 2), (0, 3), (0, 2), (0, 1)],
                    [(1, 2, 3), (0, 2, 3), (0, 1, 3), (0, 1, 2)], [(0, 1, 2, 3)]],
    "hexahedron": [[(i,) for i in range(8)],
                   [(0, 1), (0, 2), (0, 4), (1, 3), (1, 5), (2, 3), (2, 6), (3, 7), (4, 5), (4, 6), (5, 7), (6, 7)],
                   [(0, 1, 2, 3), (0, 1, 4, 5), (0, 2, 4, 6), (1, 3, 5, 7), (2, 3, 6, 7), (4, 5, 6, 7)], [tuple(range(8))]],
    "prism": [[(i,) for i in range(6)],
              [(0, 1), (0, 2), (0, 3), (1, 2), (1, 4), (2, 5), (3, 4), (3, 5), (4, 5)],
              [(0, 1, 2), (0, 1, 3, 4), (0, 2, 3, 5), (1, 2, 4, 5), (3, 4, 5)], [tuple(range(6))]],
    "pyramid": [[(i,) for i in range(5)], [(0, 1), (0, 2), (0, 4), (1, 3), (1, 4), (2, 3), (2, 4), (3, 4)],
                [(0, 1, 2, 3), (0, 1, 4), (0, 2, 4), (1, 3, 4), (2, 3, 4)], [tuple(range(5))]],
}


def entity(cell, dim, n, vertices=None):
    """(kind, origin, axes) of a sub-entity, from the vertices of the cell."""
    vs = vertices or DEFAULT[cell]
    ids = ENT[cell][dim][n]
    kind = {(0, 1): "point", (1, 2): "interval", (2, 3): "triangle", (2, 4): "quadrilateral"}.get((dim, len(ids)), cell)
    p = [tuple(sympy.sympify(c) for c in vs[i]) for i in ids]
    ends = [p[i] for i in {"point": (), "interval": (1,), "triangle": (1, 2), "quadrilateral": (1, 2), "tetrahedron": (1, 2, 3),
                           "hexahedron": (1, 2, 4), "prism": (1, 2, 3), "pyramid": (1, 2, 4)}[kind]]
    return kind, p[0], [tuple(b - a for a, b in zip(p[0], e)) for e in ends]
