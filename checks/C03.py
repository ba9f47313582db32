"""C03: elements are conforming."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.realpath(__file__))))
from lib import boot, cells, elem, elements, harness, runner, smt, symexec  # noqa: E402,F401

import sympy  # noqa: E402

from symfem.finite_element import FiniteElement  # noqa: E402,F401
from symfem.piecewise_functions import PiecewiseFunction  # noqa: E402

guard, differ = harness.guard, harness.differ
symexec.install()
X = elem.X
S = [symexec.sym("s"), symexec.sym("t")]

# facets as vertex lists, in the library's documented numbering (sub-entities ordered by their vertex numbers)
FACETS = {
    "interval": [(0,), (1,)],
    "triangle": [(1, 2), (0, 2), (0, 1)],
    "quadrilateral": [(0, 1), (0, 2), (1, 3), (2, 3)],
    "tetrahedron": [(1, 2, 3), (0, 2, 3), (0, 1, 3), (0, 1, 2)],
    "hexahedron": [(0, 1, 2, 3), (0, 1, 4, 5), (0, 2, 4, 6), (1, 3, 5, 7), (2, 3, 6, 7), (4, 5, 6, 7)],
    "prism": [(0, 1, 2), (0, 1, 3, 4), (0, 2, 3, 5), (1, 2, 4, 5), (3, 4, 5)],
    "pyramid": [(0, 1, 2, 3), (0, 1, 4), (0, 2, 4), (1, 3, 4), (2, 3, 4)],
}
EDGES = {
    "triangle": [(1, 2), (0, 2), (0, 1)],
    "quadrilateral": [(0, 1), (0, 2), (1, 3), (2, 3)],
    "tetrahedron": [(2, 3), (1, 3), (1, 2), (0, 3), (0, 2), (0, 1)],
    "hexahedron": [(0, 1), (0, 2), (0, 4), (1, 3), (1, 5), (2, 3), (2, 6), (3, 7), (4, 5), (4, 6), (5, 7), (6, 7)],
    "prism": [(0, 1), (0, 2), (0, 3), (1, 2), (1, 4), (2, 5), (3, 4), (3, 5), (4, 5)],
    "pyramid": [(0, 1), (0, 2), (0, 4), (1, 3), (1, 4), (2, 3), (2, 4), (3, 4)],
}


# families defined on rectangular meshes only: their neighbours are not sheared
RECTANGULAR = ("HZ",)
# continuity across the inner facets of macro elements, where it is more than what the element claims between cells
MACRO = {"HCT": "C1", "rHCT": "C1", "Guzman-Neilan": "C0", "Alfeld-Sorokina": "C0", "P1 macro": "C0", "P1-iso-P2": "C0"}


def param(verts):
    """Affine parametrisation of a facet from its vertices, with its tangents."""
    v = [sympy.Matrix(p) for p in verts]
    if len(v) == 1:
        return tuple(v[0]), []
    ts = [v[1] - v[0]] if len(v) == 2 else [v[1] - v[0], v[2] - v[0]]
    p = v[0]
    for s, d in zip(S, ts):
        p = p + s * d
    return tuple(p), ts


def normal(ts, gd):
    if gd == 1:
        return sympy.Matrix([1])
    if gd == 2:
        return sympy.Matrix([-ts[0][1], ts[0][0]])
    return ts[0].cross(ts[1])


def piece_on(f, mid):
    """Components of f near the (interior point of the) facet."""
    if hasattr(f, "get_function") and not isinstance(f, PiecewiseFunction):
        f = f.get_function()
    if not isinstance(f, PiecewiseFunction):
        return [harness.flat(f)]
    out = []
    for cell, g in f.pieces.items():
        pts = [sympy.Matrix(p) for p in cell]
        # barycentric coordinates of the point in the piece
        A = sympy.Matrix([[*p, 1] for p in pts]).T
        if len(pts) == 4 and A.rows == 3:
            # a parallelogram with vertices o, a, b, a + b - o
            q = sympy.Matrix.hstack(pts[1] - pts[0], pts[2] - pts[0]).LUsolve(sympy.Matrix(mid) - pts[0])
            if pts[3] != pts[1] + pts[2] - pts[0]:
                raise smt.Inconclusive("piece that is not a parallelogram")
            if all(0 <= c <= 1 for c in q):
                out.append(harness.flat(g))
        elif A.rows == A.cols:
            lam = A.LUsolve(sympy.Matrix([*mid, 1]))
            if all(c >= 0 for c in lam):
                out.append(harness.flat(g))
        else:
            raise smt.Inconclusive("piece that is not a simplex")
    return out


def restrict(es, pt):
    m = dict(zip(X, pt))
    return [sympy.expand(sympy.sympify(e).subs(m, simultaneous=True)) for e in es]


def limit_ok(e):
    return not e.has(sympy.nan, sympy.zoo, sympy.oo)


def trace(f, cont, pt, ts, gd, simplex_facet=True, mid=None):
    """The quantity that has to be continuous across a facet, as terms in the facet parameters (all pieces that touch it)."""
    return traces(piece_on(f, mid), cont, pt, ts, gd)


def traces(pieces, cont, pt, ts, gd):
    out = []
    for comps in pieces:
        if cont in ("C0", "C1"):
            es = list(comps)
            if cont == "C1":
                es += [sympy.diff(c, X[i]) for c in comps for i in range(gd)]
            out.append(restrict([sympy.cancel(c) if _rat(c) else c for c in es], pt))
            continue
        c = restrict(comps, pt)
        n = normal(ts, gd)
        if cont == "H(div)":
            out.append([sympy.expand(sum(a * b for a, b in zip(c, n)))])
        elif cont == "H(curl)":
            out.append([sympy.expand(sum(a * b for a, b in zip(c, t))) for t in ts])
        elif cont in ("inner H(div)", "integral inner H(div)"):
            v = sympy.expand(sum(n[i] * c[i * gd + j] * n[j] for i in range(gd) for j in range(gd)))
            if cont == "integral inner H(div)":
                v = sympy.integrate(v, (S[0], 0, 1))
            out.append([v])
        elif cont == "inner H(curl)":
            out.append([sympy.expand(sum(a[i] * c[i * gd + j] * b[j] for i in range(gd) for j in range(gd)))
                        for n_, a in enumerate(ts) for b in ts[n_:]])
        else:
            raise smt.Inconclusive(f"unknown continuity {cont}")
    return out


def _rat(c):
    return any(p.exp.is_negative for p in sympy.sympify(c).atoms(sympy.Pow))


def closure(cell, fv):
    """[(dim, number)] of the sub-entities in the closure of a facet, each dimension in order."""
    td = cells.TDIM[cell]
    out = [(0, v) for v in fv]
    if td == 3:
        out += [(1, i) for i, e in enumerate(EDGES[cell]) if set(e) <= set(fv)]
    if td > 1:
        out += [(td - 1, FACETS[cell].index(fv))]
    return out


def facet_mid(fv, ref):
    # a point in general position of the facet (off the lines a subdivision uses)
    n = len(fv)
    if n == 1:
        return ref[fv[0]]
    p, _ = param([ref[i] for i in fv])
    vals = {S[0]: sympy.Rational(5, 13), S[1]: sympy.Rational(3, 17)}
    return tuple(sympy.sympify(c).subs(vals) for c in p)


def continuity(e):
    c = e.continuity
    return c.replace("{order}", str(e.order)) if "{order}" in c else c


def vanish(rep, e, spec):
    """Functions not associated with the closure of a facet have zero trace on it."""
    name = elements.name(spec)
    cell = spec[0]
    cont = continuity(e)
    ref = [tuple(sympy.Integer(c) for c in v) for v in cells.DEFAULT[cell]]
    td = cells.TDIM[cell]
    basis = e.get_basis_functions()
    for fn, fv in enumerate(FACETS[cell]):
        pt, ts = param([ref[i] for i in fv])
        mid = facet_mid(fv, ref)
        own = {d for dim, n in closure(cell, fv) for d in e.entity_dofs(dim, n)}
        zero = [i for i in range(len(basis)) if i not in own]
        terms, where = [], []
        for i in zero:
            for tr in trace(basis[i], cont, pt, ts, td, mid=mid):
                terms += tr
                where += [i] * len(tr)
        if not terms:
            continue

        def replay(m, zero=zero, pt=pt, ts=ts, mid=mid, fn=fn):
            b = elements.make(spec).get_basis_functions()
            for i in zero:
                for tr in trace(b[i], cont, pt, ts, td, mid=mid):
                    for q in tr:
                        v = sympy.nsimplify(q.subs(m))
                        if v != 0 and abs(sympy.N(v, 40)) > 1e-25:
                            return f"basis function {i} has trace {v} at {m} on facet {fn}"
            return None

        # the functions that do not vanish identify a finding
        bad = sorted({i for q, i in zip(terms, where) if sympy.expand(q) != 0})
        rep.equal(terms, [0] * len(terms), f"{name} facet {fn}: functions of other entities vanish", guard(replay), symbols=S,
                  key=f"{name} facet {fn} functions {','.join(map(str, bad))}")


def neighbour(cell, fa, fb, ref, sym=None, straight=False):
    """Vertices of a cell whose facet fb is glued (vertices in order) to facet fa of the reference cell."""
    td = cells.TDIM[cell]
    R = [sympy.Matrix(v) for v in ref]
    a = [R[i] for i in fa]
    b = [R[i] for i in fb]
    ta = [p - a[0] for p in a[1:3]][: td - 1]
    tb = [p - b[0] for p in b[1:3]][: td - 1]
    # direction out of the reference cell, sheared, for a direction of the neighbour that leaves its facet
    inside_a = [r for i, r in enumerate(R) if i not in fa][0] - a[0]
    inside_b = [r for i, r in enumerate(R) if i not in fb][0] - b[0]
    if sym is not None:
        w = sympy.Matrix(sym)
    else:
        w = -sympy.Rational(3, 2) * inside_a
        for k, t in enumerate(ta):
            w = w + sympy.Rational(k + 1, 3) * t * (0 if straight else 1)
    B = sympy.Matrix.hstack(*tb, inside_b) if tb else sympy.Matrix([inside_b])
    A = sympy.Matrix.hstack(*ta, w) if ta else sympy.Matrix([w])
    M = A * B.inv()
    return tuple(tuple(a[0] + M * (r - b[0])) for r in R)


def conforming(*args):
    *spec, glue, allpairs = args
    rep = harness.Rep(max_violations=5)
    e = elements.make(tuple(spec), basis=False)
    if discontinuous(e, tuple(spec)):
        rep.info["discontinuous"] = 1
        return rep.result()
    e = elements.make(tuple(spec))
    vanish(rep, e, tuple(spec))
    if glue:
        glued(rep, e, tuple(spec), allpairs)
    return rep.result()


def glued(rep, e, spec, allpairs):
    """Corresponding functions of two cells that share a facet have the same trace on it."""
    from symfem.finite_element import MappingNotImplemented
    from symfem.references import NonDefaultReferenceError
    name = elements.name(tuple(spec))
    cell = spec[0]
    cont = continuity(e)
    ref = [tuple(sympy.Integer(c) for c in v) for v in cells.DEFAULT[cell]]
    td = cells.TDIM[cell]
    basis = e.get_basis_functions()
    F = FACETS[cell]
    done = 0
    for na, nb in itertools.product(range(len(F)), repeat=2):
        fa, fb = F[na], F[nb]
        if len(fa) != len(fb):
            continue
        first = [i for i, f in enumerate(F) if len(f) == len(fa)][0]
        if not allpairs and na != first:
            continue
        vs = neighbour(cell, fa, fb, ref, straight=spec[1] in RECTANGULAR)
        pt, ts = param([ref[i] for i in fa])
        mid = facet_mid(fa, ref)
        try:
            other = elements.make(tuple(spec)).map_to_cell(vs)
        except (MappingNotImplemented, NonDefaultReferenceError):
            rep.info["mapping not offered"] = 1
            return
        done += 1
        left, right = [], []
        pairs = []
        ca, cb = closure(cell, fa), closure(cell, fb)
        for (d1, n1), (d2, n2) in zip(ca, cb):
            da, db = e.entity_dofs(d1, n1), e.entity_dofs(d2, n2)
            if spec[1] == "transition" and len(da) != len(db):
                continue  # facets of different degree are not glued
            if len(da) != len(db):
                rep.violate(f"{name}: facets {na}, {nb} carry {len(da)} and {len(db)} functions", {}, f"{name} glue")
                return
            pairs += list(zip(da, db))
        if spec[1] == "transition" and any(len(e.entity_dofs(*p)) != len(e.entity_dofs(*q)) for p, q in zip(ca, cb)):
            continue
        for i, j in pairs:
            u = trace(basis[i], cont, pt, ts, td, mid=mid)
            v = trace(other[j], cont, pt, ts, td, mid=mid)
            for a in u[1:]:
                left += u[0]
                right += a
            for b in v:
                left += u[0]
                right += b

        def replay(m, vs=vs, pairs=pairs, pt=pt, ts=ts, mid=mid, na=na, nb=nb):
            e2 = elements.make(tuple(spec))
            b1, b2 = e2.get_basis_functions(), e2.map_to_cell(vs)
            for i, j in pairs:
                us, ws = trace(b1[i], cont, pt, ts, td, mid=mid), trace(b2[j], cont, pt, ts, td, mid=mid)
                for u in us:
                    for w in ws:
                        bad = differ([sympy.sympify(q).subs(m) for q in u], [sympy.sympify(q).subs(m) for q in w])
                        if bad:
                            return f"traces of function {i} (facet {na}) and function {j} (facet {nb} of {vs}) differ: {bad} at {m}"
            return None

        if left:
            rep.equal(left, right, f"{name} facets {na} and {nb}", guard(replay), symbols=S, key=f"{name} glue")
        if rep.full():
            break
    rep.info["facet pairs"] = done


def discontinuous(e, spec):
    """Elements whose functions all belong to the interior of the cell (order 0, Legendre variants) have nothing to glue."""
    return continuity(e) == "L2" or (spec[1] != "bubble" and len(e.entity_dofs(e.reference.tdim, 0)) == e.space_dim)


def inside(*spec):
    """Functions defined piecewise on a subdivided cell are as continuous across the inner facets as the element claims to be."""
    rep = harness.Rep(max_violations=2)
    if spec[0].startswith("dual"):
        import symfem

        name = f"{spec[0]} {spec[1]} {spec[2]}"
        e = symfem.create_element(*spec[:3])
        cont = {"dual": "C0", "BC": "H(div)", "RBC": "H(curl)"}[spec[1]]
        rep.info["obligations"] += 1
        if spec[2] > 0 and e.continuity != cont:
            rep.violate(f"{name}: continuity {e.continuity}, the functions are {cont}", key=f"{spec[1]} continuity")
    else:
        name = elements.name(spec)
        e = elements.make(spec)
        cont = MACRO[spec[1]]
    if not elem.is_piecewise(e):
        return rep.result()
    gd = e.reference.tdim
    for i, f in enumerate(e.get_basis_functions()):
        ps = [([tuple(sympy.sympify(c) for c in v) for v in region], comps) for region, comps in elem.pieces(f)]
        inner = 0
        for (r1, c1), (r2, c2) in itertools.combinations(ps, 2):
            fv = [v for v in r1 if v in r2]
            if len(fv) != gd:
                continue
            inner += 1
            pt, ts = param(fv)
            a, b = traces([c1], cont, pt, ts, gd), traces([c2], cont, pt, ts, gd)

            def replay(m, a=a, b=b, fv=fv, i=i):
                va, vb = ([sympy.N(q.subs(m), 30) for q in harness.flat(w)] for w in (a, b))
                if differ(va, vb, 1e-20):
                    return f"function {i} jumps from {va} to {vb} across the inner facet {fv}"
                return None

            rep.equal(a, b, f"{name} function {i} across {fv}", guard(replay), symbols=S)
            if rep.full():
                return rep.result()
        rep.info["obligations"] += 1
        if not inner:
            rep.violate(f"{name}: no pieces of function {i} share a facet")
    return rep.result()


def jobs(tier):
    out = []
    th = tier == "thorough"
    for s in elements.select(1000 if th else 3.5):
        if not th and s[3].get("variant") == "gll" and s[2] > 3:
            continue
        out.append((elements.name(s), conforming, (*s, elements.cost(s) <= (1000 if th else 1.6), th)))
        if s[1] in MACRO:
            out.append((f"inside {elements.name(s)}", inside, s))
    for n in (3, 4, 6, 8) if not th else (3, 4, 6, 8, 12):
        for fam, o in (("dual", 0), ("dual", 1), ("BC", 1), ("RBC", 1)):
            out.append((f"inside dual polygon({n}) {fam} {o}", inside, (f"dual polygon({n})", fam, o, {})))
    return out


if __name__ == "__main__":
    runner.main(
        "C03", jobs, "other",
        "traces of the basis functions the code computes are taken at symbolic points of every facet; z3 refutes a point at which "
        "a foreign function does not vanish or two neighbours disagree",
        lambda tier: "all points of every facet; neighbours glued along every pair of matching facets of the two cells (quick: first "
        "facet of each shape against all), vertices matched in order, neighbour cells sheared; element configurations in job_names",
        ["traces are computed from the sympy form of the basis functions", "elements whose mapping is not offered are only checked for "
         "vanishing traces"],
        ["CiarletElement.get_basis_functions", "FiniteElement.entity_dofs", "FiniteElement.map_to_cell", "mappings.*"],
        "Zero traces and equality of traces are shown for all points of the facet.",
    )
