"""C16: degrees of freedom are attached to the right sub-entities."""
import itertools
import os
import sys
from collections import Counter

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.realpath(__file__))))
from lib import boot, cells, elem, elements, harness, runner, smt, symexec  # noqa: E402,F401

import sympy  # noqa: E402
import z3  # noqa: E402

guard, differ = harness.guard, harness.differ
symexec.install()
X = elem.X

ENT = cells.ENT
# families whose degrees of freedom involve derivatives, with their order
DERIVATIVES = {"Argyris": 2, "Bell": 2, "Hermite": 1, "BFS": 2, "Morley": 1, "HCT": 1, "rHCT": 1, "Wu-Xu": 2, "MWX": 2, "Taylor": 9,
               "transition": 0, "Alfeld-Sorokina": 1, "TNT": 1}


def equations(cell, verts):
    """Linear equations of the affine hull of a sub-entity of the default cell."""
    td = cells.TDIM[cell]
    p = [sympy.Matrix(cells.DEFAULT[cell][i]) for i in verts]
    if len(p) == 1:
        D = sympy.zeros(1, td)
    else:
        D = sympy.Matrix([list(q - p[0]) for q in p[1:]])
    out = []
    for n in D.nullspace():
        out.append(sum(n[i] * (X[i] - p[0][i]) for i in range(td)))
    return out


def hull(cell, verts, pt):
    """z3: pt is a convex combination of the vertices."""
    lam = [z3.Real(f"lam{i}") for i in range(len(verts))]
    V = [cells.DEFAULT[cell][i] for i in verts]
    ctx = smt.Ctx()
    f = [q >= 0 for q in lam] + [z3.Sum(lam) == 1]
    for j in range(len(pt)):
        f.append(z3.Sum([q * v[j] for q, v in zip(lam, V)]) == ctx.real(pt[j]))
    return f + ctx.side


def attached(*spec):
    rep = harness.Rep(max_violations=2)
    e = elements.make(spec, basis=False)
    name = elements.name(spec)
    cell, fam, order, kw = spec
    td = cells.TDIM[cell]
    ents = ENT[cell]
    n = e.space_dim
    seen = []
    for dim in range(td + 1):
        kinds = {}
        for num, vs in enumerate(ents[dim]):
            ds = list(e.entity_dofs(dim, num))
            rep.info["obligations"] += 1
            if ds != sorted(ds):
                rep.violate(f"{name}: entity_dofs({dim}, {num}) = {ds} is not in order")
            seen += ds
            kinds.setdefault(len(vs), []).append(len(ds))
        for k, c in kinds.items():
            if len(set(c)) > 1 and fam not in ("transition", "FS"):
                rep.violate(f"{name}: entities of dimension {dim} with {k} vertices carry {c} degrees of freedom")
    if sorted(seen) != list(range(n)):
        rep.violate(f"{name}: entity_dofs cover {sorted(seen)[:20]}..., {n} degrees of freedom")
        return rep.result()
    if not elem.has_dofs(e):
        return rep.result()
    if len(e.dofs) != n:
        rep.violate(f"{name}: {len(e.dofs)} degrees of freedom, space_dim {n}")
        return rep.result()
    for dim in range(td + 1):
        for num, vs in enumerate(ents[dim]):
            ds = e.entity_dofs(dim, num)
            eqs = equations(cell, vs) if dim < td else []
            for d in ds:
                dof = e.dofs[d]
                if (dof.entity_dim(), dof.entity_number()) != (dim, num):
                    rep.violate(f"{name}: dof {d} says entity {(dof.entity_dim(), dof.entity_number())}, listed under {(dim, num)}")
                pt = [sympy.sympify(c) for c in dof.dof_point() if c is not None]
                if len(pt) == td:
                    rep.info["obligations"] += 1
                    r, _ = smt.check(hull(cell, vs, pt))
                    if r == "unsat":
                        rep.violate(f"{name}: dof {d} of entity {(dim, num)} reports the point {pt} outside it")
                    elif r == "unknown":
                        raise smt.Inconclusive(f"{name} dof point {pt}")
            if not ds or not eqs:
                continue
            # all functions of the stated form vanish on the entity (to the order of the derivatives involved)
            k = DERIVATIVES.get(fam, 0) + 1
            low = 1 if k > 1 else 2
            gens = [sympy.prod(c) * m for c in itertools.combinations_with_replacement(eqs, k)
                    for m in elem.spaces.mono(td, low)]
            ncomp = len(harness.flat(e.get_polynomial_basis()[0])) if not hasattr(e.get_polynomial_basis()[0], "pieces") else (
                len(elem.pieces(e.get_polynomial_basis()[0])[0][1]))
            shape = None
            if ncomp > 1:
                b = e.get_polynomial_basis()[0]
                b = list(b.pieces.values())[0] if hasattr(b, "pieces") else b
                shape = b.shape if b.is_matrix else (ncomp,)
            cs = []
            comps = []
            for i in range(ncomp):
                c = [symexec.sym(f"k{i}_{j}") for j in range(len(gens))]
                cs += c
                comps.append(sum(a * g for a, g in zip(c, gens)))
            if shape is not None and len(shape) == 2 and fam != "matrix Lagrange":
                # symmetric-valued elements are applied to symmetric functions
                m = shape[0]
                comps = [comps[min(i, j) * m + max(i, j)] for i in range(m) for j in range(m)]
            f = elem.as_function(comps, shape)
            vals = [elem.tidy(e.dofs[d].eval(f).as_sympy()) for d in ds]

            def replay(m, ds=ds, comps=comps, shape=shape, vs=vs):
                m = {c: m.get(c, sympy.Integer(0)) for c in cs}
                g = elem.as_function([q.subs(m) for q in comps], shape)
                e2 = elements.make(spec)
                for d in ds:
                    v = e2.dofs[d].eval(g).as_sympy()
                    if differ([v], [0]):
                        return (f"dof {d} of entity {(dim, num)} is {v} for {harness.flat(g)}, which vanishes on the entity")
                return None

            rep.equal(vals, [0] * len(vals), f"{name} entity {(dim, num)}", guard(replay), symbols=cs)
            if rep.full():
                return rep.result()
    return rep.result()


def plotted(*spec):
    """Where degrees of freedom are drawn: one position for each, in the sub-entity it is attached to."""
    rep = harness.Rep(max_violations=2)
    e = elements.make(spec, basis=False)
    name = elements.name(spec)
    cell = spec[0]
    td = cells.TDIM[cell]
    n = e.space_dim
    pos, ents, dirs = e.dof_plot_positions(), e.dof_entities(), e.dof_directions()
    rep.info["obligations"] += 1
    if (len(pos), len(ents), len(dirs)) != (n, n, n):
        rep.violate(f"{name}: {n} functions, {len(pos)} positions, {len(ents)} entities, {len(dirs)} directions")
        return rep.result()
    for i, (p, (dim, num)) in enumerate(zip(pos, ents)):
        if i not in e.entity_dofs(dim, num):
            rep.violate(f"{name}: {i} is listed at {(dim, num)}, which has {e.entity_dofs(dim, num)}")
        p = [sympy.sympify(c) for c in p]
        if any(c is None for c in p):
            continue
        rep.info["obligations"] += 1
        if len(p) != td:
            rep.violate(f"{name}: {i} is drawn at {p}")
            continue
        r, _ = smt.check(hull(cell, ENT[cell][dim][num], p))
        if r == "unsat":
            rep.violate(f"{name}: {i} of entity {(dim, num)} is drawn at {p} outside it")
        elif r == "unknown":
            raise smt.Inconclusive(f"{name} drawn at {p}")
        if rep.full():
            return rep.result()
    if not elem.has_dofs(e) and not hasattr(e, "_subelements"):
        for i in range(n):
            for j in range(i):
                rep.info["obligations"] += 1
                if all(sympy.expand(a - b) == 0 for a, b in zip(pos[i], pos[j])):
                    rep.violate(f"{name}: {j} and {i} are drawn at the same place {pos[i]}")
    return rep.result()


def dual(fam, order, k):
    """Functions of barycentric dual elements are attached to the vertices of the polygon that are vertices of the dual mesh."""
    import symfem

    rep = harness.Rep(max_violations=2)
    cell = f"dual polygon({k})"
    name = f"{cell} {fam} {order}"
    e = symfem.create_element(cell, fam, order)
    V = [tuple(sympy.sympify(c) for c in v) for v in e.reference.vertices]
    N = len(V)
    ents, pos, dirs = e.dof_entities(), e.dof_plot_positions(), e.dof_directions()
    fs = e.get_basis_functions()
    rep.info["obligations"] += 1
    want = [(2, 0)] if (fam, order) == ("dual", 0) else [(0, i) for i in range(0, N, 2)]
    if list(ents) != want or len(fs) != len(want) or len(pos) != len(want) or len(dirs) != len(want) or e.space_dim != len(want):
        rep.violate(f"{name}: functions of {ents}, expected {want}; {len(fs)} functions, {len(pos)} positions, {len(dirs)} directions")
        return rep.result()
    for dim in range(3):
        for num in range(e.reference.sub_entity_count(dim)):
            rep.info["obligations"] += 1
            w = [i for i, q in enumerate(want) if q == (dim, num)]
            if list(e.entity_dofs(dim, num)) != w:
                rep.violate(f"{name}: entity_dofs({dim}, {num}) is {e.entity_dofs(dim, num)}, expected {w}")
    if rep.violations:
        return rep.result()
    t = symexec.sym("t")
    pc = [elem.pieces(f) for f in fs]
    for i, (dim, num) in enumerate(want):
        at = V[num] if dim == 0 else tuple(sum(c) / N for c in zip(*V))
        rep.equal([sympy.sympify(c) for c in pos[i]], list(at), f"{name} position {i}", guard(lambda m, i=i: f"function {i} is drawn at {pos[i]}, its entity is at {at}"))
        if fam != "dual":
            # along the line from the vertex to the centre, where the dual edge is
            d = dirs[i]
            if d is None or len(d) != 2:
                rep.violate(f"{name}: direction {d} of {i}")
                continue
            rep.equal([sympy.expand(d[0] * at[1] - d[1] * at[0])], [0], f"{name} direction {i}",
                      guard(lambda m, i=i, d=d: f"direction {d} of function {i} is not along the line to {at}"))
            if all(sympy.sympify(c) == 0 for c in d):
                rep.violate(f"{name}: direction of {i} is zero")
        elif any(d is not None for d in dirs):
            rep.violate(f"{name}: direction {dirs}")
        # traces on the boundary of the polygon: zero away from the vertex the function is attached to
        for j in range(N):
            a, b = V[j], V[(j + 1) % N]
            pt = [x + t * (y - x) for x, y in zip(a, b)]
            tri, comps = pc[i][j]
            if [tuple(sympy.sympify(c) for c in v) for v in tri] != [(0, 0), a, b]:
                raise smt.RealCodeFailure(f"{name}: piece {j} is on {tri}, expected the triangle of edge {j}", "")
            v = [sympy.sympify(c).subs(dict(zip(X, pt)), simultaneous=True) for c in comps]
            if fam == "dual":
                away = order == 1 and min((j - num) % N, (num - j - 1) % N) > 1
                val = v[0]
            else:
                away = num not in (j, (j + 1) % N)
                tan = [y - x for x, y in zip(a, b)]
                val = v[0] * tan[1] - v[1] * tan[0] if fam == "BC" else v[0] * tan[0] + v[1] * tan[1]
            val = sympy.expand(val)
            if away:
                rep.equal([val], [0], f"{name} function {i} on edge {j}",
                          guard(lambda m, i=i, j=j, val=val: f"function {i} of vertex {num} is {val} on edge {j}"), symbols=[t])
            elif fam != "dual" or order == 0:
                rep.info["obligations"] += 1
                if abs(sympy.N(val.subs(t, sympy.Rational(1, 3)))) < 1e-9:
                    rep.violate(f"{name}: function {i} vanishes on edge {j}, at the vertex it is attached to")
            if rep.full():
                return rep.result()
        if (fam, order) == ("dual", 1):
            for j in range(0, N, 2):
                tri, comps = pc[i][j]
                v = sympy.sympify(comps[0]).subs(dict(zip(X, V[j])), simultaneous=True)
                rep.equal([sympy.expand(v)], [1 if j == num else 0], f"{name} function {i} at vertex {j}",
                          guard(lambda m, v=v, i=i, j=j: f"function {i} of vertex {num} is {v} at vertex {j}"))
    return rep.result()


def jobs(tier):
    out = []
    for k in (3, 4, 6, 8) if tier == "quick" else (3, 4, 6, 8, 12):
        for fam, o in (("dual", 0), ("dual", 1), ("BC", 1), ("RBC", 1)):
            out.append((f"drawn dual polygon({k}) {fam} {o}", dual, (fam, o, k)))
    for s in elements.select(3 if tier == "quick" else 1000):
        out.append(("drawn " + elements.name(s), plotted, s))
    for s in elements.select(3 if tier == "quick" else 1000):
        if tier == "quick" and s[0] == "hexahedron" and s[2] > 2:
            continue
        out.append((elements.name(s), attached, s))
    return out


if __name__ == "__main__":
    runner.main(
        "C16", jobs, "other",
        "degrees of freedom are executed on every polynomial (symbolic coefficients) that vanishes on their sub-entity; z3 refutes "
        "coefficients for which the value is not zero, and decides that reported points lie on the sub-entity",
        lambda tier: "all coefficients of functions l^k q, l the equations of the sub-entity, k one more than the derivative order of "
        "the family, q of degree at most 2; element configurations in job_names; dual polygons of 3, 4, 6 and 8 (12) triangles",
        ["numbering of sub-entities as documented (DefElement conventions)"],
        ["CiarletElement.entity_dofs", "functionals.*.eval", "functionals.*.dof_point", "BaseFunctional.entity_dim",
         "BaseFunctional.entity_number", "moments.make_integral_moment_dofs",
         "*.dof_plot_positions", "*.dof_directions", "*.dof_entities", "DualCiarletElement.entity_dofs"],
        "The value of a degree of freedom depends only on the function near its sub-entity, for all functions of the stated form.",
    )
