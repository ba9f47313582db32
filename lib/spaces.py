"""Oracle function spaces: what the span of each element's basis functions is, from the literature.

Every space is a list of generators; a generator is a tuple of components (scalars have one, matrices are
row-major).  `space(...)` returns (generators, exact): exact spaces are the whole span, the others only
have to be contained in it.
"""
import itertools

import sympy

X = tuple(sympy.symbols("x y z"))  # replaced by symfem's x through `use`
I = sympy.Integer


def use(symbols):
    global X
    X = tuple(symbols)


def mono(td, k, only=None):
    return [_m(e) for e in itertools.product(range(k + 1), repeat=td) if sum(e) <= k and (only is None or sum(e) == only)]


def homog(td, k):
    return mono(td, k, k) if k >= 0 else []


def _m(e):
    out = I(1)
    for a, b in zip(X, e):
        out *= a**b
    return out


def qmono(degs):
    return [_m(e) for e in itertools.product(*[range(d + 1) for d in degs])] if min(degs) >= 0 else []


def P(td, k):
    return mono(td, k) if k >= 0 else []


def Q(td, k):
    return qmono([k] * td)


def sc(s):
    return [(p,) for p in s]


def vec(s, d):
    return [tuple(p if i == j else I(0) for j in range(d)) for p in s for i in range(d)]


def comp(*spaces):
    """Different scalar space in each component."""
    d = len(spaces)
    return [tuple(p if i == j else I(0) for j in range(d)) for i, s in enumerate(spaces) for p in s]


def mats(s, d):
    return vec(s, d * d)


def symm(s, d):
    out = []
    for i in range(d):
        for j in range(i, d):
            for p in s:
                m = [I(0)] * (d * d)
                m[i * d + j] = m[j * d + i] = p
                out.append(tuple(m))
    return out


def grad(f, d):
    return tuple(sympy.diff(f, X[i]) for i in range(d))


def rot(f):
    """2D curl of a scalar."""
    return (sympy.diff(f, X[1]), -sympy.diff(f, X[0]))


def curl(v):
    a, b, c = v
    x, y, z = X
    D = sympy.diff
    return (D(c, y) - D(b, z), D(a, z) - D(c, x), D(b, x) - D(a, y))


def div(v):
    return sum(sympy.diff(c, X[i]) for i, c in enumerate(v))


def constrained(gens, constraints):
    """The subspace of span(gens) on which constraints(p) (polynomials in some symbols, linear in p) vanish."""
    cs = sympy.symbols(f"k0:{len(gens)}")
    p = tuple(sum(c * g[i] for c, g in zip(cs, gens)) for i in range(len(gens[0])))
    rows = []
    for e in constraints(p):
        e = sympy.expand(e)
        vs = sorted(e.free_symbols - set(cs), key=str)
        co = sympy.Poly(e, *vs).coeffs() if vs else [e]
        rows += [[sympy.diff(q, c) for c in cs] for q in co]
    ns = sympy.Matrix(rows).nullspace()
    return [tuple(sympy.expand(sum(v[i] * g[j] for i, g in enumerate(gens))) for j in range(len(gens[0]))) for v in ns]


TRI = [(0, 0), (1, 0), (0, 1)]
TET = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)]
S, T = sympy.symbols("s_ t_")


def facets(td):
    """[(point parametrised by S, T, a normal)] of the reference simplex."""
    v = [sympy.Matrix(p) for p in (TRI if td == 2 else TET)]
    out = []
    for f in itertools.combinations(range(td + 1), td):
        a = [v[i] for i in f]
        p = a[0] + S * (a[1] - a[0])
        if td == 2:
            d = a[1] - a[0]
            n = (d[1], -d[0])
        else:
            p = p + T * (a[2] - a[0])
            n = tuple((a[1] - a[0]).cross(a[2] - a[0]))
        out.append((tuple(p), n))
    return out


def on(p, pt):
    return [sympy.expand(c.subs(dict(zip(X, pt)), simultaneous=True)) for c in map(sympy.sympify, p)]


def high(e, k):
    """The part of a facet polynomial of degree above k."""
    e = sympy.Poly(sympy.expand(e), S, T)
    out = I(0)
    for (a, b), c in e.terms():
        if a + b > k:
            out += c * S**a * T**b
    return out


def normal_traces(td, k):
    def con(v):
        return [high(sum(a * b for a, b in zip(on(v, pt), n)), k) for pt, n in facets(td)]
    return con


def superlinear(e):
    return sum(i for i in e if i > 1)


def seren(td, k):
    return [_m(e) for e in itertools.product(range(k + 1 + td), repeat=td) if superlinear(e) <= k and (max(e) <= k or k < 1)
            and (k > 0 or sum(e) == 0)]


def J1(r):
    """Gillette-Kloefkorn / Arnold-Awanou one forms (yz(w2-w3), zx(w3-w1), xy(w1-w2)), w_i of degree r-1 free of x_i."""
    x, y, z = X
    out = []
    for i in range(3):
        others = [X[j] for j in range(3) if j != i]
        for a in range(r):
            w = [I(0)] * 3
            w[i] = others[0] ** a * others[1] ** (r - 1 - a)
            out.append(tuple(sympy.expand(q) for q in (y * z * (w[1] - w[2]), z * x * (w[2] - w[0]), x * y * (w[0] - w[1]))))
    return out


def J0(td, r):
    """The serendipity functions of degree r that are not of degree r as polynomials."""
    return [p for p in seren(td, r) if sympy.Poly(p, *X).total_degree() > r]


def rt(td, k):
    return vec(P(td, k - 1), td) + [tuple(X[i] * p for i in range(td)) for p in homog(td, k - 1)]


def ned1(td, k):
    top = vec(homog(td, k), td)
    return vec(P(td, k - 1), td) + constrained(top, lambda v: [sum(X[i] * v[i] for i in range(td))])


def legendre(k, v):
    return sympy.expand(sympy.legendre(k, 2 * v - 1))


def Bint(k, v):
    """Integral of the shifted Legendre polynomial of degree k - 1: vanishes at both ends."""
    s = sympy.Symbol("q_")
    return sympy.expand(sympy.integrate(legendre(k - 1, s), (s, 0, v)))


def tbubble(td):
    b = I(1) - sum(X[:td])
    for a in X[:td]:
        b *= a
    return b


def qbubble(td):
    b = I(1)
    for a in X[:td]:
        b *= a * (1 - a)
    return b


def pyramid(k):
    x, y, z = X
    out = P(3, k)
    for j in range(k):
        out += [(x * y / (1 - z)) ** (k - j) * p for p in mono(2, j)]
    return out


def space(cell, fam, k, kw):
    """(generators, exact, shape) for an element of family fam and order k; None when no oracle is known."""
    td = {"interval": 1, "triangle": 2, "tetrahedron": 3, "quadrilateral": 2, "hexahedron": 3, "prism": 3, "pyramid": 3}[cell]
    x, y, z = X
    simplex = cell in ("interval", "triangle", "tetrahedron")
    tp = cell in ("quadrilateral", "hexahedron")
    b = tbubble(td) if simplex else qbubble(td)
    if cell == "prism":
        if fam == "Lagrange":
            return sc([p * z**i for p in P(2, k) for i in range(k + 1)]), True
        n1 = [(p[0] * z**i, p[1] * z**i, I(0)) for p in ned1(2, k) for i in range(k + 1)]
        return n1 + [(I(0), I(0), p * z**i) for p in P(2, k) for i in range(k)], True
    if cell == "pyramid":
        return sc(pyramid(k)), True
    if fam in ("P", "CR", "Taylor", "Bernstein", "FS", "Hermite") or (fam == "dPc"):
        return sc(P(td, k)), True
    if fam == "MWX":
        return sc(P(td, k)), True
    if fam == "Morley":
        return sc(P(2, 2)), True
    if fam == "Argyris":
        return sc(P(2, 5)), True
    if fam == "serendipity":
        return sc(P(1, k) if cell == "interval" else seren(td, k)), True
    if fam in ("vP", "vector dPc"):
        return (sc(P(1, k)) if td == 1 else vec(P(td, k), td)), True
    if fam in ("N2curl", "BDM"):
        return vec(P(td, k), td), True
    if fam == "matrix Lagrange":
        return mats(P(td, k), td), True
    if fam == "symmetric matrix Lagrange":
        return symm(P(td, k), td), True
    if fam == "HHJ" or (fam == "Regge" and simplex):
        return symm(P(td, k), td), True
    if fam == "Regge":
        if cell == "quadrilateral":
            return ([(p, I(0), I(0), I(0)) for p in qmono([k, k + 1])] + [(I(0), I(0), I(0), p) for p in qmono([k + 1, k])]
                    + [(I(0), p, p, I(0)) for p in qmono([k, k])]), True
        out = []
        for i in range(3):
            out += [tuple(p if n == 4 * i else I(0) for n in range(9)) for p in qmono([k if j == i else k + 1 for j in range(3)])]
        for i, j in ((0, 1), (0, 2), (1, 2)):
            out += [tuple(p if n in (3 * i + j, 3 * j + i) else I(0) for n in range(9))
                    for p in qmono([k if m in (i, j) else k + 1 for m in range(3)])]
        return out, True
    if fam == "Q":
        return sc(Q(td, k)), True
    if fam == "vQ":
        return vec(Q(td, k), td), True
    if fam == "bubble":
        return sc([b * p for p in (P(td, k - td - 1) if simplex else Q(td, k - 2))]), True
    if fam == "bubble enriched Lagrange":
        return sc(P(2, k) + [b * p for p in P(2, k - 1)]), True
    if fam == "bubble enriched vector Lagrange":
        return vec(P(2, k) + [b * p for p in P(2, k - 1)], 2), True
    if fam == "conforming CR":
        return sc(P(2, k) + [b * p for p in P(2, k - 2)]), True
    if fam == "KMV":
        if k == 1:
            return sc(P(td, 1)), True
        if cell == "triangle":
            return sc(P(2, k) + [b * p for p in P(2, k - 2)]), True
        L = [1 - x - y - z, x, y, z]
        out = P(3, 2) + [b]
        for f in itertools.combinations(L, 3):
            out += [f[0] * f[1] * f[2] * g for g in f]
        return sc([sympy.expand(p) for p in out]), True
    if fam == "Bell":
        def con(p):
            g = grad(p[0], 2)
            return [high(sum(a * c for a, c in zip(on(g, pt), n)), 3) for pt, n in facets(2)]
        return constrained(sc(P(2, 5)), con), True
    if fam == "MTW":
        if td == 2:
            def con(v):
                d = sympy.Poly(div(v), *X[:2])
                return [c for e, c in d.terms() if sum(e) > 0] + normal_traces(2, 1)(v)
            return constrained(vec(P(2, 3), 2), con), True
        return vec(P(3, 1), 3) + [tuple(sympy.expand(c) for c in curl(tuple(b * q for q in v))) for v in vec(P(3, 1), 3)], True
    if fam in ("AW", "nonconforming AW"):
        g = symm(P(2, k), 2)

        def con(m):
            if fam == "AW":
                out = []
                for r in range(2):
                    d = sympy.Poly(div(m[2 * r:2 * r + 2]), x, y)
                    out += [c for e, c in d.terms() if sum(e) > k - 2]
                return out
            return [high(sum(on(m, pt)[2 * i + j] * n[i] * n[j] for i in range(2) for j in range(2)), 1) for pt, n in facets(2)]
        return constrained(g, con), True
    if fam == "N1curl":
        return ned1(td, k), True
    if fam == "RT":
        return rt(td, k), True
    if fam == "BDFM":
        if simplex:
            return constrained(vec(P(td, k), td), normal_traces(td, k - 1)), True
        return comp(*[P(td, k - 1) + [p for p in homog(td, k) if p.has(X[i])] for i in range(td)]), True
    if fam == "Qcurl":
        return comp(*[qmono([k - 1 if i == j else k for j in range(td)]) for i in range(td)]), True
    if fam == "Qdiv":
        return comp(*[qmono([k if i == j else k - 1 for j in range(td)]) for i in range(td)]), True
    if fam == "HZ":
        return comp(qmono([k, k - 1]), qmono([k - 1, k])), True
    if fam == "ABF":
        return comp(qmono([k + 2, k]), qmono([k, k + 2])), True
    if fam == "BFS":
        return sc(Q(2, 3)), True
    if fam == "AC":
        if k == 0:
            return vec(P(2, 0), 2) + [(x, I(0)), (I(0), y)], True
        return vec(P(2, k), 2) + [(x * p, y * p) for p in homog(2, k)] + [rot(x ** (k + 1) * y), rot(x * y ** (k + 1))], True
    if fam in ("Sdiv", "Scurl", "TSdiv", "TScurl"):
        trimmed = fam[0] == "T"
        if td == 2:
            d = rot if fam.endswith("div") else (lambda f: grad(f, 2))
            base = (rt(2, k) if fam.endswith("div") else ned1(2, k)) if trimmed else vec(P(2, k), 2)
            return base + [d(p) for p in J0(2, k if trimmed else k + 1)], True
        if fam.endswith("curl"):
            base = ned1(3, k) if trimmed else vec(P(3, k), 3)
            return base + J1(k) + [grad(p, 3) for p in J0(3, k if trimmed else k + 1)], True
        return (rt(3, k) + [curl(v) for v in J1(k)] if trimmed else vec(P(3, k), 3) + [curl(v) for v in J1(k + 1)]), True
    if fam == "BDDF":
        out = vec(P(3, k), 3) + [curl((0, 0, x ** (k + 1) * y)), curl((0, x * z ** (k + 1), 0)), curl((y ** (k + 1) * z, 0, 0))]
        for i in range(1, k + 1):
            out += [curl((0, 0, x * y ** (i + 1) * z ** (k - i))), curl((0, x ** (i + 1) * y ** (k - i) * z, 0)),
                    curl((x ** (k - i) * y * z ** (i + 1), 0, 0))]
        return [tuple(sympy.sympify(c) for c in v) for v in out], True
    if fam == "Rannacher-Turek":
        return sc([I(1)] + list(X[:td]) + [X[i] ** 2 - X[i + 1] ** 2 for i in range(td - 1)]), True
    if fam == "TNT":
        out = Q(td, k)
        for i in range(td):
            o = [X[j] for j in range(td) if j != i]
            out += [X[i] ** (k + 1) * sympy.prod(c) for c in itertools.product(*[(I(1), v) for v in o])]
        return sc(out), True
    if fam in ("TNTdiv", "TNTcurl"):
        out = vec(Q(td, k), td)
        if td == 2:
            ext = [(Bint(k + 1, x), I(0)), (I(0), Bint(k + 1, y)),
                   (Bint(k + 1, x) * legendre(k, y), legendre(k, x) * Bint(k + 1, y))]
            return out + (ext if fam == "TNTdiv" else [(v[1], -v[0]) for v in ext]), True
        if fam == "TNTdiv":
            for ii in itertools.product((0, 1), repeat=3):
                if sum(ii):
                    def Pk(i):
                        return legendre(k, X[i]) if ii[i] else I(1)
                    out.append(tuple(sympy.prod([(Bint(k + 1, X[i]) if ii[i] else I(0)) if i == j else Pk(i) for i in range(3)])
                                     for j in range(3)))
            return [tuple(sympy.sympify(c) for c in v) for v in out], True
        for i in range(3):
            o = [j for j in range(3) if j != i]
            a, c = X[o[0]], X[o[1]]
            for lam in (X[i], 1 - X[i]):
                for f in ((Bint(k + 1, a), I(0)), (I(0), Bint(k + 1, c)),
                          (Bint(k + 1, a) * legendre(k, c), legendre(k, a) * Bint(k + 1, c))):
                    v = [I(0)] * 3
                    v[o[0]], v[o[1]] = f
                    e = [I(0)] * 3
                    e[i] = lam
                    out.append((e[1] * v[2] - e[2] * v[1], e[2] * v[0] - e[0] * v[2], e[0] * v[1] - e[1] * v[0]))
        return out, True
    if fam == "Wu-Xu":
        if td == 1:
            return sc(P(1, 3)), True
        return sc(P(td, td + 1) + [b * p for p in P(td, 1)]), True
    if fam == "Bernardi-Raugel" and k == 1:
        L = [1 - sum(X[:td])] + list(X[:td])
        out = vec(P(td, 1), td)
        full = [I(-1)] * td
        for f in itertools.combinations(range(td + 1), td):
            opp = [i for i in range(td + 1) if i not in f][0]
            n = [I(1)] * td if opp == 0 else [I(1) if j == opp - 1 else I(0) for j in range(td)]
            out.append(tuple(sympy.prod([L[i] for i in f]) * c for c in n))
        del full
        return out, True
    if fam in ("HCT",):
        return sc(P(2, 3)), False
    if fam == "rHCT":
        return sc(P(2, 2)), False
    if fam in ("P1-iso-P2", "P1 macro", "transition", "direct serendipity"):
        return sc(P(td, 1)), False
    if fam == "Alfeld-Sorokina":
        return vec(P(2, 2), 2), False
    if fam in ("Guzman-Neilan", "Bernardi-Raugel"):
        return vec(P(td, k), td), False
    return None
