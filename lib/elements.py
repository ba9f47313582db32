"""The element configurations the element checks run over, with their measured cost."""
import json
import os

HERE = os.path.dirname(os.path.realpath(__file__))


def _table():
    L = []

    def add(cell, fam, orders, **kw):
        for o in orders:
            L.append((cell, fam, o, kw))

    I, T, K, Q, H = "interval", "triangle", "tetrahedron", "quadrilateral", "hexahedron"  # noqa: E741
    for v in ("equispaced", "gll", "legendre", "lobatto"):
        n = 5 if v == "gll" else 6
        add(I, "P", range(0, n), variant=v)
        add(I, "dPc", range(0, 5), variant=v)
        add(I, "vP", range(0, 5), variant=v)
    add(I, "P", range(0, 3), variant="radau")
    add(I, "bubble", range(2, 6))
    add(I, "bubble", range(2, 6), variant="lobatto")
    add(I, "serendipity", range(1, 6))
    add(I, "serendipity", range(1, 4), variant="legendre")
    add(I, "Hermite", [3])
    add(I, "Bernstein", range(0, 5))
    add(I, "Taylor", range(0, 6))
    add(I, "Wu-Xu", [2])
    add(I, "MWX", [1])
    add(I, "EG", range(1, 5))
    add(I, "P1-iso-P2", [1])
    add(T, "P", range(0, 7))
    add(T, "P", range(0, 4), variant="legendre")
    add(T, "vP", range(0, 5))
    add(T, "vP", range(0, 3), variant="legendre")
    add(T, "matrix Lagrange", range(0, 4))
    add(T, "symmetric matrix Lagrange", range(0, 4))
    add(T, "bubble", range(3, 6))
    add(T, "bubble enriched Lagrange", range(1, 3))
    add(T, "bubble enriched vector Lagrange", range(1, 3))
    add(T, "CR", [1, 3, 5, 7])
    add(T, "conforming CR", range(1, 6))
    add(T, "HHJ", range(0, 4))
    add(T, "Bell", [5])
    add(T, "Morley", [2])
    add(T, "MWX", [1, 2])
    add(T, "Regge", range(0, 5), variant="point")
    add(T, "Regge", range(0, 4), variant="integral")
    add(T, "AW", [3, 4, 5])
    add(T, "nonconforming AW", [2])
    for f in ("N1curl", "N2curl", "RT", "BDM", "BDFM"):
        add(T, f, range(1, 5))
        add(T, f, range(1, 4), variant="legendre")
    add(T, "Argyris", [5])
    add(T, "MTW", [3])
    add(T, "KMV", [1, 2, 3])
    add(T, "Hermite", [3])
    add(T, "Bernstein", range(0, 4))
    for f, o in (("HCT", 3), ("rHCT", 3), ("FS", 2), ("Bernardi-Raugel", 1), ("Guzman-Neilan", 1), ("Wu-Xu", 3),
                 ("P1-iso-P2", 1), ("Alfeld-Sorokina", 2), ("P1 macro", 1)):
        add(T, f, [o])
    add(T, "Taylor", range(0, 6))
    add(T, "EG", range(1, 4))
    add(T, "LFEG", range(1, 4))
    for eo in ([1, 1, 1], [2, 2, 1], [3, 2, 1], [1, 3, 4], [2, 3, 3]):
        add(T, "transition", range(1, 6), edge_orders=eo)
    add(K, "P", range(0, 5))
    add(K, "P", range(0, 3), variant="legendre")
    add(K, "vP", range(0, 4))
    add(K, "matrix Lagrange", range(0, 3))
    add(K, "symmetric matrix Lagrange", range(0, 3))
    add(K, "bubble", [4, 5])
    add(K, "CR", [1])
    add(K, "Regge", range(0, 3), variant="point")
    add(K, "Regge", range(0, 3), variant="integral")
    add(K, "HHJ", range(0, 3))
    for f in ("N1curl", "N2curl", "RT", "BDM", "BDFM"):
        add(K, f, range(1, 4))
    for f in ("N1curl", "N2curl", "RT", "BDM"):
        add(K, f, range(1, 3), variant="legendre")
    add(K, "MTW", [3])
    add(K, "MWX", [1, 2, 3])
    add(K, "KMV", [1])
    add(K, "Hermite", [3])
    add(K, "Bernstein", range(0, 4))
    add(K, "Taylor", range(0, 5))
    add(K, "Bernardi-Raugel", [1, 2])
    add(K, "Guzman-Neilan", [1, 2])
    add(K, "Wu-Xu", [4])
    add(K, "EG", [1, 2])
    add(K, "LFEG", [1, 2])
    for eo, fo in (([1] * 6, [1] * 4), ([1] * 6, [3, 3, 1, 1]), ([3, 2, 1, 2, 1, 1], [1] * 4),
                   ([1, 1, 2, 1, 2, 5], [3, 3, 2, 5]), ([2] * 6, [3, 1, 4, 2])):
        add(K, "transition", [1, 3, 4, 5], edge_orders=eo, face_orders=fo)
    for c, m in ((Q, 5), (H, 3)):
        for v in ("equispaced", "gll", "legendre", "lobatto"):
            add(c, "Q", range(0, m if v == "equispaced" else min(m - 1, 3 if v == "gll" else 9)), variant=v)
            if v != "legendre":
                add(c, "dPc", range(0, m - 1), variant=v)
        add(c, "vQ", range(0, m - 1))
        add(c, "vQ", range(0, m - 2), variant="lobatto")
        add(c, "vector dPc", range(0, m - 1))
        add(c, "bubble", range(2, m))
        add(c, "bubble", range(2, m), variant="lobatto")
        add(c, "serendipity", range(1, m + 1))
        add(c, "serendipity", range(1, m), variant="legendre")
        for f in ("Scurl", "Sdiv"):
            add(c, f, range(1, m))
            add(c, f, range(1, m - 1), variant="legendre")
        for f in ("Qcurl", "Qdiv", "TScurl", "TSdiv"):
            add(c, f, range(1, m))
        for f in ("Qcurl", "Qdiv"):
            add(c, f, range(1, m - 1), variant="legendre")
        add(c, "BDFM", range(1, m))
        add(c, "TNT", range(1, 4 if c == Q else 3))
        add(c, "TNTcurl", range(1, m - 1))
        add(c, "TNTdiv", range(1, m - 1))
        add(c, "Regge", range(0, m - 1) if c == Q else range(0, 2), variant="integral")
        add(c, "Rannacher-Turek", [1])
        add(c, "EG", range(1, m))
        add(c, "LFEG", range(1, m))
    add(Q, "direct serendipity", range(1, 7))
    add(Q, "BFS", [3])
    add(Q, "ABF", range(0, 3))
    add(Q, "AC", range(0, 4))
    add(Q, "P1-iso-P2", [1])
    add(Q, "HZ", [2, 3, 4])
    add(H, "BDDF", [1, 2, 3])
    add("prism", "Lagrange", range(0, 4))
    add("prism", "Nedelec", [1, 2])
    add("pyramid", "Lagrange", range(0, 4))
    return L


TABLE = _table()
with open(os.path.join(HERE, "costs.json")) as _f:
    COSTS = json.load(_f)


def name(spec):
    cell, fam, order, kw = spec
    kws = " ".join(f"{k}={v}".replace(" ", "") for k, v in sorted(kw.items()) if v != "equispaced")
    return f"{cell} {fam} {order} {kws}".strip()


def cost(spec):
    return COSTS.get(name(spec), 60.0)


def select(limit, skip=()):
    """Specs whose measured cost (creation, basis, one generic dof evaluation) is within the limit, dearest first."""
    out = [s for s in TABLE if cost(s) <= limit and s[1] not in skip]
    return sorted(out, key=lambda s: -cost(s))


def make(spec, basis=True):
    """Create the element (and its basis functions); an exception of the real code is a failure of the property."""
    import symfem

    from . import smt

    cell, fam, order, kw = spec
    try:
        e = symfem.create_element(cell, fam, order, **kw)
        if basis:
            e.get_basis_functions()
        return e
    except Exception as err:  # noqa: BLE001
        raise smt.RealCodeFailure(f"{name(spec)}: real code raised {type(err).__name__}: {str(err)[:300]}",
                                  f"{name(spec)} raises") from err
