"""C14: the on-disk matrix cache never changes a result."""
import builtins
import io
import os
import pickle
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.realpath(__file__))))
from lib import boot, elem, elements, harness, runner, smt, symexec  # noqa: E402,F401

import _io  # noqa: E402
import sympy  # noqa: E402
import z3  # noqa: E402

import symfem  # noqa: E402
from symfem import caching  # noqa: E402

guard, differ, sym, flat = harness.guard, harness.differ, harness.sym, harness.flat
symexec.install()
X = elem.X
R = sympy.Rational


# ---------------------------------------------------------------- what is stored is what is read
def generic(rows, cols):
    """Matrix whose entries are symbolic combinations of rational and irrational numbers."""
    out = []
    for i in range(rows):
        out.append([])
        for j in range(cols):
            a, b, c = (sym(f"{q}{i}_{j}") for q in "abc")
            out[-1].append([a, -a / 7 + b, a + b * sympy.sqrt(2), sympy.sqrt(5 - sympy.sqrt(5)) * b - R(22, 7) * c, a**2 / 3 - c, a / b][(i * cols + j) % 6])
    return sympy.Matrix(out)


def named(m):
    """Symbols as the harness names them (a text does not record assumptions)."""
    return m.xreplace({s: sympy.Symbol(s.name, real=True) for s in m.free_symbols})


def round_trip(rows, cols, through):
    rep = harness.Rep()
    m = generic(rows, cols)
    symbols = sorted(m.free_symbols, key=str)
    n = [0]

    def run(mat):
        if through == "text":
            return caching.matrix_from_string(caching.matrix_to_string(mat))
        n[0] += 1
        caching.save_cached_matrix("check", f"entry {n[0]}", mat)
        return caching.load_cached_matrix("check", f"entry {n[0]}", mat.shape)

    what = f"{rows} by {cols} matrix through a {through}"

    def replay(mod):
        c = m.subs({s: mod.get(s, R(1)) if str(s)[3] != "b" or mod.get(s, 1) != 0 else R(1) for s in symbols})
        g = run(c)
        if g is None or g.shape != c.shape:
            return f"read back as {g}"
        return differ(flat(g), flat(c)) if through else None

    try:
        got = run(m)
        if got is None or got.shape != m.shape:
            raise ValueError(f"read back as {got}")
    except Exception:
        # is it the symbolic entries only?
        for k in range(1, 5):
            msg = guard(replay)({s: R(3 * k + i, 2 + i * k) * (-1) ** i for i, s in enumerate(symbols)})
            rep.info["obligations"] += 1
            if msg:
                rep.violate(f"{what}: {msg}")
                return rep.result()
        rep.info["concrete only"] = 1
        return rep.result()
    nz = [s for s in symbols if s.name.startswith("hs_b")]
    ctx = smt.Ctx()
    rep.equal(flat(named(got)), flat(m), what, guard(replay), ctx=ctx, assume=[ctx.real(s) != 0 for s in nz], symbols=symbols)
    return rep.result()


def sizes(rows, cols):
    """An entry of another size than the one asked for is not used: all sizes."""
    rep = harness.Rep()
    m = sympy.Matrix(rows, cols, lambda i, j: R(3 * i + 1, j + 2))
    caching.save_cached_matrix("check", "sizes", m)
    r, c = sym("rows"), sym("cols")
    ctx = smt.Ctx(ints=[r, c])
    assume = [ctx.real(r) >= 0, ctx.real(c) >= 0, ctx.real(r) <= 50, ctx.real(c) <= 50]

    def bad(size, got):
        if size == (rows, cols):
            return None if got is not None and got == m else f"entry of the right size {size} is read as {got}"
        return None if got is None else f"entry of size {(rows, cols)} is used for {size}"

    def replay(mod):
        size = (int(mod.get(r, 1)), int(mod.get(c, 1)))
        return bad(size, caching.load_cached_matrix("check", "sizes", size))

    _, paths = symexec.explore(lambda: caching.load_cached_matrix("check", "sizes", (r, c)), ctx, assume)
    right = z3.And(ctx.real(r) == rows, ctx.real(c) == cols)
    for p in paths:
        rep.info["paths"] += 1
        if p.error is not None:
            rep.never(ctx, z3.And(*p.pc), [r, c], f"sizes: raises {p.error!r}", guard(replay), assume)
        elif p.value is None:
            rep.never(ctx, z3.And(right, *p.pc), [r, c], "sizes: right size ignored", guard(replay), assume)
        else:
            rep.never(ctx, z3.And(z3.Not(right), *p.pc), [r, c], "sizes: wrong size used", guard(replay), assume)
            rep.equal(flat(p.value), flat(m), "sizes: content", guard(replay), assume=[])
    return rep.result()


# ---------------------------------------------------------------- interrupted and concurrent writes
class Log:
    """Records what the code does to files in the cache directory."""

    def __init__(self, stop=None):
        self.events = []
        self.stop = stop
        self.handles = 0
        self.reads = []

    def add(self, *event):
        if self.stop is not None and len(self.events) == self.stop[0]:
            self.stop[1]()
        self.events.append(event)


class File:
    def __init__(self, f, log, path):
        self._f, self._log = f, log
        log.handles += 1
        self._h = log.handles
        self._closed = False
        log.add("open", self._h, path, f.mode if hasattr(f, "mode") else "w")

    def write(self, data):
        self._log.add("write", self._h, data if isinstance(data, str) else bytes(data).decode())
        return self._f.write(data)

    def writelines(self, lines):
        for d in lines:
            self.write(d)

    def flush(self):
        self._log.add("flush", self._h)
        return self._f.flush()

    def close(self):
        if not self._closed:
            self._closed = True
            self._log.add("close", self._h)
        return self._f.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        return getattr(self._f, name)


class Watch:
    """Stand-ins for the file functions that log and then do the real thing (inside the scratch cache directory)."""

    def __init__(self, log):
        self.log = log

    def __enter__(self):
        log, real_open = self.log, builtins.open
        base = os.path.realpath(caching.CACHE_DIR)

        def inside(p):
            try:
                return os.path.realpath(os.fspath(p)).startswith(base)
            except TypeError:
                return False

        def opened(file, mode="r", *a, **k):
            path = os.readlink(f"/proc/self/fd/{file}") if isinstance(file, int) else file
            f = real_open(file, mode, *a, **k)
            if inside(path) and any(c in mode for c in "wax+"):
                if k.get("opener") is not None or isinstance(file, int):
                    path = os.readlink(f"/proc/self/fd/{f.fileno()}")
                return File(f, log, os.path.realpath(os.fspath(path)))
            if inside(path):
                log.reads.append(os.path.realpath(os.fspath(path)))
            return f

        def renamed(fn):
            def go(a, b, **k):
                if inside(a) or inside(b):
                    log.add("rename", os.path.realpath(os.fspath(a)), os.path.realpath(os.fspath(b)))
                return fn(a, b, **k)
            return go

        def raw_write(fd, data):
            path = os.readlink(f"/proc/self/fd/{fd}")
            if inside(path):
                raise smt.Inconclusive("os.write on a cache file is not modelled")
            return self.old["write"](fd, data)

        self.old = {"open": real_open, "io": io.open, "_io": _io.open, "rename": os.rename, "replace": os.replace, "write": os.write, "link": os.link}
        builtins.open = io.open = _io.open = opened
        os.rename, os.replace, os.write = renamed(os.rename), renamed(os.replace), raw_write
        return log

    def __exit__(self, *a):
        builtins.open, io.open, _io.open = self.old["open"], self.old["io"], self.old["_io"]
        os.rename, os.replace, os.write = self.old["rename"], self.old["replace"], self.old["write"]


MATRIX = sympy.Matrix([[R(1, 12), sympy.sqrt(2)], [R(-35, 11), 735]])


def entry_path(name):
    """The file that holds the entry once it is complete."""
    caching.save_cached_matrix("crash", name, MATRIX)
    with Watch(Log()) as log:
        caching.load_cached_matrix("crash", name, MATRIX.shape)
    if len(set(log.reads)) != 1:
        raise smt.Inconclusive(f"one entry is read from {len(set(log.reads))} files")
    path = log.reads[0]
    with open(path) as f:
        full = f.read()
    return path, full


FAILS = "a writer fails"


def elsewhere(fn):
    """What fn() returns in a process of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = (True, fn())
            except Exception as e:  # noqa: BLE001
                out = (False, f"{type(e).__name__}: {e}")
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise smt.Inconclusive("a process ended without an answer")
    return pickle.loads(data)


def save_steps(name, stop=None):
    with Watch(Log(stop)) as log:
        caching.save_cached_matrix("crash", name, MATRIX)
    return log.events


def within(name, k):
    """Really run a whole write by another process just before step k of a write; what the first writer raises."""
    def other():
        ok, got = elsewhere(lambda: save_steps(name) and None)
        if not ok:
            raise smt.Inconclusive(f"the second writer raises {got}")

    ok, got = elsewhere(lambda: save_steps(name, (k, other)) and None)
    return None if ok else got


def simulate(events, path, start):
    """(text written so far, length that surely is on disk) of the file under `path` after the events; None if there is none."""
    files = {} if start is None else {path: 0}
    text = {0: start}
    sure = {0: len(start or "")}
    handle = {}
    fresh = 1
    for (tag, ev) in events:
        kind = ev[0]
        if kind == "open":
            p, mode = ev[2], ev[3]
            if p not in files:
                files[p] = fresh
                text[fresh], sure[fresh] = "", 0
                fresh += 1
            i = files[p]
            if "w" in mode:
                text[i], sure[i] = "", 0
            handle[(tag, ev[1])] = (i, len(text[i]) if "a" in mode else 0)
        elif kind == "write":
            i, pos = handle[(tag, ev[1])]
            text[i] = text[i][:pos] + ev[2] + text[i][pos + len(ev[2]):]
            sure[i] = min(sure[i], pos) if pos < sure[i] else sure[i]
            handle[(tag, ev[1])] = (i, pos + len(ev[2]))
        elif kind in ("flush", "close"):
            i, _ = handle[(tag, ev[1])]
            sure[i] = len(text[i])
        elif kind == "rename":
            if ev[1] not in files:
                return FAILS
            files[ev[2]] = files.pop(ev[1])
    if path not in files:
        return None
    return text[files[path]], sure[files[path]]


def read_result(path, name, content):
    """What the real code makes of such a file."""
    with open(path, "w") as f:
        f.write(content)
    try:
        got = caching.load_cached_matrix("crash", name, MATRIX.shape)
    except Exception as e:  # noqa: BLE001
        return f"raises {type(e).__name__}: {e}"
    if got is not None and got != MATRIX:
        return f"reads it as {got.tolist()}"
    return None


def interrupted(existing):
    """At every point of a write, and for every part of the text that may have reached the disk, a reader sees the whole entry or none."""
    rep = harness.Rep(max_violations=1)
    name = f"interrupted {existing}"
    path, full = entry_path(name)
    if not existing:
        os.remove(path)
    with Watch(Log()) as log:
        caching.save_cached_matrix("crash", name, MATRIX)
    ev = [("A", e) for e in log.events]
    if not any(e[0] in ("open", "rename") for e in log.events):
        raise smt.Inconclusive("the write was not seen")
    K, J = z3.Ints("K J")
    cases = []
    for k in range(len(ev) + 1):
        st = simulate(ev[:k], path, full if existing else None)
        if st is None:
            continue
        content = z3.SubString(z3.StringVal(st[0]), 0, J)
        cases.append(z3.And(K == k, J >= st[1], J <= len(st[0]), content != z3.StringVal(full)))
    rep.info["events"] = len(ev)
    seen = z3.BoolVal(True)
    for _ in range(600):
        rep.info["obligations"] += 1
        s = z3.Solver()
        s.set("timeout", 20000)
        s.add(z3.Or(*cases) if cases else z3.BoolVal(False), seen)
        r = s.check()
        smt.STATS["queries"] += 1
        if r == z3.unsat:
            smt.STATS["unsat"] += 1
            return rep.result()
        if r != z3.sat:
            raise smt.Inconclusive("solver gives no answer")
        smt.STATS["sat"] += 1
        k, j = s.model()[K].as_long(), s.model()[J].as_long()
        part = simulate(ev[:k], path, full if existing else None)[0][:j]
        if crash(path, name, k, j, existing, full) != part:
            raise smt.Inconclusive("the state of the model was not reached")
        bad = read_result(path, name, part)
        if bad:
            rep.violate(f"write interrupted after {k} of {len(ev)} steps leaves {part!r} in the entry and the next reader {bad}", {"step": k, "length": j})
            return rep.result()
        seen = z3.And(seen, z3.Or(K != k, J != j))
    raise smt.Inconclusive("too many partial states")


def crash(path, name, k, j, existing, full):
    """Really interrupt a write: a process of its own that ends before its step k, with j characters of the entry on disk."""
    if os.path.exists(path):
        os.remove(path)
    if existing:
        with open(path, "w") as f:
            f.write(full)
    pid = os.fork()
    if pid == 0:
        try:
            handles = []

            def stop():
                for h in handles:
                    h.flush()
                if os.path.exists(path):
                    os.truncate(path, j)
                os._exit(0)

            class Keep(Log):
                pass

            log = Keep((k, stop))
            init = File.__init__

            def remember(self, f, *a):
                handles.append(f)
                init(self, f, *a)

            File.__init__ = remember
            with Watch(log):
                caching.save_cached_matrix("crash", name, MATRIX)
                stop()
        finally:
            os._exit(1)
    os.waitpid(pid, 0)
    if not os.path.exists(path):
        return None
    with open(path) as f:
        return f.read()


def concurrent():
    """Two processes write the same entry and a third reads it: whatever the order of their steps, it sees the whole entry or none."""
    rep = harness.Rep(max_violations=1)
    name = "concurrent"
    path, full = entry_path(name)
    logs = []
    for _ in range(2):
        ok, got = elsewhere(lambda: save_steps(name))
        if not ok:
            raise smt.Inconclusive(f"a writer raises {got}")
        logs.append(got)
    os.remove(path)
    n = [len(q) for q in logs]
    # a schedule is the number of steps of A taken when B has taken b steps; z3 chooses a monotone one of two switches
    K1, K2, K3, J, K = z3.Ints("K1 K2 K3 J K")
    cases, fails = [], []
    table = {}
    for k1 in range(n[0] + 1):
        for k2 in range(n[1] + 1):
            for k3 in range(k1, n[0] + 1):
                run = [("A", e) for e in logs[0][:k1]] + [("B", e) for e in logs[1][:k2]] + [("A", e) for e in logs[0][k1:k3]]
                st = simulate(run, path, None)
                if st == FAILS:
                    if k2 == n[1] and k3 == n[0]:
                        fails.append(K == k1)
                    continue
                if st is None or (st[0] == full and st[1] == len(full)):
                    continue
                table[(k1, k2, k3)] = st[0]
                cases.append(z3.And(K1 == k1, K2 == k2, K3 == k3, J >= st[1], J <= len(st[0]), z3.SubString(z3.StringVal(st[0]), 0, J) != z3.StringVal(full)))
    while True:
        rep.info["obligations"] += 1
        s = z3.Solver()
        s.add(z3.Or(*fails) if fails else z3.BoolVal(False))
        r = s.check()
        smt.STATS["queries"] += 1
        smt.STATS[str(r)] += 1
        if r == z3.unsat:
            break
        k = s.model()[K].as_long()
        bad = within(name, k)
        if bad:
            rep.violate(f"a writer is overtaken by another before its step {k} of {n[0]} and raises {bad}", {"step": k})
            return rep.result()
        fails = [f for f in fails if not z3.is_true(z3.simplify(z3.substitute(f, (K, z3.IntVal(k)))))]
    seen = z3.BoolVal(True)
    tried = set()
    for _ in range(400):
        rep.info["obligations"] += 1
        s = z3.Solver()
        s.set("timeout", 20000)
        s.add(z3.Or(*cases) if cases else z3.BoolVal(False), seen)
        r = s.check()
        smt.STATS["queries"] += 1
        if r == z3.unsat:
            smt.STATS["unsat"] += 1
            return rep.result()
        if r != z3.sat:
            raise smt.Inconclusive("solver gives no answer")
        smt.STATS["sat"] += 1
        m = s.model()
        ks = tuple(m[v].as_long() for v in (K1, K2, K3))
        j = m[J].as_long()
        part = table[ks][:j]
        if part not in tried:
            tried.add(part)
            bad = read_result(path, name, part)
            os.remove(path)
            if bad:
                rep.violate(f"writer A stops after step {ks[0]}, writer B after step {ks[1]}, A goes on to step {ks[2]}: the entry holds {part!r} "
                            f"and a reader {bad}", {"schedule": ks, "length": j})
                return rep.result()
        seen = z3.And(seen, z3.Or(K1 != ks[0], K2 != ks[1], K3 != ks[2], J != j))
    raise smt.Inconclusive("too many partial states")


def incomplete():
    """Files that do not hold a complete matrix of the size asked for are ignored."""
    rep = harness.Rep(max_violations=2)
    m = sympy.Matrix(3, 3, lambda i, j: R(3 * i + 1, j + 2))
    before = set(os.listdir(caching.CACHE_DIR))
    caching.save_cached_matrix("check", "incomplete", m)
    new = sorted(set(os.listdir(caching.CACHE_DIR)) - before)
    if len(new) != 1:
        rep.info["not_encoded"] = 1
        rep.info["obligations"] += 1
        return rep.result()
    path = os.path.join(caching.CACHE_DIR, new[0])
    with open(path) as f:
        full = f.read()
    # cut anywhere but inside the last entry, which no reader can notice
    last = max(full.rfind(c) for c in ",; \n")
    for n in range(0, max(last, 0) + 1):
        with open(path, "w") as f:
            f.write(full[:n])
        rep.info["obligations"] += 1
        try:
            got = caching.load_cached_matrix("check", "incomplete", (3, 3))
        except Exception as e:  # noqa: BLE001
            rep.violate(f"an entry cut to {full[:n]!r} raises {type(e).__name__}", {"content": full[:n]})
            break
        if got is not None and got != m:
            rep.violate(f"an entry cut to {full[:n]!r} is read as {got.tolist()}", {"content": full[:n]})
            break
    return rep.result()


# ---------------------------------------------------------------- elements
def fresh_dir():
    caching.CACHE_DIR = tempfile.mkdtemp(dir=boot.SCRATCH)


def build(spec, vertices=None):
    kw = dict(spec[3])
    if vertices is not None:
        kw["vertices"] = vertices
    return symfem.create_element(spec[0], spec[1], spec[2], **kw)


def compare(rep, what, got, want, replay):
    """Two matrices agree as maps of every vector."""
    rep.info["obligations"] += 1
    if got.shape != want.shape:
        rep.violate(f"{what}: {got.shape} instead of {want.shape}")
        return
    v = [sym(f"v{i}") for i in range(want.cols)]
    a = [sum(c * q for c, q in zip(got.row(i), v) if c != 0) for i in range(got.rows)]
    b = [sum(c * q for c, q in zip(want.row(i), v) if c != 0) for i in range(want.rows)]
    rep.equal(a, b, what, guard(lambda m: replay()), symbols=v)


def shared(specs):
    """All elements with this number of degrees of freedom use one cache directory; nobody gets the matrix of another, first or second time."""
    rep = harness.Rep(max_violations=2)
    truth = {}
    for k, (spec, vertices) in enumerate(specs):
        try:
            e = build(spec, vertices)
        except Exception:  # noqa: BLE001
            continue
        truth[k] = [e.get_dual_matrix(inverse=inv, caching=False) for inv in (False, True)]
    fresh_dir()
    for again in range(2):
        for k, t in truth.items():
            spec, vertices = specs[k]
            for inv in (False, True):
                got = build(spec, vertices).get_dual_matrix(inverse=inv)

                def replay(spec=spec, vertices=vertices, inv=inv):
                    e = build(spec, vertices)
                    return differ(flat(e.get_dual_matrix(inverse=inv)), flat(e.get_dual_matrix(inverse=inv, caching=False)))

                compare(rep, f"{elements.name(spec)}{f' on {vertices}' if vertices else ''}, {'inverse ' if inv else ''}dual matrix "
                        f"{'from' if again else 'with'} a cache used by others", got, t[inv], replay)
                if rep.full():
                    return rep.result()
    rep.info["elements"] = len(truth)
    return rep.result()


def poisoned(spec):
    """Basis functions with entries of the wrong size, or cut ones, in the place of the cached matrices are the ones without a cache."""
    rep = harness.Rep(max_violations=2)
    fresh_dir()
    e = build(spec)
    minv = e.get_dual_matrix(inverse=True, caching=False)
    want = [flat(f) for f in combos(e, minv)]
    build(spec).get_basis_functions()
    files = [os.path.join(caching.CACHE_DIR, f) for f in os.listdir(caching.CACHE_DIR)]
    texts = {}
    for f in files:
        with open(f) as h:
            texts[f] = h.read()
    size = len(e.dofs)
    kept = set(files)
    for how in ("kept", "removed", "smaller", "larger", "empty"):
        for f in files:
            if how == "removed":
                os.remove(f)
            elif how in ("smaller", "larger"):
                n = size - 1 if how == "smaller" else size + 1
                with open(f, "w") as h:
                    h.write(caching.matrix_to_string(sympy.eye(n)) if n else "")
            elif how == "empty":
                with open(f, "w"):
                    pass
        try:
            got = [flat(f) for f in build(spec).get_basis_functions()]
        except Exception as err:  # noqa: BLE001
            rep.violate(f"{elements.name(spec)}: cached matrices {how}: real code raised {type(err).__name__}: {err}")
            break
        cs = [sym(f"c{i}") for i in range(len(want))]

        def total(fs):
            return [sum(c * f[k] for c, f in zip(cs, fs)) for k in range(len(want[0]))]

        rep.equal(total(got), total(want), f"{elements.name(spec)}: cached matrices {how}",
                  guard(lambda m, got=got: differ([e.subs(m) for e in total(got)], [e.subs(m) for e in total(want)])), symbols=cs + list(X[:e.reference.tdim]))
    for f in kept:
        if os.path.exists(f):
            os.remove(f)
    return rep.result()


def combos(e, minv):
    pb = e.get_polynomial_basis()
    return [elem.combine(list(minv.row(i)), pb) for i in range(minv.rows)]


VERTS = {"triangle": [((0, 0), (2, 0), (0, 1)), ((0, 0), (2, 0), (0, 3)), ((0, 0), (0, 1), (2, 0))],
         "interval": [((0,), (3,)), ((1,), (2,)), ((1,), (0,))],
         "tetrahedron": [((0, 0, 0), (2, 0, 0), (0, 1, 0), (0, 0, 1)), ((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 5))],
         "quadrilateral": [((0, 0), (2, 0), (0, 1), (2, 1)), ((0, 0), (1, 0), (0, 2), (1, 2))],
         "hexahedron": []}


def jobs(tier):
    quick = tier == "quick"
    out = []
    for r, c in ((1, 1), (2, 2), (2, 3), (3, 1), (4, 4)):
        for through in ("text", "file"):
            out.append((f"round trip {r} {c} {through}", round_trip, (r, c, through)))
        out.append((f"sizes {r} {c}", sizes, (r, c)))
    out.append(("interrupted write of a new entry", interrupted, (False,)))
    out.append(("interrupted write of an existing entry", interrupted, (True,)))
    out.append(("concurrent writes", concurrent, ()))
    out.append(("incomplete entries", incomplete, ()))
    # candidates that could share an entry have the same number of degrees of freedom
    groups = {}
    for spec in elements.select(0.15 if quick else 2):
        if spec[1] in ("EG", "LFEG", "direct serendipity"):
            continue
        e = None
        try:
            e = build(spec)
            n = len(e.dofs)
        except Exception:  # noqa: BLE001
            continue
        if n > (12 if quick else 30):
            continue
        groups.setdefault(n, []).append((spec, None))
        if elements.cost(spec) < 0.05 or not quick:
            for v in VERTS.get(spec[0], []):
                groups[n].append((spec, v))
        if n <= 6 and elements.cost(spec) < (0.03 if quick else 0.3):
            out.append((f"poisoned {elements.name(spec)}", poisoned, (spec,)))
    for n, specs in groups.items():
        out.append((f"shared by elements of dimension {n}", shared, (specs,)))
    return out


if __name__ == "__main__":
    runner.main(
        "C14", jobs, "other",
        "matrices with symbolic entries through text and file, load with symbolic sizes (paths); the file operations of a real save are recorded and z3 chooses the point "
        "of an interruption (or the switches between two writers) and how much unflushed text reached the disk, refuting that a reader sees a partial entry; "
        "a counterexample is replayed by ending a process at that point; matrices of elements sharing one cache directory compared as maps of a symbolic vector",
        "entries up to 4 by 4, sizes 0 to 50, one write of a 2 by 2 entry (every step, every prefix), two writers with two switches; elements with up to 12 (30) "
        "degrees of freedom, on the default and two or three other cells",
        ["power failure (loss of renamed but unsynced data) is not modelled", "a cut inside the last number of an entry written by something else cannot be noticed"],
        ["caching.*", "CiarletElement.get_dual_matrix", "CiarletElement.get_basis_functions"],
        "Round trips, sizes, crash points, concurrent writers, incomplete entries, distinct elements in one directory.",
    )
