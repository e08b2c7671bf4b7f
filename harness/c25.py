"""C25: compiled matrix functions fill every entry and nothing else."""

import gc

from harness.compiled import *  # noqa: F403
from px.registry import Check

CHECK = Check("C25", __name__)
C = CHECK

SHAPES = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2), (3, 3), (1, 4), (4, 1), (2, 4), (4, 2), (1, 5), (3, 4), (1, 0), (2, 0)]
ADD, MUL = F("Add"), F("Mul")
X, Y = S("x"), S("y")


class Guard:
    """In a replay: arrays lie between guard cells, so that stray stores show."""

    def __init__(self, E):
        self.live = []
        self.E = E
        self.np = None

    def __enter__(self):
        if not self.E.symbolic:
            import numpy as np

            self.np, self.old = np, {k: getattr(np, k) for k in ("zeros", "empty", "full")}
            zeros = np.zeros

            def make(fill):
                def f(shape, *args, **kw):
                    shape = tuple(shape) if isinstance(shape, (tuple, list)) else (shape,)
                    n = 1
                    for s in shape:
                        n *= s
                    buf = zeros(n + 256)
                    buf[:] = 1234.5
                    self.live.append((buf, n))
                    v = buf[128 : 128 + n]
                    v[:] = fill if fill is not None else args[0]
                    return v.reshape(shape)

                return f

            np.zeros, np.empty, np.full = make(0.0), make(float("nan")), make(None)
        return self

    def __exit__(self, *a):
        if self.np is not None:
            for k, v in self.old.items():
                setattr(self.np, k, v)

    def intact(self):
        return all([(b[:128] == 1234.5).all() and (b[128 + n :] == 1234.5).all() for b, n in self.live])


def run(E, guard, f, values, mach, rows, label, how):
    """Call the compiled matrix function and compare every entry."""
    r = E.call(lambda: f(*values))
    E.check(label + ":call", r[0] == "ok", lambda: f"{how()}: {r[1]!r}")
    a = r[1]
    nr, nc = len(rows), len(rows[0])
    E.check(label + ":shape", tuple(a.shape) == (nr, nc), lambda: f"{how()}: shape {a.shape}")
    for i in range(nr):
        for j in range(nc):
            mach.lib = False
            want = mach.value(rows[i][j])
            E.check(label, mach.agrees(a[i, j], want), lambda: f"{how()}[{i}, {j}] is {a[i, j]!r}, not {want!r}")
    E.check(label + ":stray", guard.intact(), lambda: f"{how()} writes outside the array")
    return a


def judge(E, W, M, rows, args, values, label, twice=False):
    """Compile M, whose entries denote the specs, and compare."""
    sc = W.sc
    mach = Machine(E, args, values)

    def how():
        return f"lambdify({args}, {rows}){tuple(values)}"

    with Guard(E) as g:
        r = E.call(lambda: sc.lambdify([W.build(a) for a in args], M))
        if any([mach.refused(s) for q in rows for s in q]):
            err = E.mod("protosym.simplecas.exceptions").LLVMNotImplementedError
            E.check(label + ":refused", r[0] == "exc" and isinstance(r[1], err), lambda: f"{how()}: {r[1]!r}")
            return None
        E.check(label + ":ok", r[0] == "ok", lambda: f"{how()}: {r[1]!r}")
        f = r[1]
        a = run(E, g, f, values, mach, rows, label, how)
        if twice:
            # a fresh array every time, whatever was done to the last one
            before = [[a[i, j] for j in range(len(rows[0]))] for i in range(len(rows))]
            keep = f(*values)
            for i in range(len(rows)):
                for j in range(len(rows[0])):
                    a[i, j] = 77.0
            run(E, g, f, values, mach, rows, label + ":again", how)
            ok = all([mach.agrees(keep[i, j], before[i][j]) for i in range(len(rows)) for j in range(len(rows[0]))])
            E.check(label + ":fresh", ok, how)
    return f, mach


def grid(E, name, nr, nc, pool):
    return [[pool[E.choose(f"{name}{i}{j}", len(pool))] for j in range(nc)] for i in range(nr)]


def mat(W, rows):
    return W.sc.Matrix([[W.build(s) for s in q] for q in rows])


def pool(E, keys):
    P = {
        "0": I(0), "1": I(1), "x": X, "y": Y, "x+y": App(ADD, X, Y), "xy": App(MUL, X, Y, X), "s": App(F("sin"), X), "p": App(F("pow"), Y, X), "L": App(ADD),
        "f": App(F("f"), X), "z": S("z"), "List": App(F("List"), X), "c": App(F("cos"), App(F("sin"), X)),
    }
    if "i" in keys:
        P["i"] = I(E.int("i", 3))
    return [P[k] for k in keys]


@C.harness
def entries(E, shapes, keys, order=0):
    """Every choice of entries at every place."""
    nr, nc = SHAPES[shapes[E.choose("shape", len(shapes))]]
    W = Cas(E)
    rows = grid(E, "m", nr, nc, pool(E, keys))
    vx, vy = E.flt("vx"), E.flt("vy")
    judge(E, W, mat(W, rows), rows, [Y, X] if order else [X, Y], [vy, vx] if order else [vx, vy], "entry", twice=nr * nc <= 2)


@C.harness
def ir(E, shapes, keys):
    """to_llvm_ir gives code for the function that lambdify compiles."""
    nr, nc = SHAPES[shapes[E.choose("shape", len(shapes))]]
    W = Cas(E)
    rows = grid(E, "m", nr, nc, pool(E, keys))
    v = {"x": E.flt("vx"), "y": E.flt("vy"), "z": E.flt("vz")}
    names = ["xy", "yx", "zxy", "x"][E.choose("args", 4)]
    args, vals = [S(k) for k in names], [v[k] for k in names]
    mach = Machine(E, args, vals)
    M = mat(W, rows)
    r = E.call(lambda: M.to_llvm_ir([W.build(a) for a in args]))
    how = f"Matrix({rows}).to_llvm_ir({args})"
    if any([mach.refused(s) for q in rows for s in q]):
        err = E.mod("protosym.simplecas.exceptions").LLVMNotImplementedError
        E.check("ir:refused", r[0] == "exc" and isinstance(r[1], err), lambda: f"{how}: {r[1]!r}")
        return
    E.check("ir:ok", r[0] == "ok" and isinstance(r[1], str), lambda: f"{how}: {r[1]!r}")
    np, ct = E.mod("numpy"), E.mod("ctypes")
    for fill in (0.0, 5.5):
        a = np.full((nr, nc), fill, np.float64)
        got = E.call(lambda: assembled(E, r[1], len(args), True)(a.ctypes.data_as(ct.POINTER(ct.c_double)), *vals))
        E.check("ir:call", got[0] == "ok", lambda: f"{how}: {got[1]!r}")
        for i in range(nr):
            for j in range(nc):
                mach.lib = False
                want = mach.value(rows[i][j])
                zero = same_spec(E, rows[i][j], I(0))
                if fill and (zero is True or (zero is not False and bool(zero))):
                    continue  # the caller's zeros, or zeros of its own
                E.check("ir", mach.agrees(a[i, j], want), lambda: f"{how}[{i}, {j}] is {a[i, j]!r}, not {want!r}")


C.add(ir, "the code of matrices up to 1x2 with entries 0, x, y, x + y", shapes=[0, 1, 2], keys=["0", "x", "y", "x+y"], expect=("ir", "ir:refused"))
C.add(ir, "the code of 2x2 matrices with entries 0, y, x + y", shapes=[3], keys=["0", "y", "x+y"], expect=("ir", "ir:refused"))


@C.harness
def pattern(E, nr, nc, distinct_=1):
    """Every zero pattern, every other entry different (or all alike)."""
    W = Cas(E)
    bits = [E.boolean(f"z{k}") for k in range(nr * nc)]
    ent = [App(ADD, X, I(10 + k)) if distinct_ else X for k in range(nr * nc)]
    rows = [[I(0) if bits[i * nc + j] else ent[i * nc + j] for j in range(nc)] for i in range(nr)]
    judge(E, W, mat(W, rows), rows, [X], [E.flt("vx")], "pattern")


@C.harness
def sums(E, nr, nc):
    """Matrices obtained by addition (entries listed in another order)."""
    W = Cas(E)
    za = [E.boolean(f"a{k}") for k in range(nr * nc)]
    zb = [E.boolean(f"b{k}") for k in range(nr * nc)]
    a = [[I(0) if za[i * nc + j] else App(ADD, X, I(10 + i * nc + j)) for j in range(nc)] for i in range(nr)]
    b = [[I(0) if zb[i * nc + j] else App(MUL, Y, I(30 + i * nc + j)) for j in range(nc)] for i in range(nr)]
    M = mat(W, a) + mat(W, b)
    rows = [[tree_of(W, M[i, j]) for j in range(nc)] for i in range(nr)]
    vx, vy = E.flt("vx"), E.flt("vy")
    judge(E, W, M, rows, [X, Y], [vx, vy], "sum")


def tree_of(W, e):
    from harness.calc import tree_spec

    return tree_spec(W, e.rep)


@C.harness
def derived(E, nr, nc, keys):
    """Derivatives, sums of derivatives, conversions from SymPy."""
    W = Cas(E)
    rows = grid(E, "m", nr, nc, pool(E, keys))
    M = mat(W, rows)
    x = W.build(X)
    way = E.choose("way", 5)
    N = [lambda: M.diff(x), lambda: M.diff(x) + M, lambda: M + M.diff(x), lambda: M.diff(x).diff(x), lambda: W.sc.Matrix.from_sympy(M.to_sympy())][way]()
    want = [[tree_of(W, N[i, j]) for j in range(nc)] for i in range(nr)]
    vx, vy = E.flt("vx"), E.flt("vy")
    judge(E, W, N, want, [X, Y], [vx, vy], "derived")
    judge(E, W, M, rows, [X, Y], [vx, vy], "original")


@C.harness
def converted(E, nr, nc):
    """SymPy matrices whose entries were set in any order."""
    W = Cas(E)
    sympy = E.mod("sympy")
    x, y = sympy.Symbol("x"), sympy.Symbol("y")
    sy = [x, y, x * y, sympy.Integer(5), sympy.sin(x), x**y]
    M = sympy.zeros(nr, nc)
    left = [(i, j) for i in range(nr) for j in range(nc)]
    for k in range(E.choose("entries", nr * nc + 1)):
        i, j = left.pop(E.choose(f"next{k}", len(left)))
        M[i, j] = sy[k]
    N = W.sc.Matrix.from_sympy(M)
    sp = [X, Y, App(MUL, X, Y), I(5), App(F("sin"), X), App(F("pow"), X, Y)]
    want = []
    for i in range(nr):
        want.append([])
        for j in range(nc):
            s = tree_of(W, N[i, j])
            k = next((k for k in range(len(sy)) if M[i, j] == sy[k]), None)
            E.check("converted:entry", M[i, j] == 0 if k is None else True, lambda: f"{M[i, j]!r}")
            if k is not None and k != 2:
                E.check("converted:place", N[i, j] is W.build(sp[k]), lambda: f"[{i}, {j}] is {N[i, j]!r} for {M[i, j]!r}")
            want[-1].append(s)
    judge(E, W, N, want, [X, Y], [E.flt("vx"), E.flt("vy")], "converted")


@C.harness
def names(E, kind="any"):
    """Arguments of any names."""
    W = Cas(E)
    a, b = S(E.str("a", kind)), S(E.str("b", kind))
    distinct(E, [a, b])
    rows = [[a, I(0)], [App(MUL, b, a), App(ADD, b, I(1))]]
    order = E.choose("order", 2)
    va, vb = E.flt("va"), E.flt("vb")
    judge(E, W, mat(W, rows), rows, [b, a] if order else [a, b], [vb, va] if order else [va, vb], "name")


TRICKY = ["_out", ".0", ".1", "arg.0", "arg.1", "0", "", "x y", 'q"', "\\22", "é", "jit_func1", "%x", "out", "_out1", "arr", ".4"]


@C.harness
def tricky(E):
    W = Cas(E)
    p, q = E.choose("p", len(TRICKY)), E.choose("q", len(TRICKY))
    a, b = S(TRICKY[p]), S(TRICKY[q] if p != q else "other")
    rows = [[a, I(0)], [App(MUL, b, a), App(ADD, b, I(1))]]
    judge(E, W, mat(W, rows), rows, [b, a], [E.flt("vb"), E.flt("va")], "tricky")


@C.harness
def constants(E):
    """Integer entries of every value."""
    W = Cas(E)
    big = [0, 1, -1, 2**53 + 1, 2**64, 10**23, -(2**1000)]
    rows = [[I(E.int("i")), I(big[E.choose("big", len(big))])]]
    judge(E, W, mat(W, rows), rows, [], [], "constant", twice=True)
    rows = [[I(E.int("j"))], [rows[0][1]], [X]]
    judge(E, W, mat(W, rows), rows, [X], [E.flt("vx")], "constant")


@C.harness
def refused(E):
    """Entries that cannot be compiled."""
    W = Cas(E)
    fn = F(E.str("fn", "any"))
    for known in KNOWN:
        E.assume(E.not_(values_equal(E, "Function", fn.value, known)))
    sy = S(E.str("sy", "any"))
    distinct(E, [sy, X])
    bad = [App(fn, X), App(fn), sy, fn, App(App(F("sin"), X), X), App(F("List"), X), App(S("cos"), X), App(F("List"))]
    s = bad[E.choose("bad", len(bad))]
    s = [s, App(F("sin"), s), App(ADD, X, App(MUL, s, I(0)))][E.choose("where", 3)]
    k = E.choose("place", 4)
    fl = [X, I(0), App(ADD, X, I(1)), X]
    fl[k] = s
    rows = [fl[:2], fl[2:]]
    judge(E, W, mat(W, rows), rows, [X], [E.flt("vx")], "refuse")
    ok = [[X, I(0)]]
    judge(E, W, mat(W, ok), ok, [X], [E.flt("vy")], "after")


@C.harness
def held(E, n):
    """Functions stay valid and their own, whatever is compiled afterwards."""
    W = Cas(E)
    v, w = E.flt("v"), E.flt("w")
    keep = []
    drop = E.choose("drop", 2)
    with Guard(E) as g:
        for j in range(n):
            rows = [[[X, I(j)], [I(0), App(MUL, X, Y)]], [[I(0), X, App(ADD, Y, I(j))]], [[App(ADD, X, I(j))], [Y], [I(0)]]][(j + drop) % 3]
            M = mat(W, rows)
            args, vals = ([X, Y], [v, w]) if j % 2 else ([Y, X], [w, v])
            f = W.sc.lambdify([W.build(a) for a in args], M)
            if j % (drop + 1) == 0:
                keep.append((f, vals, Machine(E, args, vals), rows))
            del f, M
        gc.collect()
        for f, vals, m, rows in keep + keep[::-1]:
            run(E, g, f, vals, m, rows, "held", lambda: f"lambdify(.., {rows}) after {n} others")


@C.harness
def operand(E):
    """Compiling leaves the matrix as it is; later matrices do not change the function."""
    W = Cas(E)
    vx, vy = E.flt("vx"), E.flt("vy")
    rows = grid(E, "m", 2, 2, [I(0), X, App(MUL, X, Y)])
    M = mat(W, rows)
    ls = M.tolist()
    with Guard(E) as g:
        f = W.sc.lambdify([W.build(X), W.build(Y)], M)
        E.check("matrix", all([M[i, j] is ls[i][j] and M.tolist()[i][j] is ls[i][j] for i in range(2) for j in range(2)]) and M.shape == (2, 2))
        N = M + mat(W, [[X, X], [X, X]])
        M.diff(W.build(X))
        W.sc.lambdify([W.build(X), W.build(Y)], N)
        m = Machine(E, [X, Y], [vx, vy])
        run(E, g, f, [vx, vy], m, rows, "later", lambda: f"lambdify(.., {rows})")


ALL = ["0", "1", "x", "y", "x+y", "xy", "s", "p", "L", "i"]
@C.harness
def big(E):
    """Larger matrices, some patterns."""
    W = Cas(E)
    nr, nc = BIG[E.choose("shape", len(BIG))]
    rows = big_rows(E, "m", nr, nc, lambda k: App((ADD, MUL)[k % 2], X, I(10 + k), Y))
    M = mat(W, rows)
    if E.choose("sum", 2):
        other = big_rows(E, "n", nr, nc, lambda k: App(ADD, Y, I(80 + k)), ["sparse"])
        M = mat(W, other) + M
        rows = [[tree_of(W, M[i, j]) for j in range(nc)] for i in range(nr)]
    judge(E, W, M, rows, [X, Y], [E.flt("vx"), E.flt("vy")], "big", twice=False)


C.add(big, "five shapes up to 6x7, 1x36 and 36x1, eight patterns, and sums", expect=("big", "big:shape"))
C.add(entries, "shapes 1x1, 1x2, 2x1, 10 kinds of entry", shapes=[0, 1, 2], keys=ALL, expect=("entry", "entry:ok", "entry:shape", "entry:again", "entry:fresh", "entry:stray"))
C.add(entries, "2x2 of 0, x, y, x+y, x*y*x", shapes=[3], keys=["0", "x", "y", "x+y", "xy"], order=1, expect=("entry",))
C.add(entries, "1x3, 3x1 of 0, x, sin, int", shapes=[4, 5], keys=["0", "x", "s", "i"], expect=("entry",))
C.add(entries, "2x2 of 0, 1, x, also uncompilable", shapes=[3], keys=["0", "x", "f", "List"], expect=("entry", "entry:refused"))
C.add(entries, "no columns", shapes=[15, 16], keys=["x"], expect=("entry:ok",))
for nr, nc in ((2, 3), (3, 2), (1, 5), (3, 3)):
    C.add(pattern, f"{nr}x{nc}, every zero pattern", nr=nr, nc=nc, expect=("pattern",))
C.add(pattern, "2x3, every zero pattern, equal entries", nr=2, nc=3, distinct_=0, expect=("pattern",))
C.add(sums, "2x2, every pair of zero patterns", nr=2, nc=2, expect=("sum",))
C.add(sums, "1x3, every pair of zero patterns", nr=1, nc=3, expect=("sum",))
C.add(derived, "2x2 of 0, x*y*x, constant", nr=2, nc=2, keys=["0", "xy", "y"], expect=("derived", "original"))
C.add(derived, "1x2 of 8 kinds", nr=1, nc=2, keys=["0", "1", "x", "x+y", "s", "c", "L", "i"], expect=("derived",))
C.add(converted, "2x2 SymPy matrices, entries set in any order", nr=2, nc=2, expect=("converted", "converted:place"))
C.add(converted, "1x3 SymPy matrices, entries set in any order", nr=1, nc=3, expect=("converted",))
C.add(names, "two arguments of any name", expect=("name",))
C.add(tricky, "17 names that mean something in LLVM, pairs", expect=("tricky",))
C.add(constants, "integer entries", expect=("constant",))
C.add(refused, "8 uncompilable parts in 4 places", expect=("refuse:refused", "after"))
C.add(held, "36 functions", n=36, expect=("held",))
C.add(operand, "2x2 of 0, x, x*y", expect=("matrix", "later"))
C.add(entries, "2x2 of 8 kinds", shapes=[3], keys=["0", "1", "x", "y", "xy", "s", "p", "i"])
C.deep(entries, "2x3, 3x2 of 0, x, x*y*x", shapes=[6, 7], keys=["0", "x", "xy"])
C.add(pattern, "3x4, every zero pattern", nr=3, nc=4)
C.add(sums, "2x3, every pair of zero patterns", nr=2, nc=3)
C.deep(derived, "2x2 of 6 kinds", nr=2, nc=2, keys=["0", "x", "x+y", "s", "L", "i"])
C.deep(held, "120 functions", n=120)
C.outside = ["shapes beyond those stated", "the LLVM compiler and its optimisation passes (a stub interprets the LLVM text; real LLVM runs in replays)"]
C.assumptions = ["sin, cos and pow are arbitrary functions of doubles; a double for an int is an arbitrary function of the int (fixed ints: exact)",
                 "the LLVM stub: IR grammar, names and IEEE arithmetic as LLVM defines them; the NumPy and ctypes stubs: zero-filled arrays in row order"]
