"""C23: Matrix addition and differentiation are entry-wise and leave operands alone."""

from harness.c11 import calculus
from harness.calc import *  # noqa: F403
from px.registry import Check

CHECK = Check("C23", __name__)
C = CHECK

SHAPES = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2), (3, 3), (1, 4)]
ADD, MUL = F("Add"), F("Mul")


class World:
    def __init__(self, E):
        self.E = E
        self.W = Cas(E)
        self.calc = calculus(E)
        self.den = {}
        self.specs = {}

    def spec(self, e):
        if id(e) not in self.specs:
            self.specs[id(e)] = (tree_spec(self.W, e.rep), e)
        return self.specs[id(e)][0]

    def value(self, s):
        return self.calc.den(s, self.den)

    def matrix(self, rows):
        return self.W.sc.Matrix([[self.W.build(s) for s in r] for r in rows])

    def snapshot(self, M):
        nr, nc = M.shape
        return (nr, nc, [[M[i, j] for j in range(nc)] for i in range(nr)], [list(r) for r in M.tolist()])

    def unchanged(self, M, snap, label):
        nr, nc, a, b = snap
        ls = M.tolist()
        ok = M.shape == (nr, nc) and all([M[i, j] is a[i][j] and ls[i][j] is b[i][j] for i in range(nr) for j in range(nc)])
        self.E.check(label + ":unchanged", ok, lambda: f"{a!r} became {ls!r}")

    def means(self, M, want, label, how):
        """Every entry of M denotes the wanted value."""
        nr, nc = len(want), len(want[0])
        self.E.check(label + ":shape", M.shape == (nr, nc), lambda: f"{M.shape} for {nr}x{nc}")
        ls = M.tolist()
        for i in range(nr):
            for j in range(nc):
                self.E.check(label + ":tolist", ls[i][j] is M[i, j])
                got = self.value(self.spec(M[i, j]))
                self.E.check(label, self.E.num_eq(got, want[i][j]), lambda: f"{how()}[{i}, {j}] is {M[i, j]!r}")


def grid(E, name, nr, nc, pool, fresh):
    """Entries from the pool, or symbolic integers."""
    rows = []
    for i in range(nr):
        rows.append([])
        for j in range(nc):
            k = E.choose(f"{name}{i}{j}", len(pool) + (1 if fresh else 0))
            rows[-1].append(pool[k] if k < len(pool) else I(E.int(f"{name}v{i}{j}")))
    return rows


def pools(x):
    y, z = S("y"), S("z")
    return {
        "0": I(0), "1": I(1), "5": I(5), "x": x, "y": y, "x2": App(F("pow"), x, I(2)), "xy": App(MUL, x, y), "s": App(F("sin"), App(MUL, x, x)),
        "y+x": App(ADD, y, x), "L": App(ADD), "fy": App(F("f"), y), "0x": App(MUL, I(0), x), "z": z, "-1": I(-1), "c": App(F("cos"), App(ADD, x, z)),
    }


def deriv(w, s, x, caches):
    return w.calc.deriv(s, x, caches[0], caches[1], caches[2])


@C.harness
def add(E, shapes, left, right, fresh=1):
    """A + B for every A and B, again and added to themselves."""
    nr, nc = SHAPES[shapes[E.choose("shape", len(shapes))]]
    w = World(E)
    P = pools(S("x"))
    a = grid(E, "a", nr, nc, [P[k] for k in left], fresh)
    b = grid(E, "b", nr, nc, [P[k] for k in right], fresh)
    A, B = w.matrix(a), w.matrix(b)
    sa, sb = w.snapshot(A), w.snapshot(B)
    r = E.call(lambda: A + B)
    E.check("add:ok", r[0] == "ok" and type(r[1]) is w.W.sc.Matrix, lambda: f"{a} + {b}: {r[1]!r}")
    Cm = r[1]
    va = [[w.value(s) for s in q] for q in a]
    vb = [[w.value(s) for s in q] for q in b]
    want = [[p + q for p, q in zip(m, n)] for m, n in zip(va, vb)]
    w.means(Cm, want, "add", lambda: f"({a} + {b})")
    sc = w.snapshot(Cm)
    D = B + Cm
    w.means(D, [[p + q for p, q in zip(m, n)] for m, n in zip(vb, want)], "again", lambda: f"({b} + ({a} + {b}))")
    w.means(A + A, [[p + p for p in m] for m in va], "self", lambda: f"{a} doubled")
    w.unchanged(A, sa, "add")
    w.unchanged(B, sb, "add")
    w.unchanged(Cm, sc, "add")


@C.harness
def diff(E, shapes, kinds, fresh=1, times=2):
    """M.diff(s), again, and added to matrices."""
    nr, nc = SHAPES[shapes[E.choose("shape", len(shapes))]]
    w = World(E)
    x = S("x")
    P = pools(x)
    m = grid(E, "m", nr, nc, [P[k] for k in kinds], fresh)
    M, xo = w.matrix(m), w.W.build(x)
    sm = w.snapshot(M)
    specs, cur, val = m, M, [[w.value(s) for s in q] for q in m]
    first = None
    for t in range(times):
        r = E.call(lambda: cur.diff(xo))
        E.check("diff:ok", r[0] == "ok" and type(r[1]) is w.W.sc.Matrix, lambda: f"{m}: {r[1]!r}")
        D = r[1]
        caches = ({}, {}, {})
        want = [[deriv(w, s, x, caches) for s in q] for q in specs]
        w.means(D, want, f"diff{t + 1}", lambda: f"derivative {t + 1} of {m}")
        if t == 0:
            first, dwant = D, want
            sd = w.snapshot(D)
        specs = [[w.spec(D[i, j]) for j in range(nc)] for i in range(nr)]
        cur = D
    w.means(first + M, [[p + q for p, q in zip(a, b)] for a, b in zip(dwant, val)], "mixed", lambda: f"{m}.diff(x) + {m}")
    w.means(M + first, [[p + q for p, q in zip(a, b)] for a, b in zip(dwant, val)], "mixed", lambda: f"{m} + {m}.diff(x)")
    w.means(first + first, [[p + p for p in a] for a in dwant], "mixed", lambda: f"{m}.diff(x) doubled")
    # another symbol afterwards
    y = S("z" if "fy" in kinds else "y")
    caches = ({}, {}, {})
    w.means(M.diff(w.W.build(y)), [[deriv(w, s, y, caches) for s in q] for q in m], "other", lambda: f"{m}.diff(y)")
    w.unchanged(M, sm, "diff")
    w.unchanged(first, sd, "diff")


@C.harness
def alike(E):
    """Variables that print alike, one after the other, in the same matrix."""
    w = World(E)
    v = E.str("name", "ident")
    one, two = S(v), F(v)
    i = I(E.int("i"))
    m = [[App(MUL, i, one), App(ADD, two, one)], [two, App(F("sin"), one)]]
    if E.choose("swap", 2):
        one, two = two, one
    M = w.matrix(m)
    sm = w.snapshot(M)
    for k, x in enumerate((one, two, one)):
        caches = ({}, {}, {})
        want = [[deriv(w, s, x, caches) for s in q] for q in m]
        w.means(M.diff(w.W.build(x)), want, "alike", lambda: f"{m}.diff of kind {x.kind}")
        w.means(M.diff(w.W.build(x)) + M, [[p + w.value(s) for p, s in zip(q, r)] for q, r in zip(want, m)], "alike:sum", lambda: f"{m}.diff + {m}")
    w.unchanged(M, sm, "alike")


@C.harness
def order(E, nr, nc, twice=0):
    """Entries keep their place when the operands list them in different order."""
    w = World(E)
    x = S("x")
    fresh = [App(F(f"e{k}"), x) for k in range(2 * nr * nc)]
    za = [E.boolean(f"a{k}") for k in range(nr * nc)]
    zb = [E.boolean(f"b{k}") for k in range(nr * nc)]
    a = [[I(0) if za[i * nc + j] else fresh[i * nc + j] for j in range(nc)] for i in range(nr)]
    b = [[I(0) if zb[i * nc + j] else fresh[nr * nc + i * nc + j] for j in range(nc)] for i in range(nr)]
    A, B = w.matrix(a), w.matrix(b)
    va, vb = [[w.value(s) for s in q] for q in a], [[w.value(s) for s in q] for q in b]
    S1 = A + B
    w.means(S1, [[p + q for p, q in zip(m, n)] for m, n in zip(va, vb)], "order", lambda: f"({a} + {b})")
    S2 = S1 + A if not twice else (B + A) + (A + B)
    k = [2, 1] if not twice else [2, 2]
    w.means(S2, [[p * E.real_of_int(k[0]) + q * E.real_of_int(k[1]) for p, q in zip(m, n)] for m, n in zip(va, vb)], "order:sum", lambda: f"({a} + {b}) + ...")


@C.harness
def binop(E, shapes, fresh=1):
    """Any function, with left and right entry in that order."""
    nr, nc = SHAPES[shapes[E.choose("shape", len(shapes))]]
    w = World(E)
    P = pools(S("x"))
    a = grid(E, "a", nr, nc, [P["0"], P["x"]], fresh)
    b = grid(E, "b", nr, nc, [P["0"], P["y+x"]], fresh)
    A, B = w.matrix(a), w.matrix(b)
    sa, sb = w.snapshot(A), w.snapshot(B)
    g = w.W.build(F("g"))
    sc = w.W.sc
    way = E.choose("way", 5)
    fn = [g, sc.Mul, lambda p, q: p - q, lambda p, q: g(p, q, p), sc.expr.Pow if hasattr(sc.expr, "Pow") else g][way]
    hd = [lambda p, q: App(F("g"), p, q), lambda p, q: App(MUL, p, q), lambda p, q: App(ADD, p, App(MUL, I(-1), q)), lambda p, q: App(F("g"), p, q, p),
          lambda p, q: App(F("pow"), p, q)][way]
    r = E.call(lambda: A.binop(B, fn))
    E.check("binop:ok", r[0] == "ok" and type(r[1]) is sc.Matrix, lambda: f"{a} {b}: {r[1]!r}")
    want = [[w.value(hd(p, q)) for p, q in zip(m, n)] for m, n in zip(a, b)]
    w.means(r[1], want, "binop", lambda: f"{a}.binop({b})")
    w.unchanged(A, sa, "binop")
    w.unchanged(B, sb, "binop")


@C.harness
def mismatch(E):
    """Shapes that differ, operands that are not matrices."""
    w = World(E)
    p, q = E.choose("p", 7), E.choose("q", 7)
    sa, sb = (SHAPES + [(4, 1)])[p], (SHAPES + [(4, 1)])[q]
    v = E.int("v")
    zero = E.boolean("zero")
    a = [[I(0) if zero else I(v)] * sa[1] for _ in range(sa[0])]
    b = [[I(v)] * sb[1] for _ in range(sb[0])]
    A, B = w.matrix(a), w.matrix(b)
    s1, s2 = w.snapshot(A), w.snapshot(B)
    fs = [lambda: A + B, lambda: A.binop(B, w.W.sc.Add), lambda: B + A, lambda: B.binop(A, w.W.sc.Mul)]
    for f in fs:
        r = E.call(f)
        if sa == sb:
            E.check("same", r[0] == "ok" and r[1].shape == sa)
        else:
            E.check("mismatch", r[0] == "exc" and isinstance(r[1], TypeError), lambda: f"{sa} with {sb}: {r[1]!r}")
    x = w.W.build(S("x"))
    for k, f in enumerate([lambda: A + v, lambda: v + A, lambda: A + x, lambda: A + None, lambda: A + [[v]], lambda: A + "A", lambda: None + A,
                           lambda: A.diff("x"), lambda: A.diff(v), lambda: A.diff(None), lambda: A.diff(A), lambda: A.diff(x.rep)]):
        r = E.call(f)
        E.check("refused", r[0] == "exc" and isinstance(r[1], TypeError), lambda: f"{k}: {r[1]!r}")
    w.unchanged(A, s1, "refused")
    w.unchanged(B, s2, "refused")


@C.harness
def big(E, fills):
    """Larger matrices, some patterns: sums, derivatives, binop."""
    nr, nc = BIG[E.choose("shape", len(BIG))]
    w = World(E)
    x = S("x")
    a = big_rows(E, "a", nr, nc, lambda k: App(MUL, x, App(F("f"), S("y"), I(k))), fills[0])
    b = big_rows(E, "b", nr, nc, lambda k: App(ADD, x, I(k)), fills[1])
    A, B = w.matrix(a), w.matrix(b)
    sa, sb = w.snapshot(A), w.snapshot(B)
    va = [[w.value(s) for s in q] for q in a]
    vb = [[w.value(s) for s in q] for q in b]
    op = E.choose("op", 3)
    if op == 0:
        w.means(A + B, [[p + q for p, q in zip(m, n)] for m, n in zip(va, vb)], "big:add", lambda: f"({a} + {b})")
        w.means(B + A, [[p + q for p, q in zip(m, n)] for m, n in zip(va, vb)], "big:add", lambda: f"({b} + {a})")
    elif op == 1:
        caches = ({}, {}, {})
        D = A.diff(w.W.build(x))
        dw = [[deriv(w, s, x, caches) for s in q] for q in a]
        w.means(D, dw, "big:diff", lambda: f"{a}.diff(x)")
        w.means(D + B, [[p + q for p, q in zip(m, n)] for m, n in zip(dw, vb)], "big:mixed", lambda: f"{a}.diff(x) + {b}")
    else:
        w.means(A.binop(B, w.W.sc.Mul), [[p * q for p, q in zip(m, n)] for m, n in zip(va, vb)], "big:binop", lambda: f"{a}.binop({b}, Mul)")
    w.unchanged(A, sa, "big")
    w.unchanged(B, sb, "big")


C.add(big, "five shapes up to 6x7, 1x36 and 36x1, eight patterns with one", fills=(FILLS, ["sparse"]), expect=("big:add", "big:diff", "big:binop", "big:mixed"))
C.add(big, "five shapes up to 6x7, 1x36 and 36x1, one pattern with seven", fills=(["checks"], ["dense", "one", "hole", "triangle", "empty", "alike"]), expect=("big:add", "big:diff", "big:binop", "big:mixed"))
C.add(add, "1x2, 2x1: every entry an int or expression", shapes=[1, 2], left=["0", "x"], right=["0", "x"], fresh=1,
      expect=("add:ok", "add", "again", "self", "add:unchanged", "add:shape"))
C.add(add, "1x1, 1x2: cancelling, hollow and equal entries", shapes=[0, 1], left=["0", "1", "L", "0x"], right=["0", "-1", "L", "x"], fresh=0, expect=("add",))
C.add(add, "1x1: two ints of every value", shapes=[0], left=["0", "x", "s"], right=["0", "x", "s", "fy"], expect=("add",))
C.add(order, "2x2, every pair of zero patterns", nr=2, nc=2, expect=("order", "order:sum"))
C.add(order, "1x4, every pair of zero patterns", nr=1, nc=4, twice=1, expect=("order", "order:sum"))
C.add(diff, "1x1, 1x2, 2x1: every entry an int, constant or expression", shapes=[0, 1, 2], kinds=["0", "x", "y", "x2", "s"], expect=("diff:ok", "diff1", "diff2", "mixed", "other", "diff:unchanged"))
C.add(diff, "2x2 of 0, 5, x, x*y", shapes=[3], kinds=["0", "5", "x", "xy"], fresh=0, expect=("diff1", "diff2"))
C.add(diff, "1x3, 3x1 of 0, constant, x**2", shapes=[4, 5], kinds=["0", "fy", "x2"], fresh=0, times=3, expect=("diff3",))
C.add(diff, "2x3, 3x2 of 0, x**2", shapes=[6, 7], kinds=["0", "x2"], fresh=0, times=1, expect=("diff1",))
C.add(alike, "a symbol and a function of any same name", expect=("alike", "alike:sum"))
C.add(binop, "1x2, 2x1, 1x3, five functions", shapes=[1, 2, 4], fresh=0, expect=("binop",))
C.add(binop, "1x1 with ints of every value, five functions", shapes=[0], expect=("binop:ok", "binop", "binop:unchanged"))
C.add(mismatch, "shapes up to 2x3 and 3x1", expect=("mismatch", "refused", "refused:unchanged"))
C.deep(add, "2x2 of 0, x, int", shapes=[3], left=["0", "x"], right=["0", "x"], fresh=0)
C.deep(binop, "1x2, 2x1, five functions, ints of every value", shapes=[1, 2])
C.deep(order, "2x3, every pair of zero patterns", nr=2, nc=3)
C.deep(diff, "2x2 of 7 kinds", shapes=[3], kinds=["0", "y+x", "c", "L", "s", "xy", "0x"], fresh=0)
C.deep(binop, "2x2, five functions", shapes=[3], fresh=0)
C.outside = ["shapes beyond those stated", "derivatives of powers with the variable in the exponent (refused by C11's rules)"]
