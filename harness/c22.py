"""C22: a Matrix holds exactly the entries it was given."""

from harness.calc import *  # noqa: F403
from px.registry import Check

CHECK = Check("C22", __name__)
C = CHECK

SHAPES = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2), (3, 3), (1, 4), (2, 4), (4, 2), (3, 4), (1, 0), (2, 0), (3, 0)]


def draw(E, W, name, how, fixed):
    """An entry as the user gives it, and the Expr it must come out as."""
    if how == "int":
        v = E.int(name) if not fixed else fixed
        return v, W.sc.Integer(v)
    if how == "Integer":
        v = E.int(name) if not fixed else fixed
        e = W.sc.Integer(v)
        return e, e
    if how == "zero":
        return 0, W.sc.Integer(0)
    if how == "Zero":
        return W.sc.Integer(0), W.sc.Integer(0)
    if how == "sym":
        e = W.build(S(E.str(name, "any")))
        return e, e
    if how == "hollow":  # zero in value, but not the entry 0
        e = W.build([App(F("Add")), App(F("Mul"), I(0), S("x")), S("0"), F("0")][fixed or 0])
        return e, e
    e = W.build(App(F("Add"), S("x"), I(fixed or 7)))
    return e, e


def content(E, W, M, want, label):
    """M[i, j], tolist(), shape say what was given."""
    nr, nc = len(want), len(want[0])
    sh = M.shape
    E.check(label + ":shape", type(sh) is tuple and len(sh) == 2 and sh[0] == nr and sh[1] == nc, lambda: f"{sh!r} for {nr}x{nc}")
    ls = M.tolist()
    ok = type(ls) is list and len(ls) == nr and all([type(r) is list and len(r) == nc for r in ls])
    E.check(label + ":tolist", ok, lambda: repr(ls))
    E.check(label + ":rows", len({id(r) for r in ls}) == nr, "two rows of tolist() are one list")
    for i in range(nr):
        for j in range(nc):
            got = M[i, j]
            E.check(label + ":getitem", got is want[i][j], lambda: f"[{i}, {j}] of {nr}x{nc} gives {got!r}, not {want[i][j]!r}")
            E.check(label + ":tolist", ls[i][j] is want[i][j], lambda: f"tolist()[{i}][{j}] of {nr}x{nc} is {ls[i][j]!r}, not {want[i][j]!r}")


@C.harness
def every(E, shapes, kinds, symbolic=3):
    """Every choice of kind of entry at every place; values symbolic."""
    nr, nc = SHAPES[E.choose("shape", len(shapes))] if not shapes else SHAPES[shapes[E.choose("shape", len(shapes))]]
    W = Cas(E)
    given, want, n = [], [], 0
    for i in range(nr):
        given.append([])
        want.append([])
        for j in range(nc):
            how = kinds[E.choose(f"k{i}{j}", len(kinds))]
            fixed = None
            if how in ("int", "Integer", "sym"):
                n += 1
                if n > symbolic and how != "sym":
                    fixed = 40 + n
            if how == "expr":
                fixed = 60 + i * nc + j
            if how == "hollow":
                fixed = (i * nc + j) % 4
            g, w = draw(E, W, f"v{i}{j}", how, fixed)
            given[-1].append(g)
            want[-1].append(w)
    copy = [list(r) for r in given]
    r = E.call(lambda: W.sc.Matrix(given))
    E.check("new", r[0] == "ok" and type(r[1]) is W.sc.Matrix, lambda: f"{nr}x{nc}: {r[1]!r}")
    M = r[1]
    content(E, W, M, want, "entries")
    # the given lists are the user's: unchanged, and not the matrix's storage
    E.check("given", len(given) == nr and all([len(a) == len(b) and all([p is q for p, q in zip(a, b)]) for a, b in zip(given, copy)]))
    for row in given:
        row[:] = [W.sc.Integer(99)]
    given.append([])
    ls = M.tolist()
    for row in ls:
        row[:] = []
    ls.append(3)
    content(E, W, M, want, "later")


@C.harness
def index(E, pattern, nr, nc):
    """Every pair of ints as index."""
    W = Cas(E)
    pool = [W.build(s) for s in (S("x"), I(5), App(F("sin"), S("x")), App(F("Add"), S("x"), I(5)))]
    zero = W.sc.Integer(0)
    bits = pattern if pattern is not None else [E.boolean(f"z{k}") for k in range(nr * nc)]
    want = [[zero if bits[i * nc + j] else pool[(i * nc + j) % 4] for j in range(nc)] for i in range(nr)]
    M = W.sc.Matrix([list(r) for r in want])
    i, j = E.int("i"), E.int("j")
    inside = E.all([0 <= i, i < nr, 0 <= j, j < nc])
    r = E.call(lambda: M[i, j])
    if is_true(E, inside):
        E.check("inside", r[0] == "ok" and any([i == p and j == q and r[1] is want[p][q] for p in range(nr) for q in range(nc)]),
                lambda: f"M[{i}, {j}] of {want}: {r[1]!r}")
    else:
        E.check("outside", r[0] == "exc" and isinstance(r[1], IndexError), lambda: f"M[{i}, {j}] of {nr}x{nc}: {r[1]!r}")


@C.harness
def bad_index(E):
    """Anything but a pair of ints."""
    W = Cas(E)
    x, one = W.build(S("x")), W.sc.Integer(1)
    M = W.sc.Matrix([[x, 0], [0, one]])
    i, s = E.int("i"), E.str("s", "any")
    f = E.flt("f")
    bad = [
        i, (i,), (i, i, i), (), s, (s, s), (i, s), (s, i), None, (None, i), (i, None), f, (f, i), (i, f), [0, 0], [i, i], x, (x, x), (one, 0), (0, one),
        slice(None), (slice(None), 0), (0, slice(0, 1)), ((0, 0), 0), {0: 0}, frozenset([0, 1]), (0, Ellipsis), "00", b"00", (0.0, 0.0), (1j, 0),
    ]
    k = E.choose("key", len(bad))
    r = E.call(lambda: M[bad[k]])
    E.check("refused", r[0] == "exc" and isinstance(r[1], TypeError), lambda: f"M[{bad[k]!r}]: {r[1]!r}")
    content(E, W, M, [[x, W.sc.Integer(0)], [W.sc.Integer(0), one]], "after")


class Rows(tuple):
    pass


@C.harness
def bad_input(E):
    """Input that is not a list of equally long lists of expressions and ints."""
    W = Cas(E)
    x = W.build(S("x"))
    i = E.int("i")
    s = E.str("s", "any")
    M = W.sc.Matrix([[x]])
    ragged = [
        [[i], [i, i]], [[i, x], [x]], [[], [i]], [[i], []], [[i, i], [i, i], [i]], [[i], [i], [i, i]], [[i, x, i], [i, x], [i, x, i]],
        [[], [], [x]],
    ]
    shape = [
        None, i, x, s, "ab", ["ab"], ["ab", "cd"], (), ((i,),), ([i],), [(i,)], [[i], (i,)], [(i,), [i]], [i], [x], [i, [i]], [[i], i], [[i], None],
        {0: [i]}, [{0: i}], Rows(([i],)), iter([[i]]), [iter([i])], (r for r in [[i]]), M, [M], range(2), [range(2)], {1}, [[i], [i], x],
    ]
    entry = [[[s]], [[x, s]], [[None]], [[x], [None]], [[E.flt("f")]], [[1.0]], [[x, x], [x, [x]]], [[M]], [[(1,)]], [[b"1"]], [[1j]], [[[]]], [[x.rep]], [[x, x], [x, {}]]]
    kind, n = [("ragged", len(ragged)), ("shape", len(shape)), ("entry", len(entry))][E.choose("kind", 3)]
    bad = {"ragged": ragged, "shape": shape, "entry": entry}[kind][E.choose("which." + kind, n)]
    r = E.call(lambda: W.sc.Matrix(bad))
    E.check(kind, r[0] == "exc" and isinstance(r[1], TypeError), lambda: f"Matrix({bad!r}): {r[1]!r}")
    content(E, W, W.sc.Matrix([[i, x], [0, i]]), [[W.sc.Integer(i), x], [W.sc.Integer(0), W.sc.Integer(i)]], "after")


@C.harness
def big(E):
    """Larger matrices, some patterns."""
    nr, nc = BIG[E.choose("shape", len(BIG))]
    W = Cas(E)
    rows = big_rows(E, "m", nr, nc, lambda k: I(5) if k == 0 else App(F("f"), S("x"), I(k)))
    ints = E.choose("ints", 2)
    given = [[s.value if type(s) is Leaf and ints else W.build(s) for s in q] for q in rows]
    want = [[W.build(s) for s in q] for q in rows]
    M = W.sc.Matrix(given)
    content(E, W, M, want, "big")
    r = E.call(lambda: M[nr, nc - 1])
    E.check("outside", r[0] == "exc" and isinstance(r[1], IndexError))


C.add(big, "five shapes up to 6x7, 1x36 and 36x1, eight patterns", expect=("big:getitem", "outside"))
ALL = ["int", "Zero", "zero", "expr", "hollow", "Integer", "sym"]
C.add(every, "shapes 1x1, 1x2, 2x1: every kind of entry", shapes=[0, 1, 2], kinds=ALL, expect=("new", "entries:shape", "entries:getitem", "later:tolist", "given"))
C.add(every, "2x2: ints of every value", shapes=[3], kinds=["int"], symbolic=4, expect=("entries:getitem",))
C.add(every, "2x2: int, zero or expression", shapes=[3], kinds=["int", "Zero", "expr"], symbolic=2, expect=("entries:getitem",))
C.add(every, "shapes up to 2x3 and 3x2, every zero pattern", shapes=[4, 5, 6, 7], kinds=["zero", "expr"], expect=("entries:getitem",))
C.add(every, "3x3, every zero pattern", shapes=[8], kinds=["Zero", "Integer"], symbolic=1, expect=("entries:getitem",))
C.add(every, "shapes 1x4, 2x4, 4x2, every zero pattern", shapes=[9, 10, 11], kinds=["zero", "Integer"], symbolic=0, expect=("entries:getitem",))
C.add(every, "no columns", shapes=[13, 14, 15], kinds=["int"], expect=("entries:shape",))
C.add(index, "2x3, every zero pattern, every pair of ints", pattern=None, nr=2, nc=3, expect=("inside", "outside"))
C.add(index, "3x2, every zero pattern, every pair of ints", pattern=None, nr=3, nc=2, expect=("inside", "outside"))
C.add(index, "1x4, every zero pattern, every pair of ints", pattern=None, nr=1, nc=4, expect=("inside", "outside"))
C.add(index, "6x7 dense, every pair of ints", pattern=[0] * 42, nr=6, nc=7, expect=("inside", "outside"))
C.add(index, "5x5 with 0 on and below the diagonal, every pair of ints", pattern=[j <= i for i in range(5) for j in range(5)], nr=5, nc=5, expect=("inside", "outside"))
C.add(bad_index, "keys that are not a pair of ints", expect=("refused", "after:getitem"))
C.add(bad_input, "input that is not a matrix of expressions", expect=("ragged", "shape", "entry", "after:getitem"))
C.deep(every, "2x2: every kind of entry", shapes=[3], kinds=ALL, symbolic=2)
C.deep(every, "3x4, every zero pattern", shapes=[12], kinds=["zero", "expr"], symbolic=0)
C.deep(every, "2x3: ints of every value", shapes=[6], kinds=["int"], symbolic=6)
C.outside = ["shapes beyond those stated", "the empty list as input (no number of columns)"]
