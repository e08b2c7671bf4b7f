"""C27: SymPy matrix conversion preserves shape and every entry."""

from harness.symp import *  # noqa: F403
from px.registry import Check

CHECK = Check("C27", __name__)
C = CHECK

ADD, MUL, POW = F("Add"), F("Mul"), F("pow")


def pools(E, kinds):
    x, y = S("x"), S("y")
    P = {
        "0": I(0), "x": x, "y": y, "x2": App(POW, x, I(2)), "2": I(2), "s": App(F("sin"), App(MUL, x, y)), "f": App(F("f"), x, y), "c": App(F("cos"), x),
        "x+y": App(ADD, x, y), "f0": App(F("g")), "-x": App(MUL, I(-1), x),
    }
    out = []
    for k in kinds:
        if k == "int":
            out.append(None)
        elif k == "sym":
            out.append(S(E.str("name", "ident")))
        else:
            out.append(P[k])
    return out


def grid(E, name, nr, nc, pool):
    rows = []
    for i in range(nr):
        rows.append([])
        for j in range(nc):
            p = pool[E.choose(f"{name}{i}{j}", len(pool))]
            rows[-1].append(I(E.int(f"{name}v{i}{j}")) if p is None else p)
    return rows


def given_out(E, W, o, rows, label, how):
    """The SymPy matrix o holds the entries."""
    nr, nc = len(rows), len(rows[0]) if rows else 0
    E.check(label + ":shape", tuple(o.shape) == (nr, nc), lambda: f"{how}: {o.shape}")
    for i in range(nr):
        for j in range(nc):
            sympy_means(E, o[i, j], rows[i][j], label, lambda: f"{how}[{i}, {j}] became {o[i, j]!r}")


def given_in(E, W, M, o, nr, nc, label, how):
    """The Matrix M holds the entries of the SymPy matrix o."""
    E.check(label + ":shape", type(M) is W.sc.Matrix and M.shape == (nr, nc), lambda: f"{how}: {M.shape}")
    ls = M.tolist()
    E.check(label + ":shape", len(ls) == nr and all([len(r) == nc for r in ls]), lambda: f"{how}: {ls}")
    for i in range(nr):
        for j in range(nc):
            e = M[i, j]
            E.check(label + ":entry", type(e) is W.sc.Expr and ls[i][j] is e, lambda: f"{how}[{i}, {j}]: {e!r}")
            expr_means(E, W, e, o[i, j], label, lambda: f"{how}[{i}, {j}] became {e!r}")


def both_ways(E, W, M, rows, label):
    """to_sympy of a Matrix with these entries and from_sympy of the result."""
    nr, nc = len(rows), len(rows[0])
    before = M.tolist()
    r = E.call(lambda: M.to_sympy())
    E.check(label + ":ok", r[0] == "ok", lambda: f"{before!r}: {r[1]!r}")
    o = r[1]
    given_out(E, W, o, rows, label, f"{before!r}")
    if E.symbolic or all([supported(v) for v in o]):
        r = E.call(lambda: W.sc.Matrix.from_sympy(o))
        E.check(label + ":back:ok", r[0] == "ok", lambda: f"{before!r}: {r[1]!r}")
        given_in(E, W, r[1], o, nr, nc, label + ":back", f"{o!r}")
    after = M.tolist()
    E.check(label + ":unchanged", M.shape == (nr, nc) and all([a is b for p, q in zip(before, after) for a, b in zip(p, q)]))


@C.harness
def forth(E, nr, nc, kinds):
    W = Cas(E)
    rows = grid(E, "m", nr, nc, pools(E, kinds))
    both_ways(E, W, W.sc.Matrix([[W.build(s) for s in r] for r in rows]), rows, "forth")


@C.harness
def derived(E, nr, nc, n=4):
    """Sums and derivatives, whose entries are stored in another order or are zero."""
    W = Cas(E)
    x = S("x")
    P = [I(0), App(POW, x, I(2)), S("y"), x][:n]
    a = grid(E, "a", nr, nc, P)
    zb = [[E.boolean(f"z{i}{j}") for j in range(nc)] for i in range(nr)]
    b = [[I(0) if zb[i][j] else App(F(f"g{i}{j}"), S("y")) for j in range(nc)] for i in range(nr)]
    A = W.sc.Matrix([[W.build(s) for s in r] for r in a])
    B = W.sc.Matrix([[W.build(s) for s in r] for r in b])
    how = E.choose("how", 4)
    if how == 0:
        M = A + B
    elif how == 1:
        M = A.diff(W.build(x))
    elif how == 2:
        M = B + A.diff(W.build(x))
    else:
        M = A.binop(B, W.sc.Mul)
    # that the entries are right is C23's matter
    both_ways(E, W, M, [[tree_spec(W, M[i, j].rep) for j in range(nc)] for i in range(nr)], "derived")


@C.harness
def back(E, nr, nc, kinds, ways):
    """from_sympy of a SymPy matrix made in several ways."""
    W = Cas(E)
    sy = E.mod("sympy")
    rows = grid(E, "m", nr, nc, pools(E, kinds))
    make = Sympy(E)
    es = [[make.build(s) for s in r] for r in rows]
    way = ways[E.choose("way", len(ways))]
    if way == "list":
        o = sy.Matrix(nr, nc, [e for r in es for e in r])
    elif way == "dict":
        o = sy.SparseMatrix(nr, nc, {(i, j): es[i][j] for j in reversed(range(nc)) for i in range(nr)})
    elif way == "immutable":
        o = sy.ImmutableMatrix(nr, nc, [e for r in es for e in r])
    else:  # filled one entry after the other, the last first, some written twice
        o = sy.zeros(nr, nc)
        ps = [(i, j) for i in range(nr) for j in range(nc)]
        for i, j in ps[::-1] if way == "reversed" else sorted(ps, key=lambda p: (p[1], -p[0])):
            o[i, j] = sy.Symbol("x")
            o[i, j] = es[i][j]
    r = E.call(lambda: W.sc.Matrix.from_sympy(o))
    E.check("back:ok", r[0] == "ok", lambda: f"{o!r}: {r[1]!r}")
    M = r[1]
    given_in(E, W, M, o, nr, nc, "back", f"{o!r} ({way})")
    r = E.call(lambda: M.to_sympy())
    E.check("back:forth:ok", r[0] == "ok", lambda: f"{o!r}: {r[1]!r}")
    given_out(E, W, r[1], [[spec_of(o[i, j]) for j in range(nc)] for i in range(nr)] if nr else [], "back:forth", f"{o!r}") if nr else None
    E.check("back:forth:shape", tuple(r[1].shape) == (nr, nc))
    if way != "immutable" and nr and nc:  # changing the SymPy matrix afterwards changes nothing
        l1 = M.tolist()
        o[0, 0] = sy.Symbol("changed")
        l2 = M.tolist()
        E.check("back:unchanged", all([p is q for m, n in zip(l1, l2) for p, q in zip(m, n)]))


@C.harness
def alike(E):
    """Entries that differ and print the same."""
    W = Cas(E)
    v, i = E.str("v", "ident"), E.int("i", 0)
    x, y = S("x"), S("y")
    n = [0, 1, 7][E.choose("number", 3)]
    pairs = [(S("x + y"), App(ADD, x, y)), (S("x*y"), App(MUL, x, y)), (S(str(n)), I(n)), (S("f(x)"), App(F("f"), x)), (S("sin(x)"), App(F("sin"), x)),
             (S("(x, y)"), S("x, y")), (App(F("f"), S("x, y")), App(F("f"), x, y)), (App(F("f"), S("1")), App(F("f"), I(1))), (S("x**2"), App(POW, x, I(2)))]
    p, q = pairs[E.choose("pair", len(pairs))]
    z = S(v)
    rows = [[[p, q]], [[q], [p]], [[p, I(i)], [z, q]], [[q, z, p]]][E.choose("places", 4)]
    nr, nc = len(rows), len(rows[0])
    M = W.sc.Matrix([[W.build(s) for s in r] for r in rows])
    both_ways(E, W, M, rows, "alike")
    make = Sympy(E)
    o = E.mod("sympy").Matrix(nr, nc, [make.build(s) for r in rows for s in r])
    r = E.call(lambda: W.sc.Matrix.from_sympy(o))
    E.check("alike:given:ok", r[0] == "ok", lambda: f"{o!r}: {r[1]!r}")
    given_in(E, W, r[1], o, nr, nc, "alike:given", f"{o!r}")


@C.harness
def zeros(E, most):
    """All-zero and empty matrices of every shape."""
    W = Cas(E)
    sy = E.mod("sympy")
    nr, nc = E.choose("rows", most + 1), E.choose("columns", most + 1)
    o = sy.zeros(nr, nc)
    r = E.call(lambda: W.sc.Matrix.from_sympy(o))
    E.check("zeros:ok", r[0] == "ok", lambda: f"{nr}x{nc}: {r[1]!r}")
    given_in(E, W, r[1], o, nr, nc, "zeros", f"{nr}x{nc}")
    M = r[1]
    if nr:
        M = W.sc.Matrix([[0] * nc for _ in range(nr)])
    for m in (r[1], M):
        q = E.call(lambda: m.to_sympy())
        E.check("zeros:forth:ok", q[0] == "ok", lambda: f"{nr}x{nc}: {q[1]!r}")
        E.check("zeros:forth", tuple(q[1].shape) == (nr, nc) and all([v == sy.Integer(0) for v in q[1]]), lambda: f"{nr}x{nc}: {q[1]!r}")


@C.harness
def refused(E):
    """A matrix with an entry that cannot be converted."""
    W = Cas(E)
    sy = E.mod("sympy")
    x = sy.Symbol("x")
    bad = [lambda: sy.Rational(1, 2), lambda: sy.Float(0.5), lambda: sy.pi, lambda: sy.tan(x), lambda: sy.exp(x) + x][E.choose("bad", 5)]()
    i, j = E.choose("i", 2), E.choose("j", 3)
    o = sy.zeros(2, 3)
    o[0, 1] = sy.Integer(E.int("v"))
    o[i, j] = bad
    r = E.call(lambda: W.sc.Matrix.from_sympy(o))
    E.check("refused", r[0] == "exc" and isinstance(r[1], NotImplementedError), lambda: f"{o!r}: {r[1]!r}")
    o[i, j] = x
    given_in(E, W, W.sc.Matrix.from_sympy(o), o, 2, 3, "after", f"{o!r}")


@C.harness
def big(E):
    """Larger matrices, some patterns."""
    W = Cas(E)
    nr, nc = BIG[E.choose("shape", len(BIG))]
    rows = big_rows(E, "m", nr, nc, lambda k: App(F("f"), S("x"), I(k)))
    M = W.sc.Matrix([[W.build(s) for s in r] for r in rows])
    if E.choose("sum", 2):
        other = big_rows(E, "n", nr, nc, lambda k: App(F("g"), S("y"), I(k)), ["sparse"])
        M = W.sc.Matrix([[W.build(s) for s in r] for r in other]) + M
        rows = [[tree_spec(W, M[i, j].rep) for j in range(nc)] for i in range(nr)]
    both_ways(E, W, M, rows, "big")


C.add(big, "five shapes up to 6x7, 1x36 and 36x1, eight patterns, and sums", expect=("big", "big:back"))
C.add(forth, "1x1 of 11 kinds of entry", nr=1, nc=1, kinds=["0", "int", "sym", "x2", "s", "f", "c", "x+y", "f0", "-x", "2"],
      expect=("forth", "forth:ok", "forth:shape", "forth:back", "forth:back:ok", "forth:back:entry", "forth:unchanged"))
C.add(forth, "2x2 of 0, int", nr=2, nc=2, kinds=["0", "int"], expect=("forth",))
C.add(forth, "1x2 of 0, int, symbol", nr=1, nc=2, kinds=["0", "int", "sym"], expect=("forth",))
C.add(forth, "1x3 of 0, x, y, x**2, int", nr=1, nc=3, kinds=["0", "x", "y", "x2", "int"], expect=("forth",))
C.add(forth, "3x1 of 0, sin, f, int", nr=3, nc=1, kinds=["0", "s", "f", "int"], expect=("forth",))
C.add(forth, "2x3 of 0, x, f", nr=2, nc=3, kinds=["0", "x", "f"], expect=("forth",))
C.add(derived, "2x2 sums, products, derivatives of 0, x**2", nr=2, nc=2, n=2, expect=("derived", "derived:back", "derived:shape"))
C.add(derived, "1x3 sums, products, derivatives", nr=1, nc=3, expect=("derived",))
C.add(back, "2x2 of 0, x, f, five ways", nr=2, nc=2, kinds=["0", "x", "f"], ways=["list", "dict", "immutable", "reversed", "columns"], expect=("back",))
C.add(back, "1x2 of 0, int, symbol, five ways", nr=1, nc=2, kinds=["0", "int", "sym"], ways=["list", "dict", "immutable", "reversed", "columns"],
      expect=("back", "back:ok", "back:shape", "back:forth", "back:unchanged"))
C.add(back, "2x3 of 0, x, f, three ways", nr=2, nc=3, kinds=["0", "x", "f"], ways=["list", "reversed", "columns"], expect=("back",))
C.add(back, "3x2 of 0, y, out of order", nr=3, nc=2, kinds=["0", "x+y"], ways=["reversed", "columns"], expect=("back",))
C.add(back, "1x1 of 10 kinds of entry", nr=1, nc=1, kinds=["0", "int", "sym", "x2", "s", "f", "c", "x+y", "f0", "-x"], ways=["list", "dict"], expect=("back",))
C.add(alike, "9 pairs of entries that print the same, 4 placements", expect=("alike", "alike:back", "alike:given"))
C.add(zeros, "all-zero matrices up to 4x4, 0 rows or columns included", most=4, expect=("zeros:ok", "zeros:shape", "zeros:forth"))
C.add(refused, "five other entries at each of 6 places", expect=("refused", "after"))
C.deep(forth, "3x3 of 0, x, y+x", nr=3, nc=3, kinds=["0", "x", "x+y"])
C.deep(forth, "2x3 of 0, int, symbol", nr=2, nc=3, kinds=["0", "int", "sym"])
C.deep(derived, "2x2 sums, products, derivatives of 0, x, y, x**2", nr=2, nc=2)
C.deep(forth, "2x2 of 0, int, symbol", nr=2, nc=2, kinds=["0", "int", "sym"])
C.deep(back, "2x2 of 0, int, symbol, three ways", nr=2, nc=2, kinds=["0", "int", "sym"], ways=["list", "reversed", "columns"])
C.deep(derived, "2x3 sums, products, derivatives", nr=2, nc=3)
C.deep(back, "3x3 of 0, x, out of order", nr=3, nc=3, kinds=["0", "x"], ways=["list", "dict", "reversed", "columns"])
C.outside = ["shapes beyond those stated", "SymPy's own rewriting of entries (a stub SymPy records what is built; the real one runs in replays)"]
C.assumptions = ["sin, cos, ** and undefined functions are arbitrary functions of their arguments"]
