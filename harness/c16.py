"""C16: the printed form of an Expr reads back, as Python, to the same expression."""

import keyword

from harness.texts import *  # noqa: F403
from px.registry import Check

CHECK = Check("C16", __name__)
C = CHECK


def judge(E, W, s, label, names=()):
    e = W.build(s)
    texts = []
    for way in (str, repr, lambda e: e.eval_repr(), lambda e: f"{e}"):
        r = E.call(lambda: way(e))
        E.check(label + ":prints", r[0] == "ok" and isinstance(r[1], str), lambda: f"{show(s)}: {r[1]!r}")
        texts.append(r[1])
    text = texts[0]
    for t in texts[1:]:
        E.check(label + ":alike", t == text, lambda: f"{show(s)}: {t} and {text}")
    try:
        n = Reader(E, text).read()
    except Unreadable as err:
        E.check(label, False, f"{show(s)}: {text}: {err}")
    E.check(label, reads_as(E, n, s), lambda: f"{show(s)} prints as {text}")
    if not E.symbolic and any(keyword.iskeyword(k) for k in names):
        return
    try:
        t, ph = python_reading(E, text)
    except SyntaxError as err:
        E.check(label + ":python", False, f"{show(s)}: {text}: {err}")
    E.check(label + ":python", python_means(E, t, ph, s), lambda: f"{show(s)} prints as {text}")


def heads(fn):
    D = App(F("D"), S("q"))
    return {
        "A": (F("Add"), (2, 3)), "M": (F("Mul"), (2, 3)), "A2": (F("Add"), (2,)), "M2": (F("Mul"), (2,)),
        "A1": (F("Add"), (1,)), "M1": (F("Mul"), (1,)),
        "P": (F("pow"), (2,)), "sin": (F("sin"), (1,)), "f": (F("f"), (0, 1, 2)), "fn": (fn, (1, 2)), "f1": (F("f"), (1,)),
        "D": (D, (1,)), "L": (F("List"), (0, 2)), "S": (S("s"), (1,)), "DD": (App(D, I(-2)), (1, 2)),
    }


@C.harness
def reads(E, n, leaves, which, fname=0):
    """Every expression of n compound nodes."""
    nx, ny = E.str("x", "ident"), E.str("y", "ident")
    fn = F(E.str("fn", "ident")) if fname else F("h")
    W = Cas(E)
    ls = [S(nx), I(E.int("i")), S(ny), F("k")][:leaves]
    hs = heads(fn)
    s = gen_dag(E, "p", ls, [hs[h] for h in which], n, interchangeable=False)[-1]
    if fname:
        for name in ("pow", "Add", "Mul"):
            E.assume(E.not_(E.all([values_equal(E, "Function", fn.value, name)])))
    judge(E, W, s, "reads", [nx, ny] + ([fn.value] if fname else []))


@C.harness
def head_calls(E):
    """Heads that are calls, sums, products and powers themselves."""
    nx, i = E.str("x", "ident"), E.int("i")
    W = Cas(E)
    x = S(nx)
    inner = [App(F("Add"), x, I(i)), App(F("Mul"), x, x), App(F("pow"), x, I(i)), App(F("f"), x, I(i)), App(S("t"), x),
             App(App(F("D"), x), I(i)), App(F("f"))][E.choose("head", 7)]
    s = App(inner, *[x, I(i)][: E.choose("args", 3)])
    s = [s, App(F("pow"), s, I(2)), App(F("Add"), s, x), App(F("sin"), s), App(s, s)][E.choose("where", 5)]
    judge(E, W, s, "head", [nx])


@C.harness
def tower(E, n):
    """Powers of powers, of negative numbers, sums and products, any nesting."""
    nx, i = E.str("x", "ident", avoid=("y",)), E.int("i")
    W = Cas(E)
    e = [S(nx), I(i)][E.choose("start", 2)]
    o = [S("y"), I(E.int("j", 2))][E.choose("other", 2)]
    for k in range(n):
        e = [lambda e: App(F("pow"), e, o), lambda e: App(F("pow"), o, e), lambda e: App(F("Mul"), I(-1), e),
             lambda e: App(F("Add"), e, o), lambda e: App(F("f"), e), lambda e: App(F("pow"), e, e)][E.choose(f"step{k}", 6)](e)
    judge(E, W, e, "tower", [nx])


@C.harness
def operators(E, n):
    """Text of formulas written with operators (differences, quotients)."""
    nx, i = E.str("x", "ident"), E.int("i")
    W = Cas(E)
    A, M, P = F("Add"), F("Mul"), F("pow")
    e, o = S(nx), [S("y"), I(i)][E.choose("other", 2)]
    neg = I(-1)
    steps = [lambda a, b: App(A, a, App(M, neg, b)), lambda a, b: App(M, a, App(P, b, neg)), lambda a, b: App(M, neg, a),
             lambda a, b: App(P, a, b), lambda a, b: App(M, a, b)]
    for k in range(n):
        f = steps[E.choose(f"step{k}", 5)]
        e = f(o, e) if E.choose(f"swap{k}", 2) else f(e, o)
    judge(E, W, e, "operators", [nx])


@C.harness
def wide(E, n):
    nx, i = E.str("x", "ident"), E.int("i")
    W = Cas(E)
    pool = [S(nx), I(i), App(F("pow"), S(nx), I(i)), App(F("Add"), I(i), S(nx)), App(F("f"), S("y"))]
    k, m = E.choose("from", 5), E.choose("step", 3)
    ts = [pool[(k + j * (m + 1)) % 5] for j in range(n)]
    h = [F("Add"), F("Mul"), F("f"), F("List"), S("z")][E.choose("head", 5)]
    judge(E, W, App(h, *ts), "wide", [nx])


@C.harness
def pairs(E):
    """Printing alike means being the same expression (leaf by leaf)."""
    a, b = E.str("a", "ident"), E.str("b", "ident")
    i, j = E.int("i"), E.int("j")
    W = Cas(E)
    mk = [lambda v: v, lambda v: App(F("f"), v), lambda v: App(F("Add"), v, S("c")), lambda v: App(F("Mul"), S("c"), v),
          lambda v: App(F("pow"), v, S("c")), lambda v: App(F("pow"), S("c"), v)][E.choose("form", 6)]
    for p, q in ((S(a), S(b)), (I(i), I(j))):
        e1, e2 = W.build(mk(p)), W.build(mk(q))
        same = str(e1) == str(e2)
        E.check("pair", E.iff(same, e1 is e2), lambda: f"{e1} and {e2}")
    e1, e2 = W.build(mk(S(a))), W.build(mk(I(j)))
    E.check("pair:kinds", E.not_(E.all([str(e1) == str(e2)])))


C.add(reads, "2 compound nodes over +,*,** and f, 2 leaves", n=2, leaves=2, which=["A2", "M2", "P", "f1"],
      expect=("reads", "reads:python", "reads:alike"))
C.add(reads, "1 compound node, every head, 3 leaves", n=1, leaves=3,
      which=["A", "M", "P", "sin", "f", "fn", "D", "L", "S", "DD"], fname=1, expect=("reads",))
C.add(reads, "3 compound nodes over +,*,**, 1 leaf", n=3, leaves=1, which=["A2", "M2", "P"], expect=("reads",))
C.add(reads, "2 compound nodes over ** and other heads", n=2, leaves=2, which=["P", "sin", "D", "S", "L"], expect=("reads",))
C.add(reads, "2 compound nodes over sums and products of one to three terms, 1 leaf", n=2, leaves=1, which=["A", "A1", "M1", "P"],
      expect=("reads",))
C.add(head_calls, "7 compound heads in 5 places", expect=("head",))
C.add(tower, "3 levels of 6 forms, 4 starts", n=3, expect=("tower",))
C.add(operators, "formulas of 2 operators, both orders", n=2, expect=("operators",))
C.add(wide, "9 operands", n=9, expect=("wide",))
C.add(wide, "36 operands", n=36, expect=("wide",))
C.add(pairs, "6 forms with two names, two ints, or one of each", expect=("pair", "pair:kinds"))
C.deep(reads, "3 compound nodes over +,*,**,f, 2 leaves", n=3, leaves=2, which=["A2", "M2", "P", "f1"])
C.deep(reads, "2 compound nodes, every head, 2 leaves", n=2, leaves=2, which=["A", "M", "P", "sin", "f", "D", "L", "S", "DD"])
C.deep(tower, "4 levels of 6 forms", n=4)
C.deep(operators, "formulas of 3 operators, both orders", n=3)
C.deep(wide, "30 operands", n=30)
C.outside = ["sums and products of no terms", "heads that are integers", "names that are not identifiers (C18)",
             "powers of one argument or more than two", "one name used for a symbol and for a function"]
