"""C17: the LaTeX form groups exactly as the expression does."""

from harness.c16 import heads
from harness.texts import *  # noqa: F403
from px.registry import Check

CHECK = Check("C17", __name__)
C = CHECK


def well_formed(E, text):
    """Brackets and braces nest properly."""
    close = {"(": ")", "{": "}"}
    stack = []
    for kind, v in E.pieces(text):
        if kind == "lit":
            for c in v:
                if c in close:
                    stack.append(close[c])
                elif c in ")}":
                    if not stack or stack.pop() != c:
                        return False
    return not stack


def judge(E, W, s, label):
    e = W.build(s)
    r = E.call(lambda: e.eval_latex())
    E.check(label + ":prints", r[0] == "ok" and isinstance(r[1], str), lambda: f"{show(s)}: {r[1]!r}")
    text = r[1]
    E.check(label + ":dollars", E.call(lambda: e._repr_latex_())[1] == "$" + text + "$")
    E.check(label + ":balanced", well_formed(E, text), lambda: f"{show(s)}: {text}")
    try:
        n = Reader(E, text, tex=True).read()
    except Unreadable as err:
        E.check(label, False, f"{show(s)}: {text}: {err}")
    E.check(label, reads_as(E, n, s), lambda: f"{show(s)} is {text}")


@C.harness
def reads(E, n, leaves, which, fname=0):
    """Every expression of n compound nodes."""
    fn = F(E.str("fn", "ident", avoid=("pow", "Add", "Mul", "sin", "cos"))) if fname else F("h")
    W = Cas(E)
    ls = [S(E.str("x", "ident")), I(E.int("i")), S(E.str("y", "ident")), F("k")][:leaves]
    hs = heads(fn)
    hs["cos"] = (F("cos"), (1,))
    s = gen_dag(E, "p", ls, [hs[h] for h in which], n, interchangeable=False)[-1]
    judge(E, W, s, "reads")


@C.harness
def tower(E, n):
    """Powers of powers, of negative numbers, sums and products, any nesting."""
    i = E.int("i")
    W = Cas(E)
    e = [S(E.str("x", "ident", avoid=("y",))), I(i)][E.choose("start", 2)]
    o = [S("y"), I(E.int("j", 2))][E.choose("other", 2)]
    for k in range(n):
        e = [lambda e: App(F("pow"), e, o), lambda e: App(F("pow"), o, e), lambda e: App(F("Mul"), I(-1), e),
             lambda e: App(F("Add"), e, o), lambda e: App(F("sin"), e), lambda e: App(F("pow"), e, e)][E.choose(f"step{k}", 6)](e)
    judge(E, W, e, "tower")


@C.harness
def head_calls(E):
    """Heads that are calls themselves."""
    nx, i = E.str("x", "ident"), E.int("i")
    W = Cas(E)
    x = S(nx)
    inner = [App(F("Add"), x, I(i)), App(F("f"), x, I(i)), App(S("t"), x), App(App(F("D"), x), I(i)), App(F("f"))][E.choose("head", 5)]
    s = App(inner, *[x, I(i)][: E.choose("args", 3)])
    s = [s, App(F("pow"), s, I(2)), App(F("Add"), s, x), App(F("cos"), s), App(s, s)][E.choose("where", 5)]
    judge(E, W, s, "head")


@C.harness
def wide(E, n):
    nx, i = E.str("x", "ident"), E.int("i")
    W = Cas(E)
    pool = [S(nx), I(i), App(F("pow"), S(nx), I(i)), App(F("Add"), I(i), S(nx)), App(F("sin"), S("y"))]
    k, m = E.choose("from", 5), E.choose("step", 3)
    ts = [pool[(k + j * (m + 1)) % 5] for j in range(n)]
    h = [F("Add"), F("Mul"), F("f"), F("List"), S("z")][E.choose("head", 5)]
    judge(E, W, App(h, *ts), "wide")


C.add(reads, "2 compound nodes over +,*,** and sin, 2 leaves", n=2, leaves=2, which=["A2", "M2", "P", "sin"],
      expect=("reads", "reads:dollars", "reads:balanced"))
C.add(reads, "1 compound node, every head, 3 leaves", n=1, leaves=3,
      which=["A", "M", "P", "sin", "cos", "f", "fn", "D", "L", "S"], fname=1, expect=("reads",))
C.add(reads, "3 compound nodes over +,*,**, 1 leaf", n=3, leaves=1, which=["A2", "M2", "P"], expect=("reads",))
C.add(reads, "2 compound nodes over ** and other heads", n=2, leaves=2, which=["P", "cos", "D", "S", "L"], expect=("reads",))
C.add(reads, "2 compound nodes over sums and products of one to three terms, 1 leaf", n=2, leaves=1, which=["A", "A1", "M1", "P"],
      expect=("reads",))
C.add(tower, "3 levels of 6 forms, 4 starts", n=3, expect=("tower",))
C.add(head_calls, "5 compound heads in 5 places", expect=("head",))
C.add(wide, "9 operands", n=9, expect=("wide",))
C.add(wide, "36 operands", n=36, expect=("wide",))
C.deep(reads, "3 compound nodes over +,*,**,sin, 2 leaves", n=3, leaves=2, which=["A2", "M2", "P", "sin"])
C.deep(reads, "2 compound nodes, every head, 2 leaves", n=2, leaves=2, which=["A", "M", "P", "sin", "cos", "f", "D", "L", "S"])
C.deep(tower, "4 levels of 6 forms", n=4)
C.deep(wide, "30 operands", n=30)
C.outside = ["sums and products of no terms", "heads that are integers", "names that are not identifiers",
             "powers, sin and cos of another number of arguments", "how TeX typesets the characters of a name"]
