"""C20: bin_expand makes sums and products binary and left-associated, nothing else."""

from harness.calc import is_true
from harness.lib import *  # noqa: F403
from harness.texts import head_name
from px.registry import Check

CHECK = Check("C20", __name__)
C = CHECK


def expand(E, s, memo):
    """The expansion the property states, on specs."""
    if id(s) in memo:
        return memo[id(s)][0]
    if type(s) is Leaf:
        r = s
    else:
        args = [expand(E, a, memo) for a in s.args]
        h = head_name(E, s, ("Add", "Mul"))
        if h is None:
            r = s if all(a is b for a, b in zip(args, s.args)) else App(s.head, *args)
        elif not args:
            r = I(0 if h == "Add" else 1)
        else:
            r = args[0]
            for a in args[1:]:
                r = App(s.head, r, a)
            if len(args) == 2 and all(a is b for a, b in zip(args, s.args)):
                r = s
    memo[id(s)] = (r, s)
    return r


def judge(E, W, s, label, meaning=True):
    e = W.build(s)
    want = expand(E, s, {})
    r = E.call(lambda: e.bin_expand())
    E.check(label + ":ok", r[0] == "ok", lambda: f"{show(s)}: {r[1]!r}")
    got = r[1]
    E.check(label + ":type", type(got) is W.sc.Expr)
    E.check(label, matches(E, W, got.rep, want), lambda: f"{show(s)}: {got!r}, not {show(want)}")
    E.check(label + ":object", got is W.build(want))
    if meaning:
        E.check(label + ":value", E.num_eq(den_tree(E, W, got.rep), den_spec(E, s)), lambda: f"{show(s)}: {got!r}")
    E.check(label + ":again", got.bin_expand() is got, lambda: f"{show(s)}")
    E.check(label + ":operand", matches(E, W, e.rep, s))
    # the transformer itself, on trees
    E.check(label + ":tree", W.sc.bin_expand(e.rep) is got.rep)


def heads(x):
    return {
        "A": (F("Add"), (1, 2, 3)), "M": (F("Mul"), (1, 2, 3)), "A0": (F("Add"), (0, 1)), "M0": (F("Mul"), (0, 2)), "A3": (F("Add"), (3,)),
        "M3": (F("Mul"), (3,)), "A2": (F("Add"), (2,)), "f": (F("f"), (1, 3)), "P": (F("pow"), (2,)), "L": (F("List"), (0, 3)),
        "H": (App(F("Add"), x, x, x), (1, 3)), "Sy": (S("Add"), (3,)), "A4": (F("Add"), (4,)), "M4": (F("Mul"), (4,)),
    }


@C.harness
def shapes(E, n, leaves, which, generic=0):
    """Every expression of n compound nodes (generic: leaves that are not among the named constants)."""
    W = Cas(E)
    if generic:
        ls = [S(E.str("s0", "any", avoid=("x", "y"))), I(E.int("i0", 4))][:leaves]
    else:
        ls = [S(E.str("s0", "any")), I(E.int("i0")), S(E.str("s1", "any"))][:leaves]
    hs = heads(ls[0])
    s = gen_dag(E, "p", ls, [hs[h] for h in which], n, interchangeable=False)[-1]
    judge(E, W, s, "expand")


@C.harness
def atoms(E):
    W = Cas(E)
    for s in (S(E.str("s", "any")), I(E.int("i")), F(E.str("f", "any")), F("Add"), F("Mul")):
        judge(E, W, s, "atom")
    w = W.sc.Expr.new_wild("w")
    E.check("wild", w.bin_expand() is w)


@C.harness
def named(E):
    """Only the two heads are expanded, whatever the others are called."""
    W = Cas(E)
    fn = F(E.str("fn", "any"))
    x, i, y = S(E.str("x", "any")), I(E.int("i")), S("y")
    s = App(fn, x, i, y)
    judge(E, W, s, "named", meaning=False)
    judge(E, W, App(F("Mul"), s, x, s), "named:inside", meaning=False)
    judge(E, W, App(S(E.str("sy", "any")), x, i, y), "named:symbol")


@C.harness
def wide(E, n):
    """Many terms."""
    W = Cas(E)
    pool = [S("x"), I(E.int("i")), App(F("Mul"), S("x"), S("y"), I(3)), App(F("Add"), S("y"), S("x")), App(F("f"), S("y"))]
    k, m = E.choose("from", 5), E.choose("step", 4)
    ts = [pool[(k + j * (m + 1)) % 5] for j in range(n)]
    h = [F("Add"), F("Mul"), F("f"), F("List")][E.choose("head", 4)]
    judge(E, W, App(h, *ts), "wide")
    judge(E, W, App(F("Mul"), App(h, *ts), App(F("Add"), *ts[1:]), I(2)), "wide:inside", meaning=False)


@C.harness
def deep(E, n):
    """Long chains with shared parts."""
    W = Cas(E)
    x, i = S("x"), I(E.int("i"))
    steps = [lambda e: App(F("Add"), e, x, i), lambda e: App(F("Mul"), x, e, e), lambda e: App(F("f"), e), lambda e: App(F("Add"), e),
             lambda e: App(F("Mul"), i, x, e, x), lambda e: App(F("pow"), e, x)]
    pat = [E.choose(f"step{k}", len(steps)) for k in range(2)]
    e = x
    for k in range(n):
        e = steps[pat[k % 2]](e)
    judge(E, W, e, "deep", meaning=False)


C.add(shapes, "2 compound nodes over +,* of 1 to 3 terms, 1 leaf", n=2, leaves=1, which=["A", "M"], expect=("expand", "expand:value", "expand:again"))
C.add(shapes, "1 compound node, every head, 3 leaves", n=1, leaves=3, which=["A", "M", "A0", "M0", "f", "P", "L", "H", "Sy"], expect=("expand",))
C.add(shapes, "2 compound nodes over +,*,pow, 2 leaves", n=2, leaves=2, generic=1, which=["A2", "M3", "P"], expect=("expand",))
C.add(shapes, "2 compound nodes over empty sums and products, compound heads", n=2, leaves=2, generic=1, which=["A0", "M0", "L", "Sy"], expect=("expand",))
C.add(shapes, "3 compound nodes over + of 3, f, 1 leaf", n=3, leaves=1, which=["A3", "P"], expect=("expand",))
C.add(shapes, "1 compound node of 4 terms, 2 leaves", n=1, leaves=2, which=["A4", "M4"], expect=("expand",))
C.add(atoms, "atoms", expect=("atom", "wild"))
C.add(named, "heads of arbitrary names", expect=("named", "named:inside", "named:symbol"))
C.add(wide, "9 terms", n=9, expect=("wide", "wide:inside"))
C.add(wide, "36 terms", n=36, expect=("wide", "wide:inside"))
C.add(deep, "chains 30 deep", n=30, expect=("deep",))
C.deep(shapes, "3 compound nodes over +,* of 1 to 3 terms, 1 leaf", n=3, leaves=1, which=["A", "M3"])
C.deep(shapes, "2 compound nodes over +,* of 1 to 3 terms, 2 leaves", n=2, leaves=2, which=["A", "M"])
C.deep(wide, "40 terms", n=40)
C.deep(deep, "chains 200 deep", n=200)
C.outside = ["sums and products inside heads", "more distinct compound nodes than stated (chains apart)"]
C.assumptions = ["values of symbols and other functions are arbitrary real functions"]
