"""C26: SymPy conversion preserves the meaning of expressions in both directions."""

from harness.symp import *  # noqa: F403
from px.registry import Check

CHECK = Check("C26", __name__)
C = CHECK


def there_and_back(E, W, s, label):
    """to_sympy and from_sympy of an expression."""
    e = W.build(s)
    r = E.call(lambda: e.to_sympy())
    E.check(label + ":ok", r[0] == "ok", lambda: f"{show(s)}: {r[1]!r}")
    o = r[1]
    sympy_means(E, o, s, label, lambda: f"{show(s)} became {o!r}")
    if not supported(o):  # real SymPy: a rational, say
        return
    r = E.call(lambda: W.sc.Expr.from_sympy(o))
    E.check(label + ":back:ok", r[0] == "ok" and type(r[1]) is W.sc.Expr, lambda: f"{show(s)} as {o!r}: {r[1]!r}")
    expr_means(E, W, r[1], o, label + ":back", lambda: f"{o!r} became {r[1]!r}")
    sympy_means(E, o, tree_spec(W, r[1].rep), label + ":back", lambda: f"{o!r} became {r[1]!r}")
    for way in (e.to_sympy, e._sympy_):  # the second for sympify
        again = E.call(way)
        E.check(label + ":again", again[0] == "ok" and again[1] == o, lambda: f"{show(s)}: {again[1]!r}, then {o!r}")


def back(E, W, s, label):
    """from_sympy of a SymPy object built directly."""
    o = Sympy(E).build(s)
    r = E.call(lambda: W.sc.Expr.from_sympy(o))
    if not supported(o):
        E.check(label + ":refused", r[0] == "exc" and isinstance(r[1], NotImplementedError), lambda: f"{o!r}: {r[1]!r}")
        return
    E.check(label + ":ok", r[0] == "ok" and type(r[1]) is W.sc.Expr, lambda: f"{o!r}: {r[1]!r}")
    expr_means(E, W, r[1], o, label, lambda: f"{o!r} became {r[1]!r}")
    r2 = E.call(lambda: r[1].to_sympy())
    E.check(label + ":forth:ok", r2[0] == "ok", lambda: f"{o!r} became {r[1]!r}: {r2[1]!r}")
    sympy_means(E, r2[1], spec_of(o), label + ":forth", lambda: f"{o!r} became {r[1]!r} became {r2[1]!r}")


def heads():
    return {
        "A": (F("Add"), (1, 2, 3)), "M": (F("Mul"), (1, 2, 3)), "A2": (F("Add"), (2,)), "M2": (F("Mul"), (2,)), "A0": (F("Add"), (0, 1)), "M0": (F("Mul"), (0, 1)),
        "P": (F("pow"), (2,)), "sin": (F("sin"), (1,)), "cos": (F("cos"), (1,)), "L": (F("List"), (0, 1, 2)), "f": (F("f"), (0, 1, 2)), "g": (F("g"), (1,)),
        "L1": (F("List"), (1,)), "A3": (F("Add"), (3,)), "L3": (F("List"), (3,)), "f3": (F("f"), (3,)),
    }


def pick(E, n, which, leaves, lo):
    ls = [S(E.str("s0", "ident")), I(E.int("i0", lo)), S(E.str("s1", "ident")), I(E.int("i1", lo))][:leaves]
    hs = heads()
    return gen_dag(E, "p", ls, [hs[h] for h in which], n, interchangeable=False)[-1]


@C.harness
def forth(E, n, which, leaves, lo=None):
    """Every expression of n compound nodes."""
    W = Cas(E)
    s = pick(E, n, which, leaves, lo)
    E.assume(tuples_ok(E, s))
    there_and_back(E, W, s, "forth")


@C.harness
def given(E, n, which, leaves, lo=None):
    """Every SymPy expression of n compound nodes."""
    W = Cas(E)
    s = pick(E, n, which, leaves, lo)
    E.assume(tuples_ok(E, s))
    back(E, W, s, "given")


@C.harness
def names(E):
    """Symbols and functions of every name."""
    W = Cas(E)
    a, b = S(E.str("a", "printable")), S(E.str("b", "printable"))
    f = F(E.str("f", "ident"))
    for known in KNOWN:
        E.assume(E.not_(values_equal(E, "Function", f.value, known)))
    s = [App(F("Add"), a, App(F("Mul"), b, b)), App(f, a, b), App(F("List"), b, a, App(f, a)), a, App(F("pow"), App(f), b)][E.choose("form", 5)]
    there_and_back(E, W, s, "name")
    back(E, W, s, "name:given")
    o = W.build(a).to_sympy()
    E.check("symbol", o.is_Symbol and o.name == a.value)
    o = W.build(App(f, a)).to_sympy()
    E.check("function", o.func.__name__ == f.value and len(o.args) == 1)


@C.harness
def atoms(E):
    W = Cas(E)
    i = E.int("i")
    o = W.sc.Integer(i).to_sympy()
    E.check("integer", o.is_Integer and o.p == i)
    e = W.sc.Expr.from_sympy(E.mod("sympy").Integer(i))
    E.check("integer:back", e is W.sc.Integer(i))
    big = [0, -1, 10**40, -(2**70), 2**64][E.choose("big", 5)]
    E.check("integer:back", W.sc.Expr.from_sympy(E.mod("sympy").Integer(big)) is W.sc.Integer(big))
    E.check("integer", W.sc.Integer(big).to_sympy() == E.mod("sympy").Integer(big))


@C.harness
def refused(E):
    """Other SymPy objects, wherever they occur."""
    W = Cas(E)
    sy = E.mod("sympy")
    x = sy.Symbol("x")
    n = E.int("n", 2)
    bad = [
        lambda: sy.Rational(1, 2), lambda: sy.Float(0.5), lambda: sy.pi, lambda: sy.tan(x), lambda: sy.exp(x), lambda: sy.Rational(-7, 3),
        lambda: sy.tan(sy.Integer(n)), lambda: sy.exp(x * x + 1),
    ][E.choose("bad", 8)]()
    o = [
        lambda b: b, lambda b: sy.Add(x, b), lambda b: sy.Mul(x, b), lambda b: sy.Pow(b, x), lambda b: sy.Pow(x, b), lambda b: sy.Tuple(x, b), lambda b: sy.Function("f")(b),
        lambda b: sy.Tuple(sy.Tuple(b), x, sy.sin(sy.Add(x, b))),
    ][E.choose("where", 8)](bad)
    r = E.call(lambda: W.sc.Expr.from_sympy(o))
    E.check("refused", r[0] == "exc" and isinstance(r[1], NotImplementedError), lambda: f"{o!r}: {r[1]!r}")
    k = App(F("Add"), S("x"), I(E.int("i")))
    back(E, W, k, "after")


@C.harness
def alike(E):
    """Operands that differ and print the same."""
    W = Cas(E)
    x, y = S("x"), S("y")
    n = [0, 1, 7][E.choose("number", 3)]
    pairs = [(S("x + y"), App(F("Add"), x, y)), (S("x*y"), App(F("Mul"), x, y)), (S(str(n)), I(n)), (S("f(x)"), App(F("f"), x)), (S("sin(x)"), App(F("sin"), x)),
             (App(F("f"), S("x, y")), App(F("f"), x, y)), (App(F("f"), S("1")), App(F("f"), I(1))), (S("x**2"), App(F("pow"), x, I(2))), (S("f"), App(F("f")))]
    p, q = pairs[E.choose("pair", len(pairs))]
    if E.choose("swap", 2):
        p, q = q, p
    s = [App(F("Add"), p, App(F("g"), q)), App(F("List"), p, q), App(F("f"), p, q, p), App(F("sin"), App(F("Mul"), q, App(F("g"), p)))][E.choose("form", 4)]
    there_and_back(E, W, s, "alike")
    back(E, W, s, "alike:given")
    there_and_back(E, W, p, "alike")
    there_and_back(E, W, q, "alike")


@C.harness
def shared(E, n):
    """Chains whose parts repeat."""
    W = Cas(E)
    x, y, i = S("x"), S(E.str("y", "ident", avoid=("x",))), I(E.int("i", 30))
    steps = [lambda e: App(F("Add"), e, y, App(F("f"), e)), lambda e: App(F("Mul"), y, App(F("g"), e), e), lambda e: App(F("f"), e, e), lambda e: App(F("pow"), App(F("g"), e), i),
             lambda e: App(F("sin"), App(F("Add"), e, x)), lambda e: App(F("List"), e, App(F("f"), e))]
    pat = [E.choose(f"step{k}", len(steps)) for k in range(2)]
    e = x
    for k in range(n):
        e = steps[pat[k % 2]](e)
    E.assume(tuples_ok(E, e))
    there_and_back(E, W, e, "shared")
    back(E, W, e, "shared:given")


@C.harness
def wide(E, n):
    W = Cas(E)
    ls = [S("x"), S(E.str("y", "ident", avoid=("x",))), I(E.int("i", 30)), App(F("f"), S("x")), App(F("sin"), S("x"))]
    k, m = E.choose("from", len(ls)), E.choose("step", 3)
    ts = [ls[(k + j * (1 + m)) % len(ls)] for j in range(n)]
    h = (F("Add"), F("Mul"), F("List"), F("f"))[E.choose("head", 4)]
    there_and_back(E, W, App(h, *ts), "wide")
    back(E, W, App(h, *ts), "wide:given")


C.add(forth, "2 compound nodes over +,*,** of 2, 2 leaves", n=2, which=["A2", "M2", "P"], leaves=2, expect=("forth", "forth:ok", "forth:back", "forth:back:ok", "forth:again"))
C.add(forth, "2 compound nodes over +,* of 0 to 3 terms, symbol and int > 20", n=2, which=["A", "M", "A0", "M0"], leaves=2, lo=21, expect=("forth",))
C.add(forth, "2 compound nodes over **,sin,cos,f,tuples, symbol and int > 20", n=2, which=["P", "sin", "cos", "f", "L"], leaves=2, lo=21, expect=("forth",))
C.add(forth, "1 compound node, 4 leaves", n=1, which=["A2", "P", "L", "f", "M"], leaves=4, expect=("forth",))
C.add(forth, "3 compound nodes over sin,g,*, 1 leaf", n=3, which=["sin", "g", "M2"], leaves=1, expect=("forth",))
C.add(given, "2 compound nodes over +,*,** of 2, 2 leaves", n=2, which=["A2", "M2", "P"], leaves=2, expect=("given", "given:ok", "given:forth"))
C.add(given, "2 compound nodes over **,sin,cos,f,tuples, symbol and int > 20", n=2, which=["P", "sin", "cos", "f", "L"], leaves=2, lo=21, expect=("given",))
C.add(given, "1 compound node of up to 3 arguments, 4 leaves", n=1, which=["A", "M", "P", "L3", "f3"], leaves=3, expect=("given",))
C.add(given, "3 compound nodes over sin,g,*, 1 leaf", n=3, which=["sin", "g", "M2"], leaves=1, expect=("given",))
C.add(names, "symbols of printable names, functions of any identifier name", expect=("name", "name:given", "symbol", "function"))
C.add(atoms, "integers", expect=("integer", "integer:back"))
C.add(refused, "8 other SymPy objects in 8 places", expect=("refused", "after"))
C.add(alike, "9 pairs of operands that print the same, 4 forms", expect=("alike", "alike:back", "alike:given"))
C.add(shared, "chains of 12 steps, every alternation of 6", n=12, expect=("shared", "shared:given"))
C.add(wide, "8 arguments", n=8, expect=("wide", "wide:given"))
C.add(wide, "36 arguments", n=36, expect=("wide", "wide:given"))
C.deep(forth, "3 compound nodes over +,**,f, 1 leaf", n=3, which=["A2", "P", "g"], leaves=1)
C.deep(forth, "2 compound nodes over +,*,**, 3 leaves", n=2, which=["A2", "M", "P"], leaves=3, lo=21)
C.deep(given, "2 compound nodes over +,*,**,tuples, 3 leaves", n=2, which=["A2", "M", "P", "L"], leaves=3, lo=21)
C.deep(shared, "chains of 60 steps", n=60)
C.outside = ["SymPy's own rewriting (a stub SymPy records what is built; the real one runs in replays, compared numerically)",
             "functions named Add, Mul, pow, sin, cos, List that are meant as undefined; heads that are not names; symbols with assumptions, Dummy, Wild"]
C.assumptions = ["sin, cos, ** and undefined functions are arbitrary functions of their arguments", "names differ from those SymPy or Python reserve"]
