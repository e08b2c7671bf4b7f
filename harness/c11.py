"""C11: Expr.diff is the mathematical derivative for the built-in operations."""

from harness.calc import *  # noqa: F403
from px.registry import Check

CHECK = Check("C11", __name__)
C = CHECK

ADD, MUL, POW, SIN, COS, LIST = (F(n) for n in ("Add", "Mul", "pow", "sin", "cos", "List"))

# sin' = cos, cos' = -sin, (u**c)' = c*u**(c - 1)
RULES = {
    ("sin", 0): lambda a: App(COS, a[0]),
    ("cos", 0): lambda a: App(MUL, I(-1), App(SIN, a[0])),
    ("pow", 0): lambda a: App(MUL, a[1], App(POW, a[0], App(ADD, a[1], I(-1)))),
}


def calculus(E, exact=False):
    return Calc(E, ADD, MUL, distributive=[LIST], rules=RULES, pow_exact=exact)


def judge(E, W, calc, s, x, label, times=0):
    """Differentiate the real expression and compare the meaning."""
    try:
        specs = [s]
        while specs:
            q = specs.pop()
            if type(q) is App and calc.head_is(q.head, LIST):
                specs.extend(q.args)
            else:
                calc.deriv(q, x, {}, {}, {})
    except KeyError:
        E.check("outside", True)  # exponent with the variable, other functions of it
        return
    e, xo = W.build(s), W.build(x)
    d = e.diff(xo)
    spec = tree_spec(W, d.rep)
    calc.same_derivative(spec, s, x, label, lambda: f"d/d{x.value} {show(s)} = {show(spec)}")
    E.check("again", e.diff(xo, 1) is d and e.diff(xo, ntimes=1) is d)
    if times:
        E.check("times:0", e.diff(xo, 0) is e)
        d2 = d.diff(xo)
        spec2 = tree_spec(W, d2.rep)
        calc.same_derivative(spec2, spec, x, "second", lambda: f"d/d{x.value} {show(spec)} = {show(spec2)}")
        E.check("times:2", e.diff(xo, 2) is d2)
        if times > 2:
            d3 = d2.diff(xo)
            calc.same_derivative(tree_spec(W, d3.rep), spec2, x, "third")
            E.check("times:3", e.diff(xo, 3) is d3)


HEADS = {
    "A": (ADD, (2,)), "M": (MUL, (2,)), "P": (POW, (2,)), "s": (SIN, (1,)), "c": (COS, (1,)),
    "An": (ADD, (0, 1, 3)), "Mn": (MUL, (0, 1, 3)), "L": (LIST, (0, 1, 2, 3)), "f": (F("f"), (1,)),
}


@C.harness
def diff(E, n, leaves, heads, kind="ident", top=0, times=0):
    """Every expression of n compound nodes in the built-in operations."""
    x = S(E.str("sym", kind))
    ls = [x, I(E.int("i0")), S(E.str("s1", kind)), I(E.int("i1"))][:leaves]
    s = gen_dag(E, "p", ls, [HEADS[h] for h in heads], n, interchangeable=False)[-1]
    if top:
        t = E.choose("list", 3)
        s = [App(LIST, s, x, s), App(LIST, App(LIST, s), I(5)), App(LIST)][t]
    W = Cas(E)
    judge(E, W, calculus(E), s, x, "derivative", times)


@C.harness
def poly(E, n, top=4):
    """Polynomials, exactly: powers with literal exponents 0..4 multiplied out."""
    x = S("x")
    ls = [x, I(E.int("i0", 50))]  # apart from the literals
    k = E.choose("exponent", top + 1)
    hs = [(ADD, (2,)), (MUL, (2,)), (F("power"), (1,))]
    raw = gen_dag(E, "p", ls, hs, n, interchangeable=False)[-1]
    memo = {}

    def conv(s):
        if id(s) not in memo:
            if type(s) is Leaf:
                r = s
            elif s.head.value == "power":
                r = App(POW, conv(s.args[0]), I(k))
            else:
                r = App(s.head, *[conv(a) for a in s.args])
            memo[id(s)] = r
        return memo[id(s)]
    s = conv(raw)
    W = Cas(E)
    calc = calculus(E, exact=True)
    d = W.build(s).diff(W.build(x))
    got = tree_spec(W, d.rep)
    # dual numbers: value and slope, powers by repeated multiplication
    dual = {}

    def ev(q):
        if id(q) in dual:
            return dual[id(q)]
        if type(q) is Leaf:
            v = calc.den(q, {})
            r = (v, E.real_of_int(1 if q is x else 0))
        else:
            xs = [ev(a) for a in q.args]
            if q.head is ADD:
                r = (E.real_of_int(0), E.real_of_int(0))
                for v in xs:
                    r = (r[0] + v[0], r[1] + v[1])
            else:
                if q.head is POW:
                    xs = [xs[0]] * k
                r = (E.real_of_int(1), E.real_of_int(0))
                for v in xs:
                    r = (r[0] * v[0], r[0] * v[1] + r[1] * v[0])
        dual[id(q)] = r
        return r
    E.check("poly", E.num_eq(calc.den(got, {}), ev(s)[1]), lambda: f"d/dx {show(s)} = {show(got)}")


@C.harness
def operators(E):
    """Expressions written with operators, symbolic constants."""
    W = Cas(E)
    sc = W.sc
    x, y = sc.x, sc.y
    n, m = E.int("n"), E.int("m")
    exprs = [
        lambda: x - n * y, lambda: n - x, lambda: -x, lambda: x / y, lambda: n / x, lambda: x**n * m,
        lambda: sc.sin(n * x) / sc.cos(m * x), lambda: (x + n) ** m, lambda: 1 / (x * x + n),
        lambda: (x * y) ** (y + n), lambda: y ** (n + m) * x, lambda: sc.sin(sc.cos(x**2)) ** n - x,
        lambda: sc.Add(x, x, n, x), lambda: sc.Mul(x, m, x, x), lambda: y**y + n,
        lambda: (x + y) * (x - y) / (x + n), lambda: +x - +y, lambda: x ** (y**2) * y**3,
    ]
    e = exprs[E.choose("expression", len(exprs))]()
    v = [S("x"), S("y")][E.choose("variable", 2)]
    s = tree_spec(W, e.rep)
    W.memo[id(s)] = (e, s)
    judge(E, W, calculus(E), s, v, "operators", times=2)


@C.harness
def deep(E, n):
    """Chains of n levels; two kinds of level alternate."""
    x, y = S("x"), S("y")
    k = I(E.int("k"))
    ls = [lambda e: App(SIN, e), lambda e: App(COS, e), lambda e: App(POW, e, k), lambda e: App(MUL, y, e),
          lambda e: App(ADD, e, k, y), lambda e: App(MUL, e, e), lambda e: App(POW, e, App(ADD, y, k))]
    a, b = E.choose("level0", len(ls)), E.choose("level1", len(ls))
    e = x
    for i in range(n):
        e = ls[b if i % 2 else a](e)
    judge(E, Cas(E), calculus(E), e, x, "deep")


@C.harness
def times(E, most):
    """The n-fold derivative, asked for at once and step by step."""
    x, y = S("x"), S("y")
    k = I(E.int("k"))
    s = [App(SIN, x), App(COS, App(MUL, k, x)), App(POW, x, k), App(MUL, x, x, x), App(SIN, y), App(LIST, App(SIN, x), x)][E.choose("of", 6)]
    W = Cas(E)
    e, xo = W.build(s), W.build(x)
    calc = calculus(E)
    steps = [e]
    for _ in range(most):
        steps.append(steps[-1].diff(xo))
    n = E.choose("times", most + 1)
    got = e.diff(xo, n)
    # equal meaning; that each step is the derivative is decided by the others
    a, b = tree_spec(W, got.rep), tree_spec(W, steps[n].rep)
    if type(a) is App and calc.head_is(a.head, LIST):
        E.check("n-fold:shape", type(b) is App and calc.head_is(b.head, LIST) and len(a.args) == len(b.args))
        pairs = list(zip(a.args, b.args))
    else:
        pairs = [(a, b)]
    for p, q in pairs:
        E.check("n-fold", E.num_eq(calc.den(p, {}), calc.den(q, {})), lambda: f"{show(s)} differentiated {n} times = {show(a)}")


@C.harness
def wide(E, n):
    """Sums and products of n terms, the variable at any two places."""
    i, j = E.choose("i", n), E.choose("j", n)
    x, y = S("x"), S("y")
    c = I(E.int("c"))
    args = [App(SIN, x) if k == i else x if k == j else (c if k % 2 else y) for k in range(n)]
    W = Cas(E)
    h = E.choose("head", 3)
    s = [App(ADD, *args), App(MUL, *args), App(LIST, *args)][h]
    judge(E, W, calculus(E), s, x, "wide", times=2)


@C.harness
def broad(E, n):
    """Many terms that all involve the variable, or all but one."""
    x, y = S("x"), S("y")
    c = I(E.int("c", n - 4, n))
    left = [None, 0, n // 2, n - 1][E.choose("left out", 4)]
    args = [y if k == left else [App(SIN, App(ADD, x, I(k))), App(POW, x, I(k)), App(COS, App(MUL, c, x, I(k)))][k % 3]
            for k in range(n)]
    s = App([ADD, MUL, LIST][E.choose("head", 3)], *args)
    judge(E, Cas(E), calculus(E), s, x, "broad")


@C.harness
def independent(E, n):
    """Expressions without the variable: the derivative is zero, whatever they contain."""
    y, k = S(E.str("s", "ident")), I(E.int("k"))
    s = gen_dag(E, "p", [y, k], [(F("f"), (1,)), (POW, (2,)), (ADD, (1, 2))], n, interchangeable=False)[-1]
    x = S(E.str("sym", "ident"))
    E.assume(E.not_(values_equal(E, "Symbol", x.value, y.value)))
    W = Cas(E)
    d = W.build(s).diff(W.build(x))
    E.check("independent", E.num_eq(calculus(E).den(tree_spec(W, d.rep), {}), E.real_of_int(0)))


C.add(diff, "2 compound nodes over + * ** sin cos, 2 leaves", n=2, leaves=2, heads=["A", "M", "P", "s", "c"],
      expect=("derivative", "outside", "again"))
C.add(diff, "1 compound node, 4 leaves, arity 0 to 3", n=1, leaves=4, heads=["An", "Mn", "P", "s"], kind="any",
      expect=("derivative",))
C.add(diff, "2 compound nodes over n-ary + and *, 1 leaf", n=2, leaves=1, heads=["An", "Mn", "A"], times=3,
      expect=("derivative", "second", "third"))
C.add(diff, "1 compound node, 3 leaves, lists, 3 times", n=1, leaves=3, heads=["A", "M", "P", "s", "c"], top=1, times=3,
      expect=("derivative", "derivative:list", "third"))
C.add(diff, "2 compound nodes over * ** cos, 1 leaf, twice", n=2, leaves=2, heads=["M", "P", "c"], times=2,
      expect=("second", "times:2"))
C.add(diff, "3 compound nodes over + * sin, 1 leaf", n=3, leaves=1, heads=["A", "M", "s"], expect=("derivative",))
C.add(poly, "2 operations, exponents 0 to 4", n=2, top=4, expect=("poly",))
C.add(operators, "18 expressions with symbolic constants, differentiated twice", expect=("operators", "second"))
C.add(deep, "chains 10 deep", n=10, expect=("deep",))
C.add(times, "6 expressions, every number of times up to 14", most=14, expect=("n-fold",))
C.deep(times, "6 expressions, every number of times up to 40", most=40)
C.add(wide, "7 terms", n=7, expect=("wide", "second"))
C.add(broad, "18 terms that involve the variable", n=18, expect=("broad", "broad:list"))
C.add(broad, "70 terms that involve the variable", n=70, expect=("broad", "broad:list"))
C.deep(broad, "150 terms that involve the variable", n=150)
C.add(independent, "2 compound nodes without the variable", n=2, expect=("independent",))
C.deep(diff, "3 compound nodes over + * ** sin cos, 2 leaves", n=3, leaves=2, heads=["A", "M", "P", "s", "c"])
C.deep(diff, "2 compound nodes, 4 leaves", n=2, leaves=4, heads=["A", "M", "P", "s"], times=2)
C.deep(poly, "3 operations, exponents 0 to 4", n=3, top=4)
C.deep(deep, "chains 40 deep", n=40)
C.deep(wide, "25 terms", n=25)
C.outside = ["exponents that involve the variable", "functions without a rule applied to the variable",
             "Lists inside other operations", "more distinct compound nodes than stated"]
C.assumptions = ["sin, cos and powers are arbitrary real functions with the derivatives of calculus",
                 "values are taken where the expression and the stated derivative are defined (u**c with c = 0 and u = 0 excluded)"]
