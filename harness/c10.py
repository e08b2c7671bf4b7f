"""C10: forward differentiation follows the registered rules."""

from harness.calc import *  # noqa: F403
from px.registry import Check

CHECK = Check("C10", __name__)
C = CHECK


def K(name, *args):
    return App(F(name), *args)


def rule_table(E, kind, add, mul):
    """Partial derivatives as functions from argument specs to a spec."""
    if kind == "free":
        # arbitrary partial derivatives, all different
        return {
            ("f", 0): lambda a: K("f'", a[0]),
            ("g", 0): lambda a: K("g'0", a[0], a[1]),
            ("g", 1): lambda a: K("g'1", a[1], a[0]),
            ("h", 0): lambda a: App(add, a[1], K("h'", a[0])),
            ("t", 0): lambda a: K("t'0", *a),
            ("t", 1): lambda a: K("t'1", *a),
            ("t", 2): lambda a: K("t'2", *a),
        }
    if kind == "odd":
        # right sides that are a pattern variable, a constant, zero or one
        return {
            ("f", 0): lambda a: a[0],
            ("g", 0): lambda a: a[1],
            ("g", 1): lambda a: I(1),
            ("h", 0): lambda a: I(0),
            ("t", 0): lambda a: S("c"),
            ("t", 1): lambda a: App(mul, a[2], a[0], a[2]),
            ("t", 2): lambda a: I(-3),
        }
    # closed: derivatives can be differentiated again
    return {
        ("f", 0): lambda a: K("g", a[0], a[0]),
        ("g", 0): lambda a: K("f", a[1]),
        ("g", 1): lambda a: App(mul, a[0], a[1]),
        ("h", 0): lambda a: App(add, a[0], I(2)),
        ("h", 1): lambda a: I(0),
        ("t", 0): lambda a: K("f", K("h", a[1], a[2])),
        ("t", 1): lambda a: a[0],
        ("t", 2): lambda a: I(1),
    }


ARITIES = {"f": 1, "g": 2, "h": 2, "t": 3}


class World:
    """A differentiator over heads and constants of our own choosing."""

    def __init__(self, E, level, rules):
        self.E = E
        if level == "core":
            self.W = Core(E)
            add, mul = F("Plus"), F("Times")
        elif level == "sym":
            self.W = Cas(E)
            add, mul = F("Plus"), F("Times")
        else:
            self.W = Cas(E)
            add, mul = F("Add"), F("Mul")
        self.level = level
        self.add, self.mul = add, mul
        self.zero, self.one = I(0), I(1)
        L = F("L") if level != "expr" else F("List")
        self.L = L
        self.rules = rule_table(E, rules, add, mul)
        self.calc = Calc(E, add, mul, distributive=[L], rules=self.rules)
        W = self.W
        b = W.build
        if level == "core":
            D = E.mod("protosym.core.differentiate")
            self.diff_forward = D.diff_forward
            kind = E.mod("protosym.core.atom").AtomType("Wild", str)
            wild = [W.tree.Tr(kind(n)) for n in "abc"]
            self.prop = D.DiffProperties(zero=b(self.zero), one=b(self.one), add=b(add), mul=b(mul))
            self.prop.add_distributive(b(L))
            for (h, i), r in self.rules.items():
                ws = [Raw(w) for w in wild[: ARITIES[h]]]
                rhs = raw_build(W, r(ws))
                self.prop.add_diff_rule(b(F(h)), i, W.tree.SubsFunc(rhs, wild[: ARITIES[h]]))
        else:
            sym = E.mod("protosym.core.sym")
            sc = W.sc
            if level == "sym":
                self.d = sym.SymDifferentiator(sc.Expr, add=b(add), mul=b(mul), zero=b(self.zero), one=b(self.one))
                self.d.add_distributive_rule(b(L))
            else:
                self.d = sc.diff
            wild = [sc.Expr.new_wild(n) for n in ("wa", "wb", "wc")]
            for (h, i), r in self.rules.items():
                ws = [Raw(w) for w in wild[: ARITIES[h]]]
                self.d[b(F(h))(*wild[: ARITIES[h]]), wild[i]] = raw_build(W, r(ws))

    def diff(self, e, x, n=None):
        if self.level == "core":
            for _ in range(1 if n is None else n):
                e = self.diff_forward(e, x, self.prop)
            return e
        if self.level == "sym":
            return self.d(e, x) if n is None else self.d(e, x, n)
        return e.diff(x) if n is None else e.diff(x, n)

    def rep(self, e):
        return e if self.level == "core" else e.rep


class Raw:
    """A real object inside a spec (pattern variables)."""

    def __init__(self, obj):
        self.obj = obj


def raw_build(W, s):
    if type(s) is Raw:
        return s.obj
    if type(s) is Leaf:
        return W.build(s)
    return raw_build(W, s.head)(*[raw_build(W, a) for a in s.args])


def _heads(w, which):
    table = {
        "f": (F("f"), (1,)), "g": (F("g"), (2,)), "h": (F("h"), (2,)), "t": (F("t"), (3,)),
        "A": (w[0], (1, 2, 3)), "M": (w[1], (1, 2, 3)), "A2": (w[0], (2,)), "M2": (w[1], (2,)),
        "A0": (w[0], (0, 2)), "M0": (w[1], (0, 2)), "M3": (w[1], (3,)),
        "u": (F("u"), (1,)),  # no rule at all
    }
    return [table[k] for k in which]


def check_derivative(E, w, s, x, label):
    W = w.W
    e = W.build(s)
    xo = W.build(x)
    try:
        if type(s) is App and w.calc.head_is(s.head, w.L):
            for a in s.args:
                w.calc.deriv(a, x, {}, {}, {})
        else:
            w.calc.deriv(s, x, {}, {}, {})
    except KeyError:
        E.check("missing", True)  # no rule for an argument that matters
        return None
    r = E.call(lambda: w.diff(e, xo))
    E.check(label + ":ok", r[0] == "ok", lambda: f"{show(s)}: {r[1]!r}")
    got = tree_spec(W, w.rep(r[1]))
    w.calc.same_derivative(got, s, x, label, lambda: f"{show(s)}: derivative {show(got)}")
    return r[1], got


@C.harness
def forward(E, n, leaves, heads, level, rules, top=0, n_times=0):
    """Every expression of n compound nodes."""
    x = S(E.str("sym", "ident"))
    ls = [x, S(E.str("s1", "ident")), I(E.int("i0"))][:leaves]
    add, mul = (F("Add"), F("Mul")) if level == "expr" else (F("Plus"), F("Times"))
    s = gen_dag(E, "p", ls, _heads((add, mul), heads), n, interchangeable=False)[-1]
    L = F("List") if level == "expr" else F("L")
    if top:
        t = E.choose("list", 4)
        s = [App(L, s), App(L, ls[-1], s, s), App(L, App(L, s, x), s), App(L, App(L), I(7))][t]
    w = World(E, level, rules)
    got = check_derivative(E, w, s, x, "derivative")
    if n_times and got is not None:
        e, xo = w.W.build(s), w.W.build(x)
        d1, spec1 = got
        E.check("times:0", w.diff(e, xo, 0) is e)
        E.check("times:1", w.diff(e, xo, 1) is d1)
        d2 = w.diff(d1, xo)
        w.calc.same_derivative(tree_spec(w.W, w.rep(d2)), spec1, x, "second")
        E.check("times:2", w.diff(e, xo, 2) is d2)
        if n_times > 2:
            E.check("times:3", w.diff(e, xo, 3) is w.diff(d2, xo))


@C.harness
def atoms(E, level):
    x = S(E.str("sym", "any"))
    s = [S(E.str("s", "any")), I(E.int("i")), x, F("f")][E.choose("atom", 4)]
    w = World(E, level, "free")
    check_derivative(E, w, s, x, "atom")
    s2 = App(F("u"), s, s)
    if not w.calc.involves(s2, x, {}):
        check_derivative(E, w, s2, x, "constant")
        E.check("zero", is_true(E, same_spec(E, tree_spec(w.W, w.rep(w.diff(w.W.build(s2), w.W.build(x)))), I(0))))


@C.harness
def wide(E, n, level):
    """Many arguments, the variable at every position."""
    x, y = S("x"), S("y")
    i = E.choose("position", n)
    j = E.choose("second", n)
    m = I(E.int("m"))
    w = World(E, level, "free")
    args = [App(F("f"), x) if k == i else (x if k == j else (m if k % 3 else y)) for k in range(n)]
    for head in (w.add, w.mul):
        check_derivative(E, w, App(head, *args), x, "wide")
    check_derivative(E, w, App(w.L, *args), x, "wide:list")
    check_derivative(E, w, App(w.mul, App(w.add, *args), App(w.mul, *args), x), x, "wide:nested")


@C.harness
def manyargs(E, n, level):
    """A function of many arguments with a different rule for every position."""
    i = E.choose("position", n)
    j = E.choose("second", n)
    x, y = S("x"), S("y")
    w = World(E, level, "free")
    W = w.W
    b = W.build
    for k in range(n):
        w.rules["big", k] = lambda a, k=k: K(f"big'{k}", *a[k:], *a[:k])
    if level == "core":
        kind = E.mod("protosym.core.atom").AtomType("Wild", str)
        wild = [W.tree.Tr(kind(f"w{k}")) for k in range(n)]
        for k in range(n):
            rhs = raw_build(W, w.rules["big", k]([Raw(v) for v in wild]))
            w.prop.add_diff_rule(b(F("big")), k, W.tree.SubsFunc(rhs, wild))
    else:
        wild = [W.sc.Expr.new_wild(f"w{k}") for k in range(n)]
        for k in range(n):
            w.d[b(F("big"))(*wild), wild[k]] = raw_build(W, w.rules["big", k]([Raw(v) for v in wild]))
    args = [App(F("f"), x) if k == i else (x if k == j else (I(k) if k % 3 else y)) for k in range(n)]
    check_derivative(E, w, App(F("big"), *args), x, "many")


@C.harness
def broad(E, n, level):
    """Many arguments that all involve the variable, or all but one."""
    x, y = S("x"), S("y")
    w = World(E, level, "free")
    W = w.W
    b = W.build
    left = [None, 0, n // 2, n - 1][E.choose("left out", 4)]
    m = I(E.int("m", n - 3, n))
    args = [y if k == left else (K("g", x, I(k)) if k % 2 else K("f", App(w.add, x, I(k), m))) for k in range(n)]
    head = E.choose("head", 4)
    if head < 3:
        check_derivative(E, w, App([w.add, w.mul, w.L][head], *args), x, "broad")
        return
    for k in range(n):
        w.rules["big", k] = lambda a, k=k: K(f"big'{k}", *a[k:], *a[:k])
    if level == "core":
        kind = E.mod("protosym.core.atom").AtomType("Wild", str)
        wild = [W.tree.Tr(kind(f"w{k}")) for k in range(n)]
        for k in range(n):
            rhs = raw_build(W, w.rules["big", k]([Raw(v) for v in wild]))
            w.prop.add_diff_rule(b(F("big")), k, W.tree.SubsFunc(rhs, wild))
    else:
        wild = [W.sc.Expr.new_wild(f"w{k}") for k in range(n)]
        for k in range(n):
            w.d[b(F("big"))(*wild), wild[k]] = raw_build(W, w.rules["big", k]([Raw(v) for v in wild]))
    check_derivative(E, w, App(F("big"), *args), x, "broad")


@C.harness
def chain(E, n, level, rules):
    """Deep chains, three levels alternating."""
    x, y = S(E.str("sym", "ident")), S(E.str("other", "ident"))
    w = World(E, level, rules)
    hs = [lambda e: K("f", e), lambda e: App(w.mul, e, y), lambda e: App(w.add, y, e, e),
          lambda e: K("g", y, e), lambda e: K("h", e, y)]
    pat = [hs[E.choose(f"level{i}", len(hs))] for i in range(2)]
    e = x
    for i in range(n):
        e = pat[i % 2](e)
    check_derivative(E, w, e, x, "chain")


for level in ("core", "expr"):
    C.add(forward, f"{level}: 2 compound nodes over +,*,f,g,h, 2 leaves", n=2, leaves=2, level=level,
          heads=["A2", "M2", "f", "g", "h"], rules="free", expect=("derivative", "missing"))
    C.add(atoms, f"{level}: one atom", level=level, expect=("atom", "constant", "zero"))
    C.add(wide, f"{level}: 7 arguments", n=7, level=level, expect=("wide", "wide:list"))
    C.add(manyargs, f"{level}: functions of 7 arguments", n=7, level=level, expect=("many",))
    C.add(chain, f"{level}: chains 12 deep", n=12, level=level, rules="free", expect=("chain",))
C.add(broad, "core: 18 arguments that involve the variable", n=18, level="core", expect=("broad", "broad:list"))
C.add(broad, "expr: 70 arguments that involve the variable", n=70, level="expr", expect=("broad", "broad:list"))
C.add(forward, "core: 3 compound nodes over +,*,f,g, 1 leaf", n=3, leaves=1, level="core",
      heads=["A2", "M2", "f", "g"], rules="free", expect=("derivative",))
C.add(forward, "core: 2 compound nodes over +,* of 0 to 3 arguments", n=2, leaves=2, level="core",
      heads=["A", "M", "M0"], rules="free", expect=("derivative",))
C.add(forward, "core: 1 compound node, 3 leaves, every head, lists", n=1, leaves=3, level="core", top=1,
      heads=["A", "M", "f", "g", "h", "t"], rules="free", expect=("derivative", "derivative:list"))
C.add(forward, "sym: 2 compound nodes, right sides that are variables or constants", n=2, leaves=2, level="sym",
      heads=["f", "g", "h", "M2"], rules="odd", expect=("derivative",))
C.add(forward, "sym: 1 compound node of 3 arguments, odd right sides", n=1, leaves=3, level="sym",
      heads=["t", "g"], rules="odd", expect=("derivative",))
C.add(forward, "expr: 2 compound nodes, 1 leaf, differentiated three times", n=2, leaves=1, level="expr",
      heads=["f", "g", "M2", "A2"], rules="closed", n_times=3, expect=("second", "times:2", "times:0"))
C.add(forward, "sym: 1 compound node, 2 leaves, differentiated three times, lists", n=1, leaves=2, level="sym", top=1,
      heads=["f", "g", "M3", "t"], rules="closed", n_times=3, expect=("second", "times:2"))
C.deep(forward, "core: 3 compound nodes over +,*,f,g,h, 2 leaves", n=3, leaves=2, level="core",
       heads=["A2", "M2", "f", "g", "h"], rules="free")
C.deep(forward, "expr: 3 compound nodes, 1 leaf, lists", n=3, leaves=1, level="expr", top=1,
       heads=["A2", "M3", "g", "h"], rules="free")
C.deep(forward, "sym: 2 compound nodes, 3 leaves, odd right sides", n=2, leaves=3, level="sym",
       heads=["f", "g", "t", "M2"], rules="odd")
C.deep(forward, "sym: 2 compound nodes, 2 leaves, differentiated three times", n=2, leaves=2, level="sym",
       heads=["f", "g", "M2", "A2"], rules="closed", n_times=3)
C.deep(wide, "core: 25 arguments", n=25, level="core")
C.deep(broad, "expr: 150 arguments that involve the variable", n=150, level="expr")
C.deep(manyargs, "sym: functions of 20 arguments", n=20, level="sym")
C.deep(chain, "core: chains 40 deep", n=40, level="core", rules="free")
C.outside = ["arguments that involve the variable where no rule is registered", "the variable in head position",
             "element-wise heads inside other operations", "more distinct compound nodes than stated"]
C.assumptions = ["values, functions and partial derivatives are arbitrary (uninterpreted) real functions"]
