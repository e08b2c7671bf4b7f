"""C13: differentiation rules bind the right argument position and pattern variables."""

from harness.calc import *  # noqa: F403
from px.registry import Check

CHECK = Check("C13", __name__)
C = CHECK


def Wd(name):
    return Leaf("Wild", name)


class Rules(Cas):
    """Specs that may hold pattern variables; differentiators to add rules to."""

    def __init__(self, E):
        super().__init__(E)
        self.sym = E.mod("protosym.core.sym")
        self.kinds["Wild"] = self.sym.Wild
        self.mk["Wild"] = self.sc.Expr.new_wild
        self.add, self.mul, self.L = F("Add"), F("Mul"), F("List")

    def differentiator(self):
        b = self.build
        d = self.sym.SymDifferentiator(self.sc.Expr, add=b(self.add), mul=b(self.mul), zero=b(I(0)), one=b(I(1)))
        d.add_distributive_rule(b(self.L))
        return d


def replace(s, wilds, args, memo=None):
    """The spec with pattern variables replaced by arguments, all at once."""
    memo = {} if memo is None else memo
    if id(s) in memo:
        return memo[id(s)]
    if type(s) is Leaf:
        r = s
        for w, a in zip(wilds, args):
            if s is w:
                r = a
    else:
        r = App(*[replace(p, wilds, args, memo) for p in s.parts])
    memo[id(s)] = r
    return r


class Table:
    """The rules one differentiator has been given."""

    def __init__(self, E, R, d=None):
        self.E, self.R = E, R
        self.d = d or R.differentiator()
        self.calc = Calc(E, R.add, R.mul, I(0), I(1), distributive=[R.L], rules={})

    def rule(self, name, wilds, i, rhs):
        R = self.R
        self.d[R.build(App(F(name), *wilds)), R.build(wilds[i])] = R.build(rhs)
        self.model(name, wilds, i, rhs)

    def model(self, name, wilds, i, rhs):
        self.calc.rules[name, i] = lambda args: replace(rhs, wilds, args)

    def check(self, s, x, label):
        E, R = self.E, self.R
        try:
            self.calc.deriv(s, x, {}, {}, {})
        except KeyError:
            E.check(label + ":norule", True)
            return
        r = E.call(lambda: self.d(R.build(s), R.build(x)))
        E.check(label + ":ok", r[0] == "ok", lambda: f"{show(s)}: {r[1]!r}")
        got = tree_spec(R, r[1].rep)
        self.calc.same_derivative(got, s, x, label, lambda: f"{show(s)}: {show(got)}")


def odd_rhs(E, wilds, name):
    """Right sides without structure: a variable, numbers, other atoms."""
    n = len(wilds)
    k = E.choose(name, n + 5)
    if k < n:
        return wilds[k]
    return [I(0), I(1), I(E.int("rhs.i")), S("x"), S("c")][k - n]


@C.harness
def bind(E, arity, rhs, nodes=1, kinds=5, names="fixed", heads=("g", "A"), glob=0, thin=0):
    """One rule for one position; the other arguments do not involve the variable."""
    nm = [E.str(f"w{k}", "any") for k in range(arity)] if names == "any" else [f"w{k}" for k in range(arity)]
    wilds = [Wd(n) for n in nm]
    R = Rules(E)
    distinct(E, wilds)
    few = [0, arity // 2, arity - 1] if thin else list(range(arity))
    i = few[E.choose("position", len(few))]
    x = S("x")
    table = {"g": (F("g"), (2,)), "A": (R.add, (2,)), "M": (R.mul, (2,)), "f": (F("f"), (arity,)), "h": (F("h"), (1,))}
    if thin:
        k = E.choose("right", len(few) + 1)
        right = wilds[few[k]] if k < len(few) else App(F("g"), *[wilds[(j + 1) % arity] for j in range(arity)])
    elif rhs == "odd":
        right = odd_rhs(E, wilds, "right")
    elif rhs == "head":
        k = E.choose("headvar", arity)
        right = App(wilds[k], wilds[(k + 1) % arity], App(wilds[k]), I(2))
    else:
        leaves = wilds + [I(E.int("rhs.i"))]
        right = gen_dag(E, "r", leaves, [table[h] for h in heads], nodes, interchangeable=False)[-1]
    other = I(E.int("m"))
    pool = [other, S("y"), App(F("p"), other), wilds[0], App(F("p"), wilds[-1])][:kinds]
    args = [pool[E.choose(f"arg{k}", len(pool))] if k != i else None for k in range(arity)]
    args[i] = [x, App(F("p"), x, S("y")), App(R.add, x, x)][E.choose("inner", 3 if kinds > 2 else 2)]
    t = Table(E, R, R.sc.diff if glob else None)
    pw = [Wd("u"), Wd("v")]
    t.rule("p", pw, 0, App(F("p'"), *pw))
    t.rule("f", wilds, i, right)
    e = App(F("f"), *args)
    t.check(e, x, "bound")
    t.check(App(R.mul, e, x), x, "bound:product")


@C.harness
def full(E, arity, atoms=3, glob=0):
    """A rule for every position, all different; arguments all involve the variable."""
    R = Rules(E)
    t = Table(E, R, R.sc.diff if glob else None)
    x, y = S(E.str("sym", "ident")), S(E.str("other", "ident"))
    order = list(range(arity))
    k = E.choose("order", 3)
    order = [order, order[::-1], order[1:] + order[:1]][k]
    wilds = [Wd(f"w{j}") for j in range(arity)]
    for j in order:
        ws = wilds if E.choose(f"fresh{j}", 2) else [Wd(f"v{j}.{m}") for m in range(arity)]
        t.rule("f", ws, j, App(F(f"f'{j}"), *ws[::-1]))
    p = [Wd("u")]
    t.rule("p", p, 0, App(F("p'"), *p))
    pool = [x, App(F("p"), x), y][:atoms]
    args = [pool[E.choose(f"arg{j}", atoms)] for j in range(arity)]
    e = App(F("f"), *args)
    t.check(e, x, "full")
    t.check(App(F("f"), *(args[1:] + [e])), x, "full:nested")


@C.harness
def apart(E, arity):
    """Rules of other positions, functions and differentiators; later rules."""
    R = Rules(E)
    names = ["f", "g"]
    ts = [Table(E, R), Table(E, R)]
    wilds = [Wd(f"w{j}") for j in range(arity)]
    x = S("x")
    # the same rule base everywhere
    for n, t in enumerate(ts):
        for name in names:
            for j in range(arity):
                t.rule(name, wilds, j, App(F(f"{name}{n}'{j}"), *wilds))
    who = E.choose("who", 2)
    name = names[E.choose("name", 2)]
    i = E.choose("position", arity)
    rot = E.choose("rotate", arity)
    ws = wilds[rot:] + wilds[:rot]
    right = [App(F("new"), *wilds), odd_rhs(E, wilds, "odd")][E.choose("right", 2)]
    ts[who].rule(name, ws, i, right)
    args = [x, App(F("f"), *([x] * arity)), App(F("g"), *([S("y")] * (arity - 1)), x)]
    for t in ts:
        for nm in names:
            t.check(App(F(nm), *[args[(j + rot) % 3] for j in range(arity)]), x, "apart")


@C.harness
def refuse(E, arity, names="fixed"):
    """Keys that are not a pair; variables that do not occur exactly once."""
    nm = [E.str(f"w{k}", "any") if names == "any" else f"w{k}" for k in range(arity + 1)]
    R = Rules(E)
    b = R.build
    wilds = [Wd(n) for n in nm]
    t = Table(E, R)
    base = [Wd(f"base{j}") for j in range(arity)]
    for name in ("f", "g"):
        for j in range(arity):
            t.rule(name, base, j, App(F(f"{name}'{j}"), *base))
    # the pattern: any choice of arguments, some of them not variables
    pool = wilds + [App(F("g"), wilds[0]), I(E.int("i")), S("x")]
    shape = E.choose("key", 8)
    args = [pool[E.choose(f"arg{k}", len(pool)) if shape == 0 else k] for k in range(arity)]
    v = [wilds[0], wilds[-1]][E.choose("var", 2) if shape == 0 else 0]
    e, s = b(App(F("f"), *args)), b(v)
    rhs = b(App(F("new"), v))
    key = [lambda: (e, s), lambda: e, lambda: (e,), lambda: (e, s, s), lambda: [e, s], lambda: (), lambda: (b(v), s),
           lambda: (b(F("f")), s)][shape]()
    r = E.call(lambda: t.d.__setitem__(key, rhs))
    count = sum(1 for a in args if is_true(E, same_spec(E, a, v)))
    if shape == 0 and count == 1:
        E.check("accepted", r[0] == "ok", lambda: f"{args}, {v}: {r}")
        E.assume(False)  # judged by the other harnesses
    E.check("refused", r[0] == "exc" and isinstance(r[1], TypeError), lambda: f"key {shape}, {args}, {v}: {r}")
    x = S("x")
    for nme in ("f", "g"):
        t.check(App(F(nme), *([x, App(F("g"), *[S("y")] * (arity - 1), x)] * arity)[:arity]), x, "unchanged")


@C.harness
def heads(E):
    """The rule is for the head written, whatever kind of expression it is."""
    R = Rules(E)
    hs = [F(E.str("name", "any", avoid=())), App(F("D"), F("f")), App(F("D"), I(E.int("k"))), S(E.str("sym", "any")), F("List2")]
    k, m = E.choose("head", len(hs)), E.choose("other", len(hs))
    u, v = Wd("u"), Wd("v")
    x = S("x")
    t = Table(E, R)
    for h in (R.add, R.mul, R.L):
        E.assume(E.not_(same_spec(E, hs[0], h)))
    b = R.build
    e1, e2 = App(hs[k], x, S("y")), App(hs[m], x, S("y"))
    t.d[b(App(hs[k], u, v)), b(u)] = b(App(F("new"), v, u))
    r = E.call(lambda: t.d(b(e1), b(x)))
    E.check("head:ok", r[0] == "ok", lambda: f"{show(e1)}: {r[1]!r}")
    want = App(F("new"), S("y"), x)
    E.check("head", E.num_eq(t.calc.den(tree_spec(R, r[1].rep), {}), t.calc.den(want, {})), lambda: f"{show(e1)}: {r[1]!r}")
    r = E.call(lambda: t.d(b(e2), b(x)))
    same = is_true(E, same_spec(E, hs[k], hs[m]))
    E.check("head:other", r[0] == ("ok" if same else "exc"), lambda: f"{show(e2)}: {r[1]!r}")


C.add(bind, "arity 1, right sides of up to 2 compound nodes", arity=1, rhs="dag", nodes=2, heads=("h", "A", "f"), expect=("bound",))
C.add(bind, "arity 2, right sides of 1 compound node over +,g", arity=2, rhs="dag", nodes=1, heads=("g", "A"), kinds=2, expect=("bound",))
for n in (1, 2, 3, 4):
    C.add(bind, f"arity {n}, right side a variable, number or symbol", arity=n, rhs="odd", kinds=(5, 5, 2, 1)[n - 1], expect=("bound",))
C.add(bind, "arity 2, right side a variable, number or symbol, arbitrary names", arity=2, rhs="odd", kinds=1, names="any", expect=("bound",))
C.add(bind, "arity 3, variables as heads", arity=3, rhs="head", kinds=2, expect=("bound",))
C.add(bind, "arity 3, right side a variable, number or symbol, Expr.diff's rules", arity=3, rhs="odd", kinds=2, glob=1, expect=("bound",))
C.add(bind, "arity 6, right side a variable, number or symbol", arity=6, rhs="odd", kinds=1, expect=("bound",))
C.add(bind, "arity 18, right side one variable or all of them", arity=18, rhs="odd", kinds=1, thin=1, expect=("bound",))
C.add(bind, "arity 36, right side one variable or all of them", arity=36, rhs="odd", kinds=1, thin=1, expect=("bound",))
for n in (2, 3):
    C.add(full, f"arity {n}, a rule for each position, any order", arity=n, atoms=5 - n, expect=("full", "full:nested"))
C.add(full, "arity 2, a rule for each position, Expr.diff's rules", arity=2, glob=1, expect=("full",))
C.add(apart, "arity 2: two differentiators, two functions", arity=2, expect=("apart",))
C.add(apart, "arity 3: two differentiators, two functions", arity=3, expect=("apart",))
C.add(refuse, "arity 1: keys and patterns, arbitrary names", arity=1, names="any", expect=("refused", "unchanged", "accepted"))
C.add(refuse, "arity 2: keys and patterns", arity=2, expect=("refused", "unchanged", "accepted"))
C.add(heads, "heads of 5 sorts", expect=("head", "head:other"))
C.deep(bind, "arity 2, right sides of up to 2 compound nodes over *,g", arity=2, rhs="dag", nodes=2, heads=("g", "M"), kinds=3)
C.deep(bind, "arity 3, right sides of 1 compound node f,+", arity=3, rhs="dag", nodes=1, heads=("f", "A"), kinds=3)
C.deep(bind, "arity 4, right side a variable, number or symbol", arity=4, rhs="odd", kinds=4)
C.deep(bind, "arity 12, right side a variable, number or symbol", arity=12, rhs="odd", kinds=1)
C.deep(full, "arity 4, a rule for each position, any order", arity=4)
C.deep(refuse, "arity 3: keys and patterns", arity=3)
C.deep(refuse, "arity 2: keys and patterns, arbitrary names", arity=2, names="any")
C.deep(full, "arity 3, a rule for each position, any order", arity=3)
C.deep(bind, "arity 2, right side a variable, number or symbol, arbitrary names", arity=2, rhs="odd", kinds=5, names="any")
C.outside = ["patterns in which another variable is repeated or an argument is not a variable (other than for refusal)",
             "right sides or keys that are not Expr (C30)"]
C.assumptions = ["functions and values are arbitrary (uninterpreted) real functions"]
