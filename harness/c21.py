"""C21: a Transformer changes exactly what its rules name."""

from harness.calc import is_true, tree_spec
from harness.lib import *  # noqa: F403
from px.registry import Check

CHECK = Check("C21", __name__)
C = CHECK

Cst = S("const")
FN, GN = F("f"), F("g")

# rules for a head: arity None takes the list; fn(arguments) -> spec
OPS = [
    None,
    (None, lambda xs: App(GN, *xs)),
    (None, lambda xs: App(FN, *xs, Cst)),
    (None, lambda xs: App(FN, *xs[::-1])),
    (None, lambda xs: xs[0] if xs else Cst),
    (None, lambda xs: Cst),
    (None, lambda xs: App(GN, App(FN, *xs), App(FN, *xs))),
    (None, lambda xs: xs[-1] if xs else I(7)),
]
# rules for the values of atoms
ATOMS = {
    "Symbol": [None, lambda E, v: Cst, lambda E, v: App(FN, S(v)), lambda E, v: F(v), lambda E, v: S("x")],
    "Integer": [None, lambda E, v: I(v + 1), lambda E, v: S("x"), lambda E, v: App(FN, I(v), I(v)), lambda E, v: I(0)],
    "Function": [None, lambda E, v: S(v)],
}


class Model:
    """What the transformer must return, on specs."""

    def __init__(self, E):
        self.E = E
        self.ops = []  # (head spec, fn)
        self.atoms = {}
        self.values = []  # (atom spec, spec)
        self.atom_any = self.op_any = None

    def run(self, s, memo):
        E = self.E
        if id(s) in memo:
            return memo[id(s)][0]
        r = None
        if type(s) is Leaf:
            for a, v in self.values:
                if r is None and is_true(E, same_spec(E, s, a)):
                    r = v
            if r is None and s.kind in self.atoms:
                r = self.atoms[s.kind](E, s.value)
            if r is None:
                r = self.atom_any(s) if self.atom_any else s
        else:
            args = [self.run(a, memo) for a in s.args]
            for h, fn in self.ops:
                if r is None and is_true(E, same_spec(E, s.head, h)):
                    r = fn(args)
            if r is None and self.op_any:
                r = self.op_any(s.head, args)
            if r is None:
                r = s if all(a is b for a, b in zip(args, s.args)) else App(s.head, *args)
        memo[id(s)] = (r, s)
        return r


class World(Core):
    def __init__(self, E):
        super().__init__(E)
        self.tr = E.mod("protosym.core.evaluate").Transformer()
        self.model = Model(E)

    def op(self, h, fn, arity=None):
        """Register fn for head h, with op1/op2 where the arity is given."""
        real = self.build(h)

        def on_trees(xs):
            return self.build(fn([self.spec(x) for x in xs]))
        if arity is None:
            self.tr.add_opn(real, on_trees)
        elif arity == 1:
            self.tr.add_op1(real, lambda x: on_trees([x]))
        else:
            self.tr.add_op2(real, lambda x, y: on_trees([x, y]))
        self.model.ops.insert(0, (h, fn))

    def atom_rule(self, kind, fn):
        self.tr.add_atom(self.kinds[kind], lambda v: self.build(fn(self.E, v)))
        self.model.atoms[kind] = fn

    def spec(self, t):
        return tree_spec(self, t)


def judge(E, W, s, label, values=()):
    t = W.build(s)
    W.model.values = list(values)
    want = W.model.run(s, {})
    vals = {W.build(a): W.build(v) for a, v in values}
    r = E.call(lambda: W.tr(t, vals) if vals else W.tr(t))
    E.check(label + ":ok", r[0] == "ok", lambda: f"{show(s)}: {r[1]!r}")
    got = r[1]
    E.check(label, matches(E, W, got, want), lambda: f"{show(s)} -> {got}, wanted {show(want)}")
    E.check(label + ":object", got is W.build(want))
    if want is s:
        E.check("unchanged", got is t)
    E.check(label + ":operand", matches(E, W, t, s))
    E.check(label + ":values", all(vals[W.build(a)] is W.build(v) for a, v in values))


def heads(x):
    return {"f": (FN, (1, 2)), "f0": (FN, (0, 3)), "f1": (FN, (1,)), "f2": (FN, (2,)), "g": (GN, (1, 2)), "g2": (GN, (2,)), "h": (F("h"), (1,)), "D": (App(FN, x), (1, 2)),
            "x": (x, (1,)), "DD": (App(App(F("h"), x), FN), (1,)), "g1": (GN, (1,))}


@C.harness
def single(E, n, leaves, which, ops):
    """One rule for one head; every expression of n compound nodes."""
    x = S(E.str("s0", "any", avoid=("const",)))
    ls = [x, I(E.int("i0", 8)), FN][:leaves]
    W = World(E)
    hs = heads(x)
    k = E.choose("rule", ops)
    s = gen_dag(E, "p", ls, [hs[h] for h in which], n, interchangeable=False)[-1]
    if OPS[k]:
        W.op(FN, OPS[k][1])
    judge(E, W, s, "single")


@C.harness
def several(E, n, which):
    """Rules for two heads, one of them compound, and for the kinds of atoms."""
    x = S(E.str("s0", "any", avoid=("const", "x")))
    W = World(E)
    hs = heads(x)
    ls = [x, I(E.int("i0", 8))]
    a, b = E.choose("f", len(OPS)), [0, 2, 3][E.choose("D", 3)]
    order = E.choose("order", 2)
    rules = [(FN, OPS[a]), (hs["D"][0], OPS[b])]
    for h, r in rules[::-1] if order else rules:
        if r:
            W.op(h, r[1])
    s = gen_dag(E, "p", ls, [hs[h] for h in which], n, interchangeable=False)[-1]
    judge(E, W, s, "several")


@C.harness
def atom_rules(E, n, which):
    """Rules for kinds of atoms (with and without a rule for f)."""
    x = S(E.str("s0", "any", avoid=("const",)))
    ls = [x, I(E.int("i0")), F("k")]
    W = World(E)
    hs = heads(x)
    for kind in ("Symbol", "Integer", "Function"):
        fn = ATOMS[kind][E.choose(kind, len(ATOMS[kind]))]
        if fn:
            W.atom_rule(kind, fn)
    r = OPS[E.choose("rule", 3)]
    if r:
        W.op(FN, r[1])
    s = ([*ls] + gen_dag(E, "p", ls, [hs[h] for h in which], n, interchangeable=False))[-1]
    judge(E, W, s, "atoms")
    judge(E, W, ls[E.choose("atom", 3)], "atom")


@C.harness
def arities(E):
    """Rules of fixed arity; a later rule replaces the earlier one; other transformers."""
    x, i = S(E.str("s0", "any", avoid=("const",))), I(E.int("i0"))
    W, W2 = World(E), None
    k = E.choose("kind", 3)
    if k == 0:
        W.op(FN, lambda xs: App(GN, xs[0], Cst), 1)
        s = App(FN, App(FN, App(GN, x, i)))
    elif k == 1:
        W.op(FN, lambda xs: App(GN, xs[1], xs[0]), 2)
        s = App(FN, App(FN, x, i), App(GN, App(FN, i, x)))
    else:
        W.op(FN, lambda xs: App(GN, *xs))
        W.op(FN, lambda xs: App(F("late"), *xs))
        s = App(FN, App(FN, x, i, x), App(GN, App(FN)))
    judge(E, W, s, "arity")
    # a fresh transformer knows nothing of the rules of the first
    fresh = E.mod("protosym.core.evaluate").Transformer()
    t = W.build(s)
    E.check("fresh", fresh(t) is t)


@C.harness
def supplied(E, n, which):
    """Values supplied for atoms take precedence over rules."""
    x, y = S(E.str("s0", "any", avoid=("const", "x"))), S(E.str("s1", "any", avoid=("const", "x")))
    i = I(E.int("i0", 8))
    W = World(E)
    hs = heads(S("x"))
    kinds = E.choose("kinds", 3)
    if kinds:
        W.atom_rule("Symbol", ATOMS["Symbol"][kinds])
    r = OPS[E.choose("rule", 3)]
    if r:
        W.op(FN, r[1])
    vals = [(x, [i, y, App(FN, x), x][E.choose("value", 4)])]
    if E.choose("two", 2):
        vals.append((i, [App(GN, i), x][E.choose("value2", 2)]))
    s = gen_dag(E, "p", [x, y, i], [hs[h] for h in which], n, interchangeable=False)[-1]
    judge(E, W, s, "supplied", vals)


@C.harness
def deep(E, n):
    """Long chains with shared parts."""
    x, i = S(E.str("s0", "any", avoid=("const",))), I(E.int("i0", 8))
    W = World(E)
    k = E.choose("rule", len(OPS))
    if k == 6:
        E.assume(False)  # doubles at every step
    if OPS[k]:
        W.op(FN, OPS[k][1])
    steps = [lambda e: App(FN, e), lambda e: App(GN, e, e), lambda e: App(FN, i, e), lambda e: App(GN, x, e), lambda e: App(FN, e, i, e)]
    pat = [E.choose(f"step{j}", 5) for j in range(2)]
    e = x
    for j in range(n):
        e = steps[pat[j % 2]](e)
    judge(E, W, e, "deep")


@C.harness
def wide(E, n):
    """Nodes of many arguments, and rules for many heads."""
    x, i = S(E.str("s0", "any", avoid=("const",))), I(E.int("i0", 8))
    W = World(E)
    ls = [x, i, App(GN, x, i), App(FN, i), App(FN)]
    few = [0, 1, n // 2, n - 2, n - 1]
    k, m = E.choose("from", len(ls)), few[E.choose("swap", len(few))]
    ts = [ls[(k + j * (1 + m % 3)) % len(ls)] for j in range(n)]
    ts[m] = App(F("f7"), App(F("f30"), x), i)
    r = OPS[E.choose("rule", len(OPS))]
    if r:
        W.op(FN, r[1])
    if E.choose("many", 2):
        for j in range(n):
            W.op(F(f"f{j}"), (lambda j: lambda xs: App(F(f"h{j}"), *xs[::-1], I(j)))(j))
    judge(E, W, App((FN, GN)[E.choose("head", 2)], *ts), "wide")


C.add(wide, "36 arguments, rules for up to 37 heads", n=36, expect=("wide",))
C.add(single, "8 rules for one head, 2 compound nodes, 2 leaves", n=2, leaves=2, which=["f", "g1"], ops=len(OPS), expect=("single", "unchanged"))
C.add(single, "8 rules for one head, 1 compound node, every head, 3 leaves", n=1, leaves=3, which=["f0", "f2", "g", "D", "x", "DD"], ops=len(OPS),
      expect=("single", "unchanged"))
C.add(single, "8 rules for one head, 3 compound nodes, 1 leaf", n=3, leaves=1, which=["f1", "g2"], ops=len(OPS), expect=("single", "unchanged"))
C.add(single, "4 rules for one head, 2 compound nodes, compound heads", n=2, leaves=1, which=["f2", "D", "DD"], ops=4, expect=("single",))
C.add(several, "rules for two heads, 2 compound nodes", n=2, which=["f1", "D", "h"], expect=("several", "unchanged"))
C.add(atom_rules, "rules for kinds of atoms, 1 compound node", n=1, which=["f", "x"], expect=("atoms", "atom", "unchanged"))
C.add(arities, "fixed arities, replaced rules, fresh transformers", expect=("arity", "fresh"))
C.add(supplied, "supplied atom values, 1 compound node", n=1, which=["f2", "g2"], expect=("supplied",))
C.add(deep, "chains 30 deep", n=30, expect=("deep",))
C.deep(single, "8 rules for one head, 3 compound nodes, 2 leaves", n=3, leaves=2, which=["f1", "g2"], ops=len(OPS))
C.deep(several, "rules for two heads, 2 compound nodes", n=2, which=["f", "D", "g"])
C.deep(atom_rules, "rules for kinds of atoms, 2 compound nodes", n=2, which=["f2", "h"])
C.deep(supplied, "supplied atom values, 2 compound nodes", n=2, which=["f2", "h"])
C.deep(deep, "chains 200 deep", n=200)
C.outside = ["rules with side effects or that return other things than trees", "fixed-arity rules applied to another number of arguments",
             "more distinct compound nodes than stated (chains apart)"]
