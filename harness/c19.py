"""C19: operation counts are exact."""

from harness.calc import is_true
from harness.lib import *  # noqa: F403
from px.registry import Check

CHECK = Check("C19", __name__)
C = CHECK


class Classes:
    """Numbers specs by structure (forks where leaves may coincide)."""

    def __init__(self, E):
        self.E = E
        self.leaves = []
        self.comps = {}
        self.memo = {}

    def num(self, s):
        if id(s) in self.memo:
            return self.memo[id(s)][0]
        if type(s) is Leaf:
            for k, r in enumerate(self.leaves):
                if is_true(self.E, same_spec(self.E, s, r)):
                    n = ("leaf", k)
                    break
            else:
                n = ("leaf", len(self.leaves))
                self.leaves.append(s)
        else:
            key = tuple(self.num(p) for p in s.parts)
            n = self.comps.setdefault(key, ("comp", len(self.comps)))
        self.memo[id(s)] = (n, s)
        return n


def expected(E, s):
    """(distinct subexpressions, subexpressions with multiplicity), heads not counted."""
    cl = Classes(E)
    tree, seen = {}, set()
    order, stack, done = [], [(s, False)], set()
    while stack:
        q, ready = stack.pop()
        if ready:
            order.append(q)
            continue
        if id(q) in done:
            continue
        done.add(id(q))
        stack.append((q, True))
        if type(q) is App:
            stack.extend((a, False) for a in q.args)
    for q in order:
        seen.add(cl.num(q))
        tree[id(q)] = 1 + (sum(tree[id(a)] for a in q.args) if type(q) is App else 0)
    return len(seen), tree[id(s)]


def judge(E, W, s, label, detail=None):
    e = W.build(s)
    g, t = expected(E, s)
    d = detail or (lambda: show(s))
    r = E.call(lambda: e.count_ops_graph())
    E.check(label + ":graph", r[0] == "ok" and r[1] == g, lambda: f"{d()}: {r[1]!r}, not {g}")
    for way in (lambda: e.count_ops_tree(), lambda: W.sc.expr.count_ops_tree(e)):
        r = E.call(way)
        E.check(label + ":tree", r[0] == "ok" and r[1] == t, lambda: f"{d()}: {r[1]!r}, not {t}")


def heads(x):
    D = App(F("D"), x)
    return {
        "f": (F("f"), (1, 2)), "f0": (F("f"), (0, 1)), "f3": (F("f"), (3,)), "A": (F("Add"), (2,)), "M": (F("Mul"), (2,)), "P": (F("pow"), (2,)),
        "D": (D, (1, 2)), "x": (x, (1,)), "i": (I(2), (1,)), "L": (F("List"), (0, 3)), "sin": (F("sin"), (1,)), "DD": (App(D, D), (1,)),
        "A3": (F("Add"), (1, 3)), "g": (F("g"), (2,)),
    }


@C.harness
def counts(E, n, leaves, which):
    """Every expression of n compound nodes, leaves that may coincide."""
    W = Cas(E)
    ls = [S(E.str("s0", "any")), I(E.int("i0")), S(E.str("s1", "any")), F("f"), I(E.int("i1"))][:leaves]
    hs = heads(ls[0])
    s = gen_dag(E, "p", ls, [hs[h] for h in which], n, interchangeable=False)[-1]
    judge(E, W, s, "counts")


@C.harness
def atoms(E):
    W = Cas(E)
    for s in (S(E.str("s", "any")), I(E.int("i")), F(E.str("f", "any")), S("x"), I(0)):
        judge(E, W, s, "atom")
        judge(E, W, App(F("f"), s), "call")
        judge(E, W, App(s), "empty")
    w = W.sc.Expr.new_wild("w")
    E.check("wild", w.count_ops_graph() == 1 and w.count_ops_tree() == 1)


@C.harness
def towers(E, n):
    """Repeated doubling: tree sizes beyond any machine integer."""
    W = Cas(E)
    x, i = S(E.str("x", "ident")), I(E.int("i"))
    steps = [lambda e: App(F("Add"), App(F("pow"), e, I(2)), e), lambda e: App(F("f"), e, e, e), lambda e: App(F("Mul"), e, App(F("sin"), e), i),
             lambda e: App(F("g"), e), lambda e: App(App(F("D"), e), e, e), lambda e: App(F("f"), x, e, x)]
    pat = [E.choose(f"step{k}", len(steps)) for k in range(3)]
    e = x
    for k in range(n):
        e = steps[pat[k % 3]](e)
    judge(E, W, e, "tower", lambda: f"tower {pat}")


@C.harness
def wide(E, n):
    W = Cas(E)
    i, j = E.int("i"), E.int("j")
    pool = [I(i), I(j), S("x"), App(F("f"), I(i)), App(F("f"), I(j)), App(F("f"), I(j), S("x"))]
    k, m = E.choose("from", 6), E.choose("step", 5)
    ts = [pool[(k + q * (m + 1)) % 6] for q in range(n)]
    judge(E, W, App(F("Add"), *ts), "wide")
    judge(E, W, App(F("f"), App(F("Mul"), *ts), App(F("Add"), *ts[::-1]), App(F("Mul"), *ts)), "wide")


C.add(counts, "2 compound nodes over f,pow, 3 leaves", n=2, leaves=3, which=["f", "P"], expect=("counts:graph", "counts:tree"))
C.add(counts, "1 compound node, every head, 5 leaves", n=1, leaves=5, which=["f", "D", "x", "i", "sin", "M"], expect=("counts:graph",))
C.add(counts, "2 compound nodes over 0 to 3 arguments, compound heads, 2 leaves", n=2, leaves=2,
      which=["f0", "D", "x", "DD", "A3"], expect=("counts:tree",))
C.add(counts, "3 compound nodes over f,*, 1 leaf", n=3, leaves=1, which=["f", "M"], expect=("counts:tree",))
C.add(counts, "3 compound nodes over g,sin, 2 leaves", n=3, leaves=2, which=["g", "sin"], expect=("counts:tree",))
C.add(atoms, "atoms", expect=("atom:graph", "call:tree", "empty:tree", "wild"))
C.add(towers, "chains of 120 steps, every alternation of three of 6 kinds", n=120, expect=("tower:graph", "tower:tree"))
C.add(wide, "9 arguments", n=9, expect=("wide:graph", "wide:tree"))
C.add(wide, "36 arguments", n=36, expect=("wide:graph", "wide:tree"))
C.deep(counts, "3 compound nodes over f,D, 2 leaves", n=3, leaves=2, which=["f", "D"])
C.deep(counts, "2 compound nodes, 4 leaves", n=2, leaves=4, which=["f", "P", "x"])
C.deep(counts, "4 compound nodes over g, 1 leaf", n=4, leaves=1, which=["g", "sin"])
C.deep(towers, "chains of 400 steps", n=400)
C.outside = ["more distinct compound nodes than stated (chains apart)"]
