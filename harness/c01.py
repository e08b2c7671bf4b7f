"""C01: canonical identity."""

import copy
import pickle

from harness.lib import *  # noqa: F403
from px.registry import Check

CHECK = Check("C01", __name__)
C = CHECK


def _leaves(E, tag, kinds):
    out = []
    for i, k in enumerate(kinds):
        if k == "Integer":
            out.append(I(E.int(f"{tag}.i{i}")))
        elif k == "Symbol":
            out.append(S(E.str(f"{tag}.s{i}")))
        else:
            out.append(F(E.str(f"{tag}.f{i}")))
    return out


def _judge(E, label, x, y, same):
    E.check(label, E.iff(x is y, same), "identity does not match structure")
    eq, ne = (x == y), (x != y)
    E.check(label + ":eq", E.iff(eq, same), "== does not match structure")
    E.check(label + ":ne", E.iff(ne, E.not_(same)), "!= does not match structure")
    if x is y:
        E.check(label + ":hash", hash(x) == hash(y))
    d = {x: 1}
    E.check(label + ":dict", E.iff(y in d, same))
    E.observe(label, x is y)


@C.harness
def atoms(E, k1, k2):
    """Two atoms of given kinds with arbitrary values."""
    a, b = _leaves(E, "p", [k1]) + _leaves(E, "q", [k2])
    W = Core(E)
    x = W.kinds[a.kind](a.value)
    y = W.kinds[b.kind](b.value)
    _judge(E, "atom", x, y, same_spec(E, a, b))
    E.check("atom:content", E.all([x.atom_type is W.kinds[a.kind],
                                   values_equal(E, a.kind, x.value, a.value),
                                   y.atom_type is W.kinds[b.kind],
                                   values_equal(E, b.kind, y.value, b.value)]))
    tx, ty = W.build(a), W.build(b)
    _judge(E, "leaf", tx, ty, same_spec(E, a, b))
    E.check("leaf:value", tx.value is x and ty.value is y)


@C.harness
def pairs(E, n1, n2, kinds, heads, ar):
    """Two compound expressions over shared and own leaves."""
    leaves = _leaves(E, "l", kinds)
    hs = _leaves(E, "h", ["Function"] * heads)
    HS = [(h, ar) for h in hs]
    a = gen_dag(E, "p", leaves, HS, n1)[-1]
    b = gen_dag(E, "q", leaves, HS, n2, interchangeable=False)[-1]
    W = Core(E)
    first = E.boolean("b first")
    if first:
        y = W.build(b)
        x = W.build(a)
    else:
        x = W.build(a)
        y = W.build(b)
    _judge(E, "tree", x, y, same_spec(E, a, b))
    E.check("tree:content", E.all([matches(E, W, x, a), matches(E, W, y, b)]))
    # children of the result are the canonical objects themselves
    for t, s in ((x, a), (y, b)):
        for c, p in zip(t.children, s.parts):
            E.check("tree:child", c is W.build(p))
    # rebuilding from parts, in both notations, gives the same object
    W2 = Core.__new__(Core)
    W2.__dict__.update(W.__dict__)
    W2.memo = {}
    E.check("tree:rebuild", W2.build(a) is x)
    E.check("tree:rebuild-parts", W.tree.Tree(*x.children) is x)
    E.check("tree:rebuild-call", x.children[0](*x.children[1:]) is x)
    if not first:
        E.check("tree:rebuild-b", W2.build(b) is y)


@C.harness
def wide(E, n, kind):
    """Argument lists of length n that differ in at most one place or length."""
    W = Core(E)
    f = F(E.str("f"))
    near = () if n < 20 else (97, 102)  # next to few of the constants
    mk = (lambda i, t: I(E.int(f"{t}{i}", *near))) if kind == "Integer" else (
        lambda i, t: S(E.str(f"{t}{i}")))
    few = list(range(n)) if n < 20 else [0, 1, n // 2, n - 2, n - 1]
    pos = few[E.choose("pos", len(few))]
    base = [mk(i, "v") if i in (0, pos) else I(100 + i) for i in range(n)]
    other = list(base)
    mode = E.choose("mode", 4)
    if mode == 0:
        other[pos] = mk(pos, "w")
    elif mode == 1:
        other = other[:pos] + other[pos + 1 :]
    elif mode == 2:
        other.insert(pos, base[pos])
    else:
        j = few[E.choose("swap", len(few))]
        other[pos], other[j] = other[j], other[pos]
    a, b = App(f, *base), App(f, *other)
    x, y = W.build(a), W.build(b)
    _judge(E, "wide", x, y, same_spec(E, a, b))
    E.check("wide:content", E.all([matches(E, W, x, a), matches(E, W, y, b)]))


@C.harness
def chains(E, n):
    """Deep chains that differ at one level or in the leaf."""
    W = Core(E)
    f, g = F(E.str("f")), F(E.str("g"))
    lev = E.choose("level", n + 1)

    def chain(leaf, odd):
        t = leaf
        for i in range(n):
            t = App(g if i == odd else f, t)
        return t

    l1, l2 = I(E.int("m")), I(E.int("n"))
    a = chain(l1, -1)
    b = chain(l2, lev) if lev < n else chain(l2, -1)
    x, y = W.build(a), W.build(b)
    _judge(E, "chain", x, y, same_spec(E, a, b))
    E.check("chain:content", E.all([matches(E, W, x, a), matches(E, W, y, b)]))


@C.harness
def exprs(E, n1, n2, sub):
    """Sym/Expr wrappers: same object iff same class and same tree."""
    leaves = [I(E.int("l0")), S(E.str("l1"))]
    HS = [(F("Add"), (1, 2)), (F(E.str("h")), (1,))]
    a = gen_dag(E, "p", leaves, HS, n1, interchangeable=False)[-1] if n1 else leaves[
        E.choose("pa", 2)]
    b = gen_dag(E, "q", leaves, HS, n2, interchangeable=False)[-1] if n2 else leaves[
        E.choose("pb", 2)]
    W = Cas(E)
    x, y = W.build(a), W.build(b)
    _judge(E, "expr", x, y, same_spec(E, a, b))
    Expr = W.sc.Expr
    E.check("expr:wrap", Expr(x.rep) is x and Expr(y.rep) is y)
    E.check("expr:content", E.all([matches(E, W, x.rep, a), matches(E, W, y.rep, b)]))
    E.check("expr:expressify", W.sc.expressify(x) is x)
    Sym = E.mod("protosym.core.sym").Sym
    if sub:
        class Other(Expr):
            pass

        class Base(Sym):
            pass
        for cls in (Other, Base):
            o, p = cls(x.rep), cls(y.rep)
            E.check("expr:class", type(o) is cls and o is not x and o != x
                    and cls(x.rep) is o)
            E.check("expr:class-iff", E.iff(o is p, same_spec(E, a, b)))
    if type(a) is App:
        E.check("expr:head", x.head is W.build(a.head))
        E.check("expr:args", len(x.args) == len(a.args) and all(
            p is W.build(q) for p, q in zip(x.args, a.args)))


@C.harness
def namesakes(E, n):
    """Kinds, and Sym classes, that share their name are still different ones."""
    leaves = [I(E.int("l0")), S(E.str("l1"))]
    a = gen_dag(E, "p", leaves, [(F("h"), (1, 2))], n)[-1] if n else leaves[E.choose("leaf", 2)]
    W, other = Core(E), Core(E)
    T = E.mod("protosym.core.atom").AtomType
    other.kinds = {k: T(k, t.typ) for k, t in W.kinds.items()}
    x, y = W.build(a), other.build(a)
    _judge(E, "namesake", x, y, False)
    for t, V in ((x, W), (y, other)):
        stack = [t]
        while stack:
            p = stack.pop()
            stack.extend(p.children)
            if not p.children:
                E.check("namesake:kind", any([p.value.atom_type is k for k in V.kinds.values()]))
    Sym, Expr = E.mod("protosym.core.sym").Sym, E.mod("protosym.simplecas").Expr
    made = []
    for base in (Sym, Expr):
        for bases in ((base,), (base,), (base,)):
            made.append(type("Expr", bases, {"__module__": Expr.__module__, "__qualname__": "Expr"}))
    kept = [c(x) for c in made] + [Sym(x), Expr(x)]
    for o, c in zip(kept, [*made, Sym, Expr]):
        E.check("namesake:class", type(o) is c and o.rep is x and c(x) is o)
    for i, o in enumerate(kept):
        for p in kept[:i]:
            E.check("namesake:distinct", o is not p and o != p and not (o == p) and p not in {o: 1})
    u, v = type(kept[0]).new_atom("K", str), type(kept[0]).new_atom("K", str)
    w = E.str("w")
    E.check("namesake:atoms", u(w) is u(w) and v(w) is v(w) and u(w) is not v(w))


@C.harness
def copies(E, n):
    """No copy operation makes a second object for the same expression."""
    leaves = [I(E.int("l0")), S("u")]
    a = gen_dag(E, "p", leaves, [(F("h"), (1, 2))], n)[-1] if n else leaves[
        E.choose("leaf", 2)]
    W = Core(E)
    x = W.build(a)
    V = Cas(E)
    z = V.build(a)
    how = E.choose("how", 4)
    op = [
        copy.copy,
        copy.deepcopy,
        lambda o: pickle.loads(pickle.dumps(o)),
        lambda o: type(o)(),
    ][how]
    what = E.choose("what", 3)
    obj = [x, z, z.rep][what]
    if E.symbolic and how == 2:
        op = copy.copy  # pickling needs importable modules; same protocol
    st, r = E.call(op, obj)
    if st == "ok":
        E.check("copy", r is obj, lambda: f"second object {type(r)} for the same expression")
    else:
        E.check("copy", True)
    E.check("copy:intact", E.all([matches(E, W, x, a), matches(E, V, z.rep, a)]))
    W.memo.clear()
    E.check("copy:again", W.build(a) is x)
    E.observe("copy", st)


for k1 in Core.KINDS:
    for k2 in Core.KINDS:
        C.add(atoms, f"any {k1} value against any {k2} value", k1=k1, k2=k2,
              expect=("atom", "leaf"))
C.add(pairs, "two trees of 1 compound node, arity<=2, 2 int leaves, 2 heads", n1=1, n2=1,
      kinds=["Integer", "Integer"], heads=2, ar=(0, 1, 2), expect=("tree",))
C.add(pairs, "two trees of 1 compound node, arity<=2, int and str leaf", n1=1, n2=1,
      kinds=["Integer", "Symbol"], heads=1, ar=(1, 2), expect=("tree",))
C.add(pairs, "trees of 2 and 1 compound nodes, arity<=2, 1 symbol leaf", n1=2, n2=1,
      kinds=["Symbol"], heads=1, ar=(1, 2), expect=("tree",))
C.add(pairs, "two trees of 2 compound nodes, arity<=2, 1 int leaf", n1=2, n2=2,
      kinds=["Integer"], heads=1, ar=(1, 2), expect=("tree",))
C.add(wide, "argument lists of length 6 differing in one place", n=6, kind="Integer", expect=("wide",))
C.add(wide, "argument lists of length 17 differing in one place", n=17, kind="Symbol", expect=("wide",))
C.add(wide, "argument lists of length 35 differing in one place", n=35, kind="Integer", expect=("wide",))
C.add(chains, "chains of depth 40 differing at one level", n=40, expect=("chain",))
C.add(exprs, "Expr leaves", n1=0, n2=0, sub=True, expect=("expr",))
C.add(exprs, "Expr of one compound node against a leaf", n1=1, n2=0, sub=False, expect=("expr",))
C.add(exprs, "Expr of one compound node each", n1=1, n2=1, sub=True, expect=("expr",))
C.add(namesakes, "kinds and classes of the same name, a leaf", n=0, expect=("namesake", "namesake:class"))
C.add(namesakes, "kinds and classes of the same name, one compound node", n=1, expect=("namesake", "namesake:class"))
C.add(copies, "copies of a leaf", n=0, expect=("copy",))
C.add(copies, "copies of a compound", n=1, expect=("copy",))
C.deep(pairs, "two trees of 2 compound nodes, arity<=2, 2 leaves, 2 heads", n1=2, n2=2,
       kinds=["Integer", "Symbol"], heads=2, ar=(1, 2))
C.deep(pairs, "trees of 3 and 2 compound nodes", n1=3, n2=2, kinds=["Integer"], heads=1, ar=(1, 2))
C.deep(pairs, "1 compound node each, arity 3, 3 leaves", n1=1, n2=1,
       kinds=["Integer", "Integer", "Integer"], heads=1, ar=(3,))
C.deep(wide, "argument lists of length 70", n=70, kind="Integer")
C.deep(chains, "chains of depth 150", n=150)
C.deep(exprs, "Expr of two compound nodes each", n1=2, n2=2, sub=True)
C.outside = ["float, tuple or other atom values", "larger expressions", "the optional rust backend"]
