"""C05: forward graphs."""

from harness.lib import *  # noqa: F403
from px.registry import Check

CHECK = Check("C05", __name__)
C = CHECK


def _judge(E, W, s):
    t = W.build(s)
    E.check("built", matches(E, W, t, s))
    g = W.tree.forward_graph(t)
    E.check("graph:types", type(g.atoms) is list and type(g.operations) is list)
    stack = list(g.atoms)
    heads = []
    for op in g.operations:
        head, indices = op
        E.check("indices", all(type(i) is int and 0 <= i < len(stack) for i in indices),
                lambda: f"index outside the {len(stack)} earlier results: {indices}")
        heads.append(head)
        stack.append(head(*[stack[i] for i in indices]))
    E.check("rebuild", len(stack) > 0 and stack[-1] is t,
            "running the graph does not give the expression")
    E.check("once", len({id(u) for u in stack}) == len(stack), "a subexpression is listed twice")
    need, todo = set(), [t]
    while todo:
        u = todo.pop()
        if id(u) not in need:
            need.add(id(u))
            todo.extend(u.children[1:])
    E.check("exact", {id(u) for u in stack} == need, "not exactly the subexpressions")
    E.check("atoms", all(not u.children for u in g.atoms)
            and all(u.children for u in stack[len(g.atoms):]))
    E.check("heads", {id(h) for h in g.heads} == {id(h) for h in heads}
            and len(g.heads) == len({id(h) for h in heads}))
    E.check("result", matches(E, W, stack[-1], s))
    E.observe("graph", [len(g.atoms), [list(ix) for _, ix in g.operations]])


@C.harness
def dags(E, n, leaves, heads, ar, comphead):
    ls = [I(E.int(f"l{i}")) if i != 1 else S(E.str(f"l{i}")) for i in range(leaves)]
    if leaves > 2:
        ls[2] = I(E.int("l2b"))
    hs = [(F("f"), ar), (F(E.str("g")), ar), (F("k"), ar)][:heads]
    nodes = gen_dag(E, "p", ls, hs, n, interchangeable=False)
    s = nodes[-1]
    if comphead:
        k = E.choose("head", n + leaves)
        h = ls[k - n] if k >= n else nodes[k]
        s = App(h, nodes[-1], nodes[E.choose("extra", n)], ls[0])
    _judge(E, Core(E), s)


@C.harness
def atom(E):
    k = E.choose("kind", 3)
    s = [I(E.int("i")), S(E.str("s")), F(E.str("f"))][k]
    _judge(E, Core(E), s)


@C.harness
def wide(E, n):
    k = (0, 1, n // 2, n - 1)[E.choose("pos", 4)]
    m = I(E.int("m", 0, n + 3))
    args = [I(i) for i in range(n)]
    args[k] = m
    inner = App(F("g"), args[(k + 3) % n], m)
    args.insert(E.choose("at", 3) * (n // 2), inner)
    args.append(App(F("g"), inner, args[0]))
    args.append(inner)
    _judge(E, Core(E), App(F("f"), *args))


@C.harness
def chains(E, n):
    m, k = I(E.int("m")), S(E.str("k"))
    t = m
    two = E.choose("shape", 4)
    for i in range(n):
        if two == 0:
            t = App(F("f"), t)
        elif two == 1:
            t = App(F("f"), t, t, m)
        elif two == 2:
            t = App(F("f"), k, t) if i % 3 else App(F("g"), t, k, t)
        else:
            t = App(t if i % 4 == 3 else F("f"), t, k)
    _judge(E, Core(E), t)


C.add(atom, "any atom", expect=("rebuild",))
C.add(dags, "3 compound nodes, 2 leaves, arity <= 2", n=3, leaves=2, heads=1, ar=(1, 2), comphead=False,
      expect=("rebuild", "heads"))
C.add(dags, "2 compound nodes, 3 leaves, 2 heads, arity 0..2", n=2, leaves=3, heads=2, ar=(0, 1, 2),
      comphead=False, expect=("rebuild",))
C.add(dags, "2 compound nodes, 1 leaf, arity 3", n=2, leaves=1, heads=2, ar=(3,), comphead=False,
      expect=("rebuild",))
C.add(dags, "compound or atomic head over 2 compound nodes", n=2, leaves=2, heads=2, ar=(1, 2), comphead=True,
      expect=("rebuild",))
C.add(wide, "12 arguments", n=12, expect=("rebuild",))
C.add(wide, "40 arguments", n=40, expect=("rebuild",))
C.add(chains, "chains of depth 60", n=60, expect=("rebuild",))
C.deep(dags, "4 compound nodes, 2 leaves", n=4, leaves=2, heads=1, ar=(1, 2), comphead=False)
C.deep(dags, "3 compound nodes, 2 leaves, 2 heads, compound head", n=3, leaves=2, heads=2, ar=(1, 2), comphead=True)
C.deep(chains, "chains of depth 300", n=300)
C.outside = ["more distinct compound nodes than stated"]
