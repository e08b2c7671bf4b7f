"""C04: topological sort and split."""

from harness.lib import *  # noqa: F403
from px.registry import Check

CHECK = Check("C04", __name__)
C = CHECK


def _oracle(E, W, root, heads, excluded):
    """Objects that must be listed, by walking the built expression itself.

    Tree identity is structure (C01), so the children of the real objects are
    the structure; the specs pin them (checked separately).
    """
    out, seen = [], set()
    stack = [root]
    ex = {id(t) for t in excluded}
    while stack:
        t = stack.pop()
        if id(t) in seen or id(t) in ex:
            continue
        seen.add(id(t))
        out.append(t)
        ch = t.children
        stack.extend(ch if heads else ch[1:])
    return out


def _judge_sort(E, label, got, want, root, heads, excluded):
    E.check(label + ":list", type(got) is list)
    E.check(label + ":once", len({id(t) for t in got}) == len(got),
            lambda: f"{len(got)} entries list something twice")
    E.check(label + ":exact", {id(t) for t in got} == {id(t) for t in want},
            lambda: f"listed {len(got)}, needed {len(want)}")
    pos = {id(t): i for i, t in enumerate(got)}
    ok = True
    for t in got:
        for c in t.children if heads else t.children[1:]:
            if id(c) in pos and pos[id(c)] >= pos[id(t)]:
                ok = False
    E.check(label + ":order", ok, "child after parent")
    if got:
        E.check(label + ":last", got[-1] is root)


def _all(E, W, s, excl):
    t = W.build(s)
    E.check("built", matches(E, W, t, s))
    ex = [W.build(e) for e in excl]
    sort, split = W.tree.topological_sort, W.tree.topological_split
    for heads in (False, True):
        want = _oracle(E, W, t, heads, [])
        _judge_sort(E, "sort", sort(t, heads=heads), want, t, heads, [])
        if excl:
            want = _oracle(E, W, t, heads, ex)
            exset = W.mkset(ex)
            got = sort(t, heads=heads, exclude=exset)
            _judge_sort(E, "exclude", got, want, t, heads, ex)
            E.check("exclude:arg", len(exset) == len({id(e) for e in ex})
                    and all(e in exset for e in ex), "the exclude set was changed")
    E.check("default", [id(u) for u in sort(t)] == [id(u) for u in sort(t, heads=False)])
    for kw, e in (({}, []), ({"exclude": W.mkset(ex)}, ex)):
        base = sort(t, **kw)
        atoms, heads, nodes = split(t, **kw)
        E.check("split:atoms", [id(u) for u in atoms] == [id(u) for u in base if not u.children])
        E.check("split:nodes", [id(u) for u in nodes] == [id(u) for u in base if u.children])
        hs = {id(u.children[0]) for u in base if u.children}
        E.check("split:heads", {id(h) for h in heads} == hs and len(heads) == len(hs))
    got = sort(t, heads=True)
    idx = {id(u): i for i, u in enumerate(got)}
    E.observe("sort", [[idx[id(c)] for c in u.children] for u in got])


def _world(E):
    W = Core(E)
    W.mkset = set
    return W


@C.harness
def dags(E, n, leaves, heads, ar, excl, comphead):
    """Every expression of n compound nodes."""
    ls = [I(E.int(f"l{i}")) for i in range(leaves)]
    hs = [(F("f"), ar), (F(E.str("g")), ar)][:heads]
    nodes = gen_dag(E, "p", ls, hs, n, interchangeable=False)
    s = nodes[-1]
    if comphead:
        # an earlier compound node (or a leaf) in head position
        k = E.choose("head", n + 1)
        h = ls[0] if k == n else nodes[k]
        s = App(h, nodes[-1], *([nodes[E.choose("extra", n)]] if n > 1 else []))
    cand = [x for x in subspecs(s)]
    ex = []
    if excl:
        i = E.choose("ex0", len(cand))
        ex.append(cand[i])
        if excl > 1:
            j = E.choose("ex1", len(cand))
            if j < i:
                E.assume(False)
            ex.append(cand[j])
    _all(E, _world(E), s, ex)


@C.harness
def wide(E, n, excl):
    """n arguments, one of them symbolic and possibly equal to another."""
    k = (0, 1, n // 2, n - 2, n - 1)[E.choose("pos", 5)]
    m = I(E.int("m", 0, n + 3) if n < 40 else E.int("m", n - 4, n + 1))
    args = [I(i) for i in range(n)]
    args[k] = m
    inner = App(F("g"), args[(k + 3) % n], m)
    args.insert(E.choose("at", 3) * (n // 2), inner)
    s = App(F("f"), *args)
    _all(E, _world(E), s, [m, inner][:excl])


@C.harness
def chains(E, n, excl):
    """Deep chains with sharing at every level."""
    m, k = I(E.int("m")), I(E.int("k"))
    t = m
    mid = None
    two = E.choose("shape", 4)
    for i in range(n):
        if two == 0:
            t = App(F("f"), t)
        elif two == 1:
            t = App(F("f"), t, t)
        elif two == 2:
            t = App(F("f"), k, t) if i % 3 else App(F("g"), t, k, t)
        else:
            t = App(t if i % 4 == 3 else F("f"), t, k)
        if i == n // 2:
            mid = t
    _all(E, _world(E), t, [mid] if excl else [])


C.add(dags, "3 compound nodes, 2 int leaves, arity <= 2", n=3, leaves=2, heads=1, ar=(1, 2), excl=0,
      comphead=False, expect=("sort:exact", "split:nodes"))
C.add(dags, "2 compound nodes, 2 heads, arity <= 3, any one subexpression excluded", n=2, leaves=2,
      heads=2, ar=(0, 1, 2), excl=1, comphead=False, expect=("exclude:exact",))
C.add(dags, "compound or atomic node in head position, one excluded", n=2, leaves=1, heads=2, ar=(1, 2),
      excl=1, comphead=True, expect=("exclude:exact",))
C.add(dags, "3 compound nodes, 1 leaf, two excluded", n=3, leaves=1, heads=1, ar=(1, 2), excl=2,
      comphead=False, expect=("exclude:exact",))
C.add(wide, "12 arguments", n=12, excl=2, expect=("exclude:exact",))
C.add(wide, "33 arguments", n=33, excl=1, expect=("sort:exact",))
C.add(wide, "70 arguments", n=70, excl=2, expect=("exclude:exact",))
C.add(chains, "chains of depth 60", n=60, excl=1, expect=("exclude:exact",))
C.deep(dags, "4 compound nodes, 2 leaves, arity <= 2", n=4, leaves=2, heads=1, ar=(1, 2), excl=0, comphead=False)
C.deep(dags, "3 compound nodes, 2 leaves, 2 heads, compound head, 1 excluded", n=3, leaves=1, heads=2,
       ar=(1, 2), excl=1, comphead=True)
C.deep(dags, "2 compound nodes of arity 3, 2 leaves, two excluded", n=2, leaves=2, heads=2, ar=(1, 3),
       excl=2, comphead=False)
C.deep(chains, "chains of depth 200", n=200, excl=1)
C.outside = ["more distinct compound nodes than stated", "the exact order among independent subexpressions"]
