"""C09: substitution is simultaneous and exact."""

import itertools

from harness.lib import *  # noqa: F403
from px.registry import Check

CHECK = Check("C09", __name__)
C = CHECK


def subst(E, s, params, reps, memo=None):
    """The substitution the property states, on specs (outer match wins)."""
    memo = {} if memo is None else memo
    if id(s) in memo:
        return memo[id(s)][0]
    r = None
    for p, q in zip(params, reps):
        c = same_spec(E, s, p)
        if c is True or (c is not False and bool(c)):
            r = q
            break
    if r is None:
        if type(s) is Leaf:
            r = s
        else:
            parts = [subst(E, p, params, reps, memo) for p in s.parts]
            if all(a is b for a, b in zip(parts, s.parts)):
                r = s
            else:
                r = App(*parts)
    memo[id(s)] = (r, s)
    return r


def _rep(got):
    return got.rep if hasattr(got, "rep") else got


def judge(E, W, label, got, s, params, reps):
    want = subst(E, s, params, reps)
    ok = matches(E, W, _rep(got), want)
    E.check(label, ok, lambda: f"{show(s)} with {[show(p) for p in params]} -> "
            f"{[show(r) for r in reps]}: wanted {show(want)}, got {got!r}")
    E.check(label + ":object", got is W.build(want))
    if want is s:
        E.check("unmatched", got is W.build(s), "nothing matched but a new expression was returned")


def _ways(E, W, way, t, ps):
    """A function taking replacement objects."""
    if way == 0:
        fn = W.tree.SubsFunc(t, list(ps))
        return lambda *rs: fn(*rs)
    if way == 1:
        fn = W.tree.SubsFunc(t, list(ps))
        return lambda *rs: fn.call(tuple(rs))
    if way == 2:
        return t.as_function(*ps)
    if way == 3:
        return lambda *rs: t.xreplace(dict(zip(ps, rs)))
    fn = W.sc.expr.ExprFunction(t, tuple(ps))
    return lambda *rs: fn(*rs)


def _world(E, way):
    return Core(E) if way < 2 else Cas(E)


@C.harness
def subs(E, n, leaves, heads, ways, params):
    """Every expression and every choice of parts of it as parameters."""
    heads = HEADS[heads]
    ls = [S(E.str("s0", "ident", avoid=("z", "w"))), I(E.int("i0")), S(E.str("s1", "ident", avoid=("z", "w")))]
    s = gen_dag(E, "p", ls[:leaves], heads, n, interchangeable=False)[-1]
    pool = subspecs(s) + [S("w"), App(heads[0][0], ls[0])]
    pick = []
    for i in range(params):
        lo = pick[-1] + 1 if pick else 0
        if lo >= len(pool):
            E.assume(False)
        pick.append(lo + E.choose(f"param{i}", len(pool) - lo))
    ps = [pool[i] for i in pick]
    if params == 2 and E.boolean("swap order"):
        ps = ps[::-1]
    if params == 3:
        ps = list(itertools.permutations(ps))[E.choose("order", 6)]
    for i, a in enumerate(ps):
        for b in ps[:i]:
            E.assume(E.not_(same_spec(E, a, b)))
    z = S("z")
    if params == 1:
        combos = [[z], [App(F("k"), ps[0], z)], [s]]
    else:
        q, r = ps[0], ps[1]
        combos = [[r, q], [App(F("k"), r, z), z], [s, App(F("k"), q, q)]]
    reps = combos[E.choose("replacements", len(combos))]
    if params == 3:
        reps = [*reps, ps[0]]
    way = ways[E.choose("way", len(ways))]
    W = _world(E, way)
    t = W.build(s)
    fn = _ways(E, W, way, t, [W.build(p) for p in ps])
    got = fn(*[W.build(r) for r in reps])
    judge(E, W, "subs", got, s, ps, reps)
    E.check("expression kept", matches(E, W, _rep(t), s))
    # the same function again, with other arguments
    reps2 = [App(F("k"), z, z)] * params
    got = fn(*[W.build(r) for r in reps2])
    judge(E, W, "again", got, s, ps, reps2)
    got = fn(*[W.build(p) for p in ps])
    E.check("identity", got is t, "replacing parts by themselves gave another expression")
    E.observe("n", params)


@C.harness
def arity(E, k, way):
    """Wrong numbers of arguments, no parameters at all."""
    given = E.choose("given", 4)
    n = I(E.int("n"))
    s = App(F("f"), S("x"), App(F("g"), n, S("y")))
    ps = [S("x"), n, App(F("g"), n, S("y"))][:k]
    if E.boolean("reversed"):
        ps = ps[::-1]
    W = _world(E, way)
    t = W.build(s)
    fn = _ways(E, W, way, t, [W.build(p) for p in ps])
    args = [W.build(S("z")) for _ in range(given)]
    r = E.call(lambda: fn(*args))
    if given == k:
        E.check("arity:right", r[0] == "ok")
        judge(E, W, "arity:subs", r[1], s, ps, [S("z")] * k)
    else:
        E.check("arity:wrong", r[0] == "exc" and isinstance(r[1], TypeError), lambda: f"{r}")
        r = E.call(lambda: fn(*[W.build(S("z")) for _ in range(k)]))
        E.check("arity:after", r[0] == "ok")
        judge(E, W, "arity:subs", r[1], s, ps, [S("z")] * k)
    E.observe("outcome", r[0])


@C.harness
def ints(E):
    """Python ints as parameters, replacements and arguments of functions."""
    a, b, c = E.int("a"), E.int("b"), E.int("c")
    E.assume(a != b)
    s = App(F("Add"), I(a), App(F("pow"), S("x"), I(b)), I(c))
    W = Cas(E)
    e = W.build(s)
    got = e.as_function(a, b)(b, a)
    judge(E, W, "ints", got, s, [I(a), I(b)], [I(b), I(a)])
    got = e.as_function(W.sc.x, b)(c, W.sc.y)
    judge(E, W, "ints:mixed", got, s, [S("x"), I(b)], [I(c), S("y")])
    got = W.sc.expr.ExprFunction(a, (b,))(c)
    judge(E, W, "ints:whole", got, I(a), [I(b)], [I(c)])


@C.harness
def many(E, n, way):
    """Many parameters at once: rotations of many symbols and compounds."""
    shift = E.choose("shift", 3)
    kind = E.choose("kind", 3)
    xs = [S(f"v{i}") if i % 2 else I(E.int(f"i{i}", 100 * i, 100 * i + 50)) for i in range(n)]
    gs = [App(F("g"), a) for a in xs]
    s = App(F("h"), *[App(F("f"), g, a) for g, a in zip(gs, xs)], App(F("f"), *xs), *gs)
    ps = [xs, gs, xs[: n // 2] + gs[n // 2:]][kind]
    order = E.choose("order", 3)
    ps = [ps, ps[::-1], ps[1::2] + ps[::2]][order]
    reps = ps[shift:] + ps[:shift]
    W = _world(E, way)
    t = W.build(s)
    fn = _ways(E, W, way, t, [W.build(p) for p in ps])
    got = fn(*[W.build(r) for r in reps])
    judge(E, W, "many", got, s, ps, reps)
    if shift == 0:
        E.check("many:identity", got is t)


@C.harness
def broad(E, n, way):
    """Very many parameters, each part in turn used with its neighbours."""
    m = I(E.int("m", 10 * n, 11 * n))
    xs = [m if i == n // 2 else (I(i) if i % 3 else S(f"v{i}")) for i in range(n)]
    kind = E.choose("kind", 3)
    s = [App(F("h"), *xs), App(F("h"), *[App(F("g"), a, b) for a, b in zip(xs, xs[1:] + xs[:1])]),
         App(F("f"), App(F("h"), *xs), App(F("g"), *[App(F("k"), a) for a in xs]))][kind]
    ps = list(xs)
    if E.boolean("reversed"):
        ps = ps[::-1]
    reps = ps[1:] + ps[:1] if E.boolean("rotate") else [App(F("k"), p, S("z")) for p in ps]
    W = _world(E, way)
    t = W.build(s)
    fn = _ways(E, W, way, t, [W.build(p) for p in ps])
    got = fn(*[W.build(r) for r in reps])
    judge(E, W, "broad", got, s, ps, reps)
    E.check("broad:identity", fn(*[W.build(p) for p in ps]) is t)


@C.harness
def chain(E, n, way):
    """Deep chains; parameters at any two depths, in arguments or heads."""
    mode = E.choose("mode", 4)
    e = base = S(E.str("s", "ident", avoid=("z", "y")))
    nodes = [e]
    y = S("y")
    f = F("f")
    for i in range(n):
        e = [App(f, e), App(f, y, e), App(e, y), App(f, e, e)][mode]
        nodes.append(e)
    i = E.choose("first", 4)
    j = E.choose("second", 4)
    at = [0, 1, n // 2, n]
    E.assume(i != j)
    ps = [nodes[at[i]], nodes[at[j]]]
    reps = [App(F("k"), ps[1]), S("z")]
    W = _world(E, way)
    t = W.build(e)
    fn = _ways(E, W, way, t, [W.build(p) for p in ps])
    got = fn(*[W.build(r) for r in reps])
    want = subst(E, e, ps, reps)
    E.check("chain", got is W.build(want), lambda: f"mode {mode}, parameters at depth {at[i]}, {at[j]} of {n}")
    E.check("chain:structure", matches(E, W, _rep(got), want))
    fn = _ways(E, W, way, t, [W.build(F("q"))])
    E.check("chain:none", fn(W.build(base)) is t)


HEADS = {}
HEADS["H3"] = [(F("f"), (1,)), (F("g"), (2,))]
HEADS["HH"] = [(F("f"), (1, 2)), (App(F("g"), S("w")), (1,))]
HEADS["HN"] = [(F("f"), (1, 2)), (F("g"), (3,)), (F("Add"), (2,))]
C.add(subs, "2 compound nodes, 1 leaf, 1 parameter, 5 ways", n=2, leaves=1, heads="H3", ways=[0, 1, 2, 3, 4], params=1,
      expect=("subs", "again", "unmatched", "identity"))
C.add(subs, "2 compound nodes, 2 leaves, 2 parameters", n=2, leaves=2, heads="H3", ways=[0], params=2,
      expect=("subs", "unmatched"))
C.add(subs, "2 compound nodes, 1 leaf, 2 parameters, Expr", n=2, leaves=1, heads="H3", ways=[3], params=2,
      expect=("subs",))
C.add(subs, "2 compound nodes, compound heads, 2 parameters", n=2, leaves=1, heads="HH", ways=[0], params=2,
      expect=("subs",))
C.add(subs, "3 compound nodes, 1 leaf, 1 parameter", n=3, leaves=1, heads="H3", ways=[0], params=1, expect=("subs",))
C.add(subs, "1 compound node, 2 leaves, 3 parameters in every order", n=1, leaves=2, heads="H3", ways=[0], params=3, expect=("subs",))
C.add(subs, "1 compound node, 2 leaves, 2 parameters", n=1, leaves=2, heads="HN", ways=[0], params=2, expect=("subs",))
for way in (0, 2):
    for k in range(4):
        C.add(arity, f"{k} parameters, 0-3 arguments, way {way}", k=k, way=way,
              expect=("arity:right", "arity:wrong"))
    C.add(many, f"9 parameters at once, in three orders, way {way}", n=9, way=way, expect=("many",))
    C.add(chain, f"chains 40 deep, way {way}", n=40, way=way, expect=("chain",))
for way, n in ((0, 18), (2, 35), (3, 70)):
    C.add(broad, f"{n} parameters at once, way {way}", n=n, way=way, expect=("broad", "broad:identity"))
C.deep(broad, "150 parameters at once", n=150, way=0)
C.add(ints, "int parameters and replacements", expect=("ints", "ints:whole"))
C.deep(subs, "3 compound nodes, 2 leaves, 2 parameters", n=3, leaves=1, heads="H3", ways=[0], params=2)
C.deep(subs, "3 compound nodes, 2 leaves, 1 parameter", n=3, leaves=2, heads="H3", ways=[0, 3], params=1)
C.deep(subs, "2 compound nodes, 3 leaves, 2 parameters", n=2, leaves=3, heads="HN", ways=[0], params=2)
C.deep(subs, "2 compound nodes, compound heads, 3 parameters", n=2, leaves=1, heads="HH", ways=[0], params=3)
C.deep(subs, "1 compound node, 3 leaves, 2 parameters", n=1, leaves=3, heads="HN", ways=[0, 3], params=2)
C.deep(subs, "2 compound nodes, 2 leaves, 1 parameter, 5 ways", n=2, leaves=2, heads="H3", ways=[0, 1, 2, 3, 4], params=1)
C.deep(subs, "1 compound node, 3 leaves, 3 parameters in every order", n=1, leaves=3, heads="HN", ways=[0, 3], params=3)
C.deep(many, "40 parameters", n=40, way=0)
C.deep(chain, "chains 200 deep", n=200, way=0)
C.outside = ["the same parameter listed twice", "more distinct compound nodes than stated"]
