"""C06: evaluation is the bottom-up fold of the rules."""

from harness.lib import *  # noqa: F403
from px.registry import Check

CHECK = Check("C06", __name__)
C = CHECK

OP1, OP2, OPN, NONE = "op1", "op2", "opn", "none"


class Norule(Exception):
    pass


def conv(E, v):
    """Any evaluated value as a number (so that rules accept all of them)."""
    if v is None:
        return E.uf("val.None")
    if v == "" and isinstance(v, str):
        return E.uf("val.empty")
    if isinstance(v, list):
        return E.uf("val.list")
    if v is False:
        return E.uf("val.False")
    return v


class Rules:
    """A choice of rules, registered on the evaluator and known to the oracle."""

    def __init__(self, E, W, generic_op, generic_atom, int_rule, sym_rule):
        self.E, self.W = E, W
        self.generic_op, self.generic_atom = generic_op, generic_atom
        self.int_rule, self.sym_rule = int_rule, sym_rule

    def heads(self):
        return [(F("f"), (1,)), (F("g"), (2,)), (F("n"), (0, 1, 2)), (F("z"), (1, 2)), (F("u"), (0, 1, 2))]

    def register(self, ev):
        E, W = self.E, self.W
        b = W.build
        c = lambda v: conv(E, v)  # noqa: E731
        ev.add_op1(b(F("f")), lambda x: E.uf("f", c(x)))
        ev.add_op2(b(F("g")), lambda x, y: E.uf("g", c(x), c(y)))
        ev.add_opn(b(F("n")), lambda xs: E.uf(f"n{len(xs)}", *[c(x) for x in xs]))
        ev.add_opn(b(F("z")), lambda xs: None)
        if self.generic_op:
            ev.add_op_generic(lambda h, xs: E.uf(
                f"gen{len(xs)}", den_tree(E, W, h), *[c(x) for x in xs]))
        if self.generic_atom:
            ev.add_atom_generic(lambda a: E.uf("gatom", den_tree(E, W, a)))
        if self.int_rule:
            ev.add_atom(W.kinds["Integer"], lambda v: E.uf("int", E.real_of_int(v)))
        if self.sym_rule:
            ev.add_atom(W.kinds["Symbol"], lambda v: None if self.sym_rule == 2 else E.ufs("sym", [v]))

    def atom(self, s):
        E = self.E
        if s.kind == "Integer" and self.int_rule:
            return E.uf("int", E.real_of_int(s.value))
        if s.kind == "Symbol" and self.sym_rule:
            return None if self.sym_rule == 2 else E.ufs("sym", [s.value])
        if self.generic_atom:
            return E.uf("gatom", den_spec(E, s))
        raise Norule

    def fold(self, s, values, memo):
        E = self.E
        if id(s) in memo:
            return memo[id(s)]
        c = lambda v: conv(E, v)  # noqa: E731
        if type(s) is Leaf:
            for k, v in reversed(values):
                e = same_spec(E, k, s)
                if e is True or (e is not False and bool(e)):
                    r = v
                    break
            else:
                r = self.atom(s)
        else:
            xs = [self.fold(a, values, memo) for a in s.args]
            h = s.head.value if type(s.head) is Leaf and s.head.kind == "Function" else None
            if h == "f":
                r = E.uf("f", c(xs[0]))
            elif h == "g":
                r = E.uf("g", c(xs[0]), c(xs[1]))
            elif h == "n":
                r = E.uf(f"n{len(xs)}", *[c(x) for x in xs])
            elif h == "z":
                r = None
            elif self.generic_op:
                r = E.uf(f"gen{len(xs)}", den_spec(E, s.head), *[c(x) for x in xs])
            else:
                raise Norule
        memo[id(s)] = r
        return r


def _same(E, a, b):
    odd = lambda v: v is None or v is False or isinstance(v, (str, list))  # noqa: E731
    if odd(a) or odd(b):
        return type(a) is type(b) and a == b
    return E.num_eq(a, b)


def _judge(E, W, ev, rules, s, values, sym=None):
    try:
        want = ("ok", rules.fold(s, values, {}))
    except Norule:
        want = ("exc", None)
    err = E.mod("protosym.core.exceptions").NoEvaluationRuleError
    t = W.build(s)
    vals = {}
    for k, v in values:
        vals[W.build(k)] = v
    n = len(vals)
    ways = [
        ("forward", lambda: ev.eval_forward(t, vals)),
        ("recursive", lambda: ev.eval_recursive(t, vals)),
        ("evaluate", lambda: ev.evaluate(t, vals)),
        ("call", lambda: ev(t, vals)),
    ]
    if not values:
        ways.append(("default", lambda: ev(t)))
    for name, w in ways:
        got = E.call(w)
        if want[0] == "ok":
            E.check(f"value:{name}", got[0] == "ok", lambda: f"{got}")
            E.check(f"value:{name}:same", _same(E, got[1], want[1]), lambda: f"{got} wanted {want}")
        else:
            E.check(f"error:{name}", got[0] == "exc" and isinstance(got[1], err), lambda: f"{got}")
    E.check("values dict", len(vals) == n, "the values dict was changed")
    E.observe("result", [want[0], want[1]])


VALUE_KINDS = 7


def _value(E, name):
    k = E.choose(name + ".kind", VALUE_KINDS)
    if k == 0:
        return E.real(name)
    return [None, 0, "", False, [], E.real_of_int(-1)][k - 1]


@C.harness
def fold(E, n, leaves, heads, cfg, nvalues):
    """Every expression of n compound nodes under the given rules and values."""
    ls = [I(E.int("l0")), S(E.str("l1", "ident")), S(E.str("l2", "ident"))][:leaves]
    rules = Rules(E, None, *cfg)
    hs = [rules.heads()[i] for i in heads]
    s = gen_dag(E, "p", ls, hs, n, interchangeable=False)[-1]
    values = []
    for i in range(nvalues):
        k = E.choose(f"key{i}", len(ls) + 1)
        if k < len(ls):
            values.append((ls[k], _value(E, f"v{i}")))
        else:
            values.append((S("elsewhere"), 1))
    W = rules.W = Core(E)
    ev = E.mod("protosym.core.evaluate").Evaluator()
    rules.register(ev)
    _judge(E, W, ev, rules, s, values)


@C.harness
def atoms(E, cfg):
    """An atom alone, with and without a supplied value."""
    s = [I(E.int("i")), S(E.str("s", "ident")), F(E.str("f", "ident"))][E.choose("kind", 3)]
    rules = Rules(E, None, *cfg)
    values = []
    if E.boolean("supplied"):
        k = [s, I(E.int("other")), S("o")][E.choose("key", 3)]
        values.append((k, _value(E, "v")))
    W = rules.W = Core(E)
    ev = E.mod("protosym.core.evaluate").Evaluator()
    rules.register(ev)
    _judge(E, W, ev, rules, s, values)


@C.harness
def wide(E, n, cfg):
    m = I(E.int("m", 0, n + 2))
    args = [I(i) for i in range(n)]
    args[(0, n // 2, n - 1)[E.choose("pos", 3)]] = m
    args[1] = App(F("g"), m, args[2])
    args.append(App(F("n"), args[1], m, args[0], I(1)))
    s = App(F("n") if E.boolean("n") else F("u"), *args)
    rules = Rules(E, None, *cfg)
    W = rules.W = Core(E)
    ev = E.mod("protosym.core.evaluate").Evaluator()
    rules.register(ev)
    values = [(m, E.real("v"))] if E.boolean("supplied") else []
    _judge(E, W, ev, rules, s, values)


@C.harness
def many(E, n, cfg):
    """Very many arguments, most of which have supplied values."""
    m = I(E.int("m", 10 * n, 11 * n))
    xs = [m if i == n // 2 else (I(i) if i % 3 else S(f"v{i}")) for i in range(n)]
    left = [0, 1, n // 2, n - 1][E.choose("left out", 4)]
    nested = E.boolean("nested")
    s = App(F("u"), *[App(F("g"), a, b) for a, b in zip(xs, xs[1:] + xs[:1])]) if nested else App(F("n"), *xs)
    rs = [E.real(f"r{i}") for i in range(5)]
    values = [(a, rs[i % 5] + i) for i, a in enumerate(xs) if i != left]
    rules = Rules(E, None, *cfg)
    W = rules.W = Core(E)
    ev = E.mod("protosym.core.evaluate").Evaluator()
    rules.register(ev)
    _judge(E, W, ev, rules, s, values)


@C.harness
def chains(E, n, cfg):
    m = I(E.int("m"))
    t = m
    shape = E.choose("shape", 3)
    for i in range(n):
        t = [App(F("f"), t), App(F("g"), t, m) if i % 2 else App(F("u"), m, t, m),
             App(App(F("f"), m) if i % 5 == 4 else F("n"), m, t)][shape]
    rules = Rules(E, None, *cfg)
    W = rules.W = Core(E)
    ev = E.mod("protosym.core.evaluate").Evaluator()
    rules.register(ev)
    values = [(m, E.real("v"))] if E.boolean("supplied") else []
    _judge(E, W, ev, rules, t, values)


@C.harness
def comphead(E, cfg):
    """Heads that are themselves compound or are other atoms."""
    m = I(E.int("m"))
    f, g, n = F("f"), F("g"), F("n")
    h = [App(f, m), App(n), S("f"), I(E.int("k")), App(g, f, n)][E.choose("h", 5)]
    s = App(n, App(h, m, m), App(h, m, m), App(f, App(h, App(f, m), m)))
    rules = Rules(E, None, *cfg)
    W = rules.W = Core(E)
    ev = E.mod("protosym.core.evaluate").Evaluator()
    rules.register(ev)
    own = E.boolean("own rule")
    if own:
        ev.add_op2(W.build(h), lambda x, y: E.uf("own", x, y))
        want = rules.fold

        def fold2(q, values, memo):
            if type(q) is App and q.head is h:
                xs = [rules.fold(a, values, memo) for a in q.args]
                return E.uf("own", *xs)
            return want(q, values, memo)
        rules.fold = fold2
    _judge(E, W, ev, rules, s, [])


@C.harness
def namesakes(E):
    """Kinds that share their name have rules of their own."""
    W = Core(E)
    T = E.mod("protosym.core.atom").AtomType
    K, L = T("K", int), T(["K", "L"][E.choose("name", 2)], int)
    m, n = E.int("m"), E.int("n")
    tk, tl = W.tree.Tr(K(m)), W.tree.Tr(L(n))
    f = W.build(F("f"))
    ev = E.mod("protosym.core.evaluate").Evaluator()
    ev.add_opn(f, lambda xs: E.uf("f", *xs))
    rk = lambda v: E.uf("k", E.real_of_int(v))  # noqa: E731
    rl = lambda v: E.uf("l", E.real_of_int(v))  # noqa: E731
    g = lambda t: E.uf("gen", E.real_of_int(t.value.value))  # noqa: E731
    mode = E.choose("mode", 4)
    if mode in (0, 1):
        ev.add_atom(K, rk)
    if mode in (0, 2):
        ev.add_atom(L, rl)
    ev.add_atom_generic(g)
    wk = rk(m) if mode in (0, 1) else E.uf("gen", E.real_of_int(m))
    wl = rl(n) if mode in (0, 2) else E.uf("gen", E.real_of_int(n))
    given = E.choose("given", 3)
    vals = {}
    if given == 1:
        wk = vals[tk] = E.real("v")
    elif given == 2:
        wl = vals[tl] = E.real("v")
    want = E.uf("f", wk, wl, wk)
    for way in (ev.eval_forward, ev.eval_recursive, ev):
        E.check("namesake", E.num_eq(way(f(tk, tl, tk), vals), want))


@C.harness
def replaced(E):
    """Later registrations replace earlier ones; evaluators are independent."""
    m = I(E.int("m"))
    v = E.real("v")
    W = Core(E)
    Ev = E.mod("protosym.core.evaluate").Evaluator
    e1, e2 = Ev(), Ev()
    f = W.build(F("f"))
    t = W.build(App(F("f"), App(F("f"), m)))
    for e, k in ((e1, "a"), (e2, "b")):
        e.add_atom(W.kinds["Integer"], lambda n, k=k: E.uf("int" + k, E.real_of_int(n)))
        e.add_op1(f, lambda x, k=k: E.uf("op" + k, x))
    used = E.choose("used", 3)  # evaluated before a rule is replaced
    if used:
        for e, k in ((e1, "a"), (e2, "b")):
            first = e(t) if used == 1 else e.eval_recursive(t, {})
            E.check("replace:before", E.num_eq(first, E.uf("op" + k, E.uf("op" + k, E.uf("int" + k, E.real_of_int(m.value))))))
    order = E.choose("kind", 3)
    if order == 1:
        e1.add_opn(f, lambda xs: E.uf("opc", xs[0]))
    elif order == 2:
        e1.add_atom(W.kinds["Integer"], lambda n: v)

    def want(op, atom):
        return E.uf(op, E.uf(op, atom))
    i = E.real_of_int(m.value)
    a1 = v if order == 2 else E.uf("inta", i)
    o1 = "opc" if order == 1 else "opa"
    for name, ev, w in (("one", e1, want(o1, a1)), ("two", e2, want("opb", E.uf("intb", i)))):
        E.check(f"replace:{name}", E.num_eq(ev(t), w))
        E.check(f"replace:{name}:rec", E.num_eq(ev.eval_recursive(t, {}), w))


@C.harness
def symlevel(E, n):
    """The same through Expr evaluators, values keyed by Expr."""
    ls = [I(E.int("l0")), S(E.str("l1", "ident", avoid=("x", "y")))]
    s = gen_dag(E, "p", ls, [(F("f"), (1,)), (F("n"), (1, 2)), (F("u"), (2,))], n, interchangeable=False)[-1]
    supplied = E.choose("supplied", 3)
    W = Cas(E)
    sym = E.mod("protosym.core.sym")
    sc = W.sc
    a, b = sc.Expr.new_wild("wa"), sc.Expr.new_wild("wb")
    ev = sc.Expr.new_evaluator("ev", object)
    f, g = sc.Function("f"), sc.Function("n")
    ev[sc.Integer[a]] = sym.PyFunc1(lambda v: E.uf("int", E.real_of_int(v)))(a)
    ev[f(a)] = sym.PyOp1(lambda x: E.uf("f", x))(a)
    ev[g(sym.star(a))] = sym.PyOpN(lambda xs: E.uf(f"n{len(xs)}", *xs))(a)
    ev[sym.AtomRule[a]] = sym.AtomFunc(lambda t: E.uf("gatom", den_tree(E, W, t)))(a)
    ev[sym.HeadRule(a, b)] = sym.HeadOp(
        lambda h, xs: E.uf(f"gen{len(xs)}", den_tree(E, W, h), *xs))(a, b)
    rules = Rules(E, W, True, True, True, False)
    values = [] if supplied == 0 else [(ls[supplied - 1], E.real("v"))]
    want = rules.fold(s, values, {})
    e = W.build(s)
    if values:
        got = ev(e, {W.build(k): v for k, v in values})
    else:
        got = ev(e)
    E.check("sym", E.num_eq(got, want))
    E.check("sym:again", E.num_eq(ev(e, {W.build(k): v for k, v in values}), want))


ALL = (True, True, True, 1)
CFGS = [(False, False, True, 1), (True, True, False, 0), (True, False, True, 0), (False, True, False, 2)]
class Stubborn:
    """A value that can be handed on, and nothing else."""

    def __init__(self, name):
        self.name = name

    def __eq__(self, other):
        raise ValueError("not comparable")

    def __bool__(self):
        raise ValueError("neither true nor false")

    __hash__ = None

    def __len__(self):
        raise ValueError("no length")

    def __iter__(self):
        raise ValueError("not iterable")


@C.harness
def stubborn(E, n, level):
    """Values that cannot be compared, hashed, counted or used as conditions."""
    ls = [I(E.int("l0", 3)), S(E.str("l1", "ident", avoid=("x", "y")))]
    s = gen_dag(E, "p", ls, [(F("f"), (1,)), (F("n"), (1, 2)), (F("u"), (2,))], n, interchangeable=False)[-1]
    supplied = E.choose("supplied", 3)
    W = Cas(E)
    made = {}

    def make(*key):
        if key not in made:
            made[key] = Stubborn(repr(key))
        return made[key]

    def fold(t, values):
        ch = t.children
        if not ch:
            for k, v in values.items():
                if k is t:
                    return v
            return make("atom", id(t))
        return make("op", id(ch[0]), *[fold(c, values).name for c in ch[1:]])

    def op(h, xs):
        return make("op", id(h), *[x.name for x in xs])
    t = W.build(s)
    if level == "sym":
        sym = E.mod("protosym.core.sym")
        sc = W.sc
        a, b = sc.Expr.new_wild("wa"), sc.Expr.new_wild("wb")
        ev = sc.Expr.new_evaluator("ev", object)
        f, g = sc.Function("f"), sc.Function("n")
        ev[f(a)] = sym.PyOp1(lambda x: op(f.rep, [x]))(a)
        ev[g(sym.star(a))] = sym.PyOpN(lambda xs: op(g.rep, xs))(a)
        ev[sym.AtomRule[a]] = sym.AtomFunc(lambda e: make("atom", id(e.rep if hasattr(e, "rep") else e)))(a)
        ev[sym.HeadRule(a, b)] = sym.HeadOp(lambda h, xs: op(h.rep if hasattr(h, "rep") else h, xs))(a, b)
        key = lambda k: W.build(k)  # noqa: E731
        root = t.rep
    else:
        ev = E.mod("protosym.core.evaluate").Evaluator()
        b = lambda k: W.build(k).rep  # noqa: E731
        ev.add_op1(b(F("f")), lambda x: op(b(F("f")), [x]))
        ev.add_opn(b(F("n")), lambda xs: op(b(F("n")), xs))
        ev.add_atom_generic(lambda x: make("atom", id(x)))
        ev.add_op_generic(op)
        key = b
        t = root = t.rep
    vals = {key(ls[supplied - 1]): Stubborn("given")} if supplied else {}
    want = fold(root, {(k.rep if level == "sym" else k): v for k, v in vals.items()})
    r = E.call(lambda: ev(t, vals) if vals else ev(t))
    E.check("stubborn", r[0] == "ok" and r[1] is want, lambda: f"{show(s)}: {r[1] if r[0] == 'exc' else r[1].name}")
    if level != "sym":
        r = E.call(lambda: ev.eval_recursive(t, vals))
        E.check("stubborn", r[0] == "ok" and r[1] is want, lambda: f"{show(s)} recursively: {r[1] if r[0] == 'exc' else r[1].name}")


class Stop(Exception):
    pass


@C.harness
def inside(E):
    """What a rule does while it is applied: edit its list, evaluate, register rules, fail."""
    x, y, i = S(E.str("s0", "ident")), S(E.str("s1", "ident")), I(E.int("i0", 3))
    W = Core(E)
    rules = Rules(E, W, True, True, True, True)
    ev, other = E.mod("protosym.core.evaluate").Evaluator(), E.mod("protosym.core.evaluate").Evaluator()
    rules.register(ev)
    rules.register(other)
    b = W.build
    sub = App(F("f"), App(F("g"), x, i))
    s = App(F("g"), App(F("n"), sub, x, App(F("n"), x, i)), App(F("f"), App(F("n"), i, sub)))
    aside = [App(F("f"), App(F("g"), y, y)), sub, x, s][E.choose("aside", 4)]
    kind = E.choose("kind", 6)
    way = E.choose("way", 3)
    at = E.choose("at", 4)
    v = E.real("v")
    vals = {b(x): v} if E.choose("given", 2) else {}
    ta = b(aside)
    t = b(s)
    count = [0]
    depth = [0]
    failed = []

    def do(xs):
        if depth[0]:
            return
        count[0] += 1
        if count[0] != at + 1 and at < 3:
            return
        depth[0] += 1
        try:
            if kind == 0:
                xs.reverse()
                xs.append(7)
            elif kind == 1:
                ev(ta, {b(y): v, b(i): v})
            elif kind == 2:
                ev(ta)
            elif kind == 3:
                ev.add_opn(b(F("late")), lambda q: v)
                ev.add_atom(W.kinds["Function"], lambda q: v)
            elif kind == 4:
                other(ta, {b(x): v})
                other.eval_recursive(ta, {})
            else:
                failed.append(1)
                raise Stop
        finally:
            depth[0] -= 1

    def fn(xs):
        vs = [conv(E, q) for q in xs]
        do(xs)
        return E.uf(f"n{len(vs)}", *vs)
    ev.add_opn(b(F("n")), fn)
    call = [ev.eval_forward, ev.eval_recursive, ev][way]
    values = [(x, v)] if vals else []
    want = rules.fold(s, values, {})
    got = E.call(lambda: call(t, vals))
    if failed:
        E.check("inside:error", got[0] == "exc" and isinstance(got[1], Stop), lambda: repr(got))
        count[0] = 99
    else:
        E.check("inside", got[0] == "ok" and E.num_eq(got[1], want), lambda: f"{got} wanted {want}")
    at = 2
    count[0] = 99
    got = E.call(lambda: call(t, vals))
    E.check("inside:again", got[0] == "ok" and E.num_eq(got[1], want), lambda: f"{got} wanted {want}")
    E.check("inside:values", len(vals) == len(values))


C.add(inside, "six things a rule may do while applied, at each of three places", expect=("inside", "inside:error", "inside:again"))
C.add(stubborn, "values that cannot be compared, 2 compound nodes", n=2, level="core", expect=("stubborn",))
C.add(stubborn, "values that cannot be compared, Expr evaluators, 2 compound nodes", n=2, level="sym", expect=("stubborn",))
C.add(fold, "3 compound nodes, 2 leaves, heads f/1 and n/N", n=3, leaves=1, heads=[0, 2], cfg=ALL, nvalues=0,
      expect=("value:forward:same", "value:recursive:same"))
for cfg in CFGS:
    C.add(fold, f"2 compound nodes, 2 leaves, rule set {cfg}", n=2, leaves=2, heads=[1, 4], cfg=cfg, nvalues=0,
          expect=("value:forward:same", "error:recursive") if cfg[:2] != (True, True) else ("value:forward:same",))
C.add(fold, "2 compound nodes, 2 leaves, supplied values of every kind", n=2, leaves=2, heads=[1], cfg=CFGS[0],
      nvalues=2, expect=("value:forward:same",))
C.add(fold, "1 compound node, 3 leaves, supplied value, None-valued rules", n=1, leaves=3, heads=[0, 1, 2, 3, 4],
      cfg=CFGS[3], nvalues=1, expect=("value:forward:same",))
for cfg in CFGS:
    C.add(atoms, f"one atom, rule set {cfg}", cfg=cfg, expect=("value:forward:same",))
C.add(wide, "14 arguments", n=12, cfg=ALL, expect=("value:forward:same",))
for n in (10, 18, 35, 70):
    C.add(many, f"{n} arguments, supplied values for all but one", n=n, cfg=ALL, expect=("value:forward:same",))
C.add(chains, "chains of depth 40", n=40, cfg=ALL, expect=("value:recursive:same",))
C.add(comphead, "compound heads", cfg=ALL, expect=("value:forward:same",))
C.add(comphead, "compound heads without generic rule", cfg=CFGS[0], expect=("error:forward",))
C.add(namesakes, "two kinds, of the same name or not, each with or without a rule", expect=("namesake",))
C.add(replaced, "replaced rules, two evaluators", expect=("replace:one", "replace:two"))
C.add(symlevel, "Expr evaluators, 2 compound nodes", n=2, expect=("sym",))
C.deep(fold, "3 compound nodes, 2 leaves, 3 heads", n=3, leaves=2, heads=[0, 1, 4], cfg=CFGS[0], nvalues=0)
C.deep(fold, "3 compound nodes, 1 leaf, 4 heads, supplied value", n=3, leaves=1, heads=[0, 1, 2, 4], cfg=ALL, nvalues=1)
C.deep(symlevel, "Expr evaluators, 3 compound nodes", n=3)
C.deep(wide, "60 arguments", n=60, cfg=ALL)
C.deep(chains, "chains of depth 150", n=150, cfg=ALL)
C.outside = ["rules with side effects or that raise", "values supplied for compound expressions",
             "more distinct compound nodes than stated"]
C.assumptions = ["rules are deterministic functions (uninterpreted)"]
