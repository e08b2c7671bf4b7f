"""C07: work is bounded per distinct subexpression."""

from harness.lib import *  # noqa: F403
from px.registry import Check

CHECK = Check("C07", __name__)
C = CHECK

# package calls (Python-level) allowed per distinct subexpression and argument
PER_NODE = 120


def _distinct(root, heads=True):
    """Distinct Trees below root (by identity) and their number of arguments."""
    seen, stack, args = set(), [root], 0
    comp = 0
    while stack:
        t = stack.pop()
        if id(t) in seen:
            continue
        seen.add(id(t))
        if t.children:
            comp += 1
            args += len(t.children)
            stack.extend(t.children if heads else t.children[1:])
    return len(seen), comp, args


def instructions(E, ir):
    return [q for q in E.text(ir).splitlines() if q.strip().startswith("%") and " = " in q]


@C.harness
def rules(E, n, leaves, ar, kind):
    """Every expression of n compound nodes: one rule call per distinct node."""
    ls = [I(E.int(f"l{i}")) for i in range(leaves)]
    hs = [(F("f"), ar), (F("g"), ar)]
    s = gen_dag(E, "p", ls, hs, n, interchangeable=False)[-1]
    W = Core(E)
    ev_mod = E.mod("protosym.core.evaluate")
    t = W.build(s)
    calls = {"atom": 0, "op": 0}
    seen_ops = []

    def op(name):
        def rule(xs):
            calls["op"] += 1
            return E.uf(name + str(len(xs)), *xs)
        return rule

    def atom(v):
        calls["atom"] += 1
        return E.uf("atom", E.real_of_int(v))

    def top(name):
        def rule(xs):
            calls["op"] += 1
            return W.build(F("new" + name))(*xs)
        return rule
    if kind == "evaluator":
        ev = ev_mod.Evaluator()
        ev.add_atom(W.kinds["Integer"], atom)
        ev.add_opn(W.build(F("f")), op("f"))
        if E.boolean("generic"):
            ev.add_op_generic(lambda h, xs: op("g")(xs))
        else:
            ev.add_opn(W.build(F("g")), op("g"))
    else:
        ev = ev_mod.Transformer()
        ev.add_opn(W.build(F("f")), top("f"))
        ev.add_opn(W.build(F("g")), top("g"))
    total, comp, _ = _distinct(t, heads=False)
    values = [{}, {W.build(S("elsewhere")): 1}, {W.build(App(F("elsewhere"), ls[0])): 1}][E.choose("values", 3)]
    for name, way in (("call", lambda: ev(t, values)), ("forward", lambda: ev.eval_forward(t, values)),
                      ("evaluate", lambda: ev.evaluate(t, values))):
        calls["atom"] = calls["op"] = 0
        way()
        E.check(f"{kind}:{name}", calls["op"] <= comp,
                lambda: f"{calls['op']} rule calls for {comp} distinct compound subexpressions")
        E.check(f"{kind}:{name}:atoms", calls["atom"] <= total - comp,
                lambda: f"{calls['atom']} rule calls for {total - comp} distinct atoms")
        E.observe(name, [calls["op"], calls["atom"]])


SHAPES = ["f(e,e)", "e**2+e", "f(e,g(e))", "f(e,e,e,e)", "fib", "e*e", "sin/cos", "e(e)", "List", "wide"]


def _grow(shape, n, a, b):
    """Expression with about n distinct nodes and a huge tree form."""
    Add, Mul, Pow, sin, cos = F("Add"), F("Mul"), F("pow"), F("sin"), F("cos")
    f, g = F("f"), F("g")
    e, p = a, b
    for i in range(n):
        if shape == 0:
            e = App(f, e, e)
        elif shape == 1:
            e = App(Add, App(Pow, e, I(2)), e)
        elif shape == 2:
            e = App(f, e, App(g, e))
        elif shape == 3:
            e = App(f, e, e, e, e)
        elif shape == 4:
            e, p = App(Add, e, p, e), e
        elif shape == 5:
            e = App(Mul, e, e)
        elif shape == 6:
            e = App(Add, App(sin, e), App(cos, e))
        elif shape == 7:
            e = App(App(f, e), e)
        elif shape == 8:
            e = App(F("List"), e, b, e)
        else:
            e = App(Add, *[e] * 5, App(Mul, *[e] * 5))
    return e


def _ops(E, W, e, x, kind):
    sc, tree = W.sc, W.tree
    evm = E.mod("protosym.core.evaluate")
    if kind == "sort":
        return lambda: tree.topological_sort(e.rep, heads=True)
    if kind == "split":
        return lambda: tree.topological_split(e.rep)
    if kind == "exclude":
        return lambda: tree.topological_sort(e.rep, exclude={x.rep})
    if kind == "graph":
        return lambda: tree.forward_graph(e.rep)
    if kind == "eval":
        ev = evm.Evaluator()
        ev.add_atom_generic(lambda t: 1)
        ev.add_op_generic(lambda h, xs: 1)
        return lambda: ev(e.rep)
    if kind == "eval values":
        ev = evm.Evaluator()
        ev.add_atom_generic(lambda t: 1)
        ev.add_op_generic(lambda h, xs: 1)
        return lambda: ev(e.rep, {x.rep: 2, (x + 77).rep: 3})
    if kind == "transform":
        tr = evm.Transformer()
        tr.add_opn(sc.f.rep, lambda xs: sc.g.rep(*xs))
        return lambda: tr(e.rep)
    if kind == "identity":
        tr = evm.Transformer()
        return lambda: tr(e.rep)
    if kind == "subs":
        return lambda: e.xreplace({x: sc.y + 1})
    if kind == "subsfunc":
        fn = e.as_function(x, sc.y)
        return lambda: fn(sc.y, x)
    if kind == "subscompound":
        sub = e.rep.children[1]
        fn = tree.SubsFunc(e.rep, [sub])
        return lambda: fn(x.rep)
    if kind == "diff":
        return lambda: e.diff(x)
    if kind == "counts":
        return lambda: (e.count_ops_tree(), e.count_ops_graph())
    if kind == "bin":
        return lambda: e.bin_expand()
    if kind == "f64":
        return lambda: e.eval_f64({x: 0.5, sc.y: 0.25})
    if kind == "ir":
        return lambda: e.to_llvm_ir([x, sc.y])
    if kind == "matrix ir":
        M = sc.Matrix([[e, e], [x, e + 1]])
        return lambda: M.to_llvm_ir([x, sc.y])
    if kind == "matrix diff":
        M = sc.Matrix([[e, e], [x, e + 1]])
        return lambda: M.diff(x)
    if kind == "to_sympy":
        return lambda: e.to_sympy()
    if kind == "build":
        return None
    raise AssertionError(kind)


# shape -> kinds that are defined on it (heads with rules only)
GENERAL = ["sort", "split", "exclude", "graph", "eval", "eval values", "transform", "identity", "subs", "subsfunc",
           "subscompound", "counts", "bin"]
ARITH = ["diff", "f64", "ir", "matrix ir", "matrix diff", "to_sympy"]
NUMERIC = (1, 4, 5, 6, 9)


@C.harness
def growth(E, shape, n, kinds):
    """Huge trees with few distinct nodes: calls bounded by distinct nodes."""
    kind = kinds[E.choose("operation", len(kinds))]
    W = Cas(E)
    x = S("x")
    m = I(E.int("m", -5, 5))
    leaf = x if E.boolean("leaf is x") else App(F("Mul"), m, x)
    if kind == "to_sympy" and not E.symbolic:
        n = min(n, 8)  # the real SymPy rewrites what it is given
    s = _grow(shape, n, leaf, App(F("Add"), x, m))
    e, cost_b, _ = measure(lambda: W.build(s))
    d, comp, args = _distinct(e.rep)
    if kind == "f64":
        # overflow of the value is not the subject here
        fn = _ops(E, W, e, W.sc.x, kind)

        def guarded():
            try:
                fn()
            except OverflowError:
                pass
        op = guarded
    else:
        op = _ops(E, W, e, W.sc.x, kind)
    limit = PER_NODE * (d + args) + 4000
    try:
        r, calls, _ = measure(op, limit)
    except Budget as b:
        E.fail(f"growth:{kind}", f"more than {limit} calls for {d} distinct subexpressions")
        return
    E.check(f"growth:{kind}", calls <= limit)
    E.check("growth", True)
    if "ir" in kind:
        be = W.sc.bin_expand(e.rep)
        _, comp2, _ = _distinct(be, heads=False)
        lines = instructions(E, r)
        extra = 1 + 4 + 4 if kind == "matrix ir" else 0
        E.check(f"instructions:{kind}", len(lines) <= comp2 + extra,
                lambda: f"{len(lines)} instructions for {comp2} distinct operations")
        E.observe("lines", len(lines))
    if kind in ("diff", "matrix diff"):
        rep = r.rep if kind == "diff" else r.elements_graph.rep
        d2, _, args2 = _distinct(rep)
        E.check("diff:size", d2 <= 8 * (d + args) + 60,
                lambda: f"derivative has {d2} distinct subexpressions, the expression {d}")
        E.observe("size", d2)
    if kind in ("subs", "subsfunc", "transform", "bin"):
        rep = r.rep if hasattr(r, "rep") else r
        d2, _, _ = _distinct(rep)
        E.check("result:size", d2 <= 3 * (d + args) + 20)
        E.observe("size", d2)


@C.harness
def linear(E, shape, n, kinds):
    """Four times as many distinct nodes: at most about four times the calls."""
    kind = kinds[E.choose("operation", len(kinds))]
    W = Cas(E)
    x = S("x")
    m = I(E.int("m", -5, 5))
    b = App(F("Add"), x, m)

    def cost(k):
        e = W.build(_grow(shape, k, x, b))
        op = _ops(E, W, e, W.sc.x, kind)

        def guarded():
            try:
                op()
            except OverflowError:
                pass
        return measure(guarded)[1]
    cost(2)  # imports
    if kind == "to_sympy" and not E.symbolic:
        n = min(n, 3)  # the real SymPy rewrites what it is given
    small, big = cost(n), cost(4 * n)
    E.check(f"linear:{kind}", big <= 6 * small + 400,
            lambda: f"{small} calls for {n} levels, {big} for {4 * n}")
    E.check("linear", True)
    E.observe("calls", [small > 0, big > 0])


@C.harness
def irdags(E, n, leaves):
    """Every expression of n compound nodes: one instruction per distinct operation."""
    ls = [S("x"), I(E.int("m", -9, 9))][:leaves]
    hs = [(F("Add"), (2, 3)), (F("sin"), (1,)), (F("Mul"), (2,))]
    s = gen_dag(E, "p", ls, hs, n, interchangeable=False)[-1]
    W = Cas(E)
    e = W.build(s)
    r = e.to_llvm_ir([W.sc.x])
    be = W.sc.bin_expand(e.rep)
    _, comp2, _ = _distinct(be, heads=False)
    lines = instructions(E, r)
    E.check("ir", len(lines) <= comp2, lambda: f"{len(lines)} instructions for {comp2} operations:\n{r}")
    M = W.sc.Matrix([[e, 0], [e, W.sc.x]])
    r = M.to_llvm_ir([W.sc.x])
    lines = instructions(E, r)
    E.check("ir:matrix", len(lines) <= comp2 + 3, lambda: f"{len(lines)} instructions for {comp2} operations")
    E.observe("lines", len(lines))


for kind in ("evaluator", "transformer"):
    C.add(rules, f"{kind}: 3 compound nodes, 2 heads, 1 leaf", n=3, leaves=1, ar=(1, 2), kind=kind,
          expect=(f"{kind}:call",))
    C.add(rules, f"{kind}: 2 compound nodes, 2 leaves, arity <= 3", n=2, leaves=2, ar=(1, 3), kind=kind,
          expect=(f"{kind}:call",))
for i, sh in enumerate(SHAPES):
    C.add(growth, f"shape {sh}, 30 levels, structural operations", shape=i, n=30, kinds=GENERAL,
          expect=("growth",))
    if i in NUMERIC:
        C.add(growth, f"shape {sh}, 30 levels, arithmetic operations", shape=i, n=30, kinds=ARITH,
              expect=("growth",))
for i, sh in enumerate(SHAPES):
    C.add(linear, f"shape {sh}, 15 against 60 levels", shape=i, n=15,
          kinds=GENERAL + ARITH if i in NUMERIC else GENERAL, expect=("linear",))
C.add(irdags, "2 compound nodes over x and an int", n=2, leaves=2, expect=("ir", "ir:matrix"))
C.deep(irdags, "3 compound nodes over x", n=3, leaves=1)
C.deep(rules, "evaluator: 3 compound nodes, 2 leaves", n=3, leaves=2, ar=(1, 2), kind="evaluator")
for i, sh in enumerate(SHAPES):
    C.deep(growth, f"shape {sh}, 120 levels, structural operations", shape=i, n=120, kinds=GENERAL)
    if i in NUMERIC:
        C.deep(growth, f"shape {sh}, 120 levels, arithmetic operations", shape=i, n=120, kinds=ARITH)
C.outside = ["work inside CPython's own C code", "printing (its text is as long as the tree)",
             "eval_recursive, which is documented as the plain recursion", "SymPy's and LLVM's own work"]
C.assumptions = [f"bounded means at most {PER_NODE} package calls per distinct subexpression and argument"]
