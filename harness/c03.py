"""C03: lifetime and rebuilding."""

import gc
import weakref

from harness.lib import *  # noqa: F403
from px.registry import Check

CHECK = Check("C03", __name__)
C = CHECK


def _track(t, out):
    """Weak references to a Tree and everything below it."""
    seen = set()
    stack = [t]
    while stack:
        t = stack.pop()
        if id(t) in seen:
            continue
        seen.add(id(t))
        out.append((id(t), weakref.ref(t)))
        if t.children:
            stack.extend(t.children)
        else:
            out.append((id(t.value), weakref.ref(t.value)))


def _make(W, s):
    """Build without leaving references in the memo of the world."""
    try:
        return W.build(s)
    finally:
        W.memo.clear()


def _alive(held):
    """ids of the Trees/Atoms reachable from the held expressions."""
    ids = set()
    stack = list(held)
    while stack:
        t = stack.pop()
        if id(t) in ids:
            continue
        ids.add(id(t))
        if t.children:
            stack.extend(t.children)
        else:
            ids.add(id(t.value))
    return ids


def _released(E, label, refs, held):
    keep = _alive(held)

    def leaked():
        return [r for _, r in refs if r() is not None and id(r()) not in keep]

    bad = leaked()
    if bad:
        bad = None
        gc.collect()
        bad = leaked()
    n = len(bad)
    what = [repr(r())[:60] for r in bad[:4]]
    bad = None
    E.check(label, n == 0, lambda: f"{n} unused objects still alive: {what}")


class _Frozen:
    """Keep garbage collections cheap: ignore what existed before."""

    def __enter__(self):
        gc.freeze()

    def __exit__(self, *a):
        gc.unfreeze()


@C.harness
def history(E, steps, slots, kinds):
    """Any history of building, dropping and rebuilding (core level)."""
    plan = []
    full = [False] * slots
    for k in range(steps):
        # slots are interchangeable: the first free one stands for all free ones
        acts = []
        for j in range(slots):
            if full[j]:
                acts += [("drop", j, None)] + [("build", j, i) for i in kinds]
        if not all(full):
            acts += [("build", full.index(False), i) for i in kinds]
        plan.append(acts[E.choose(f"op{k}", len(acts))])
        full[plan[-1][1]] = plan[-1][0] == "build"
    W = Core(E)
    m, n = I(E.int("m")), I(E.int("n"))
    f, g = F("f"), F("g")
    fm, gn = App(f, m), App(f, n)
    pool = [m, fm, App(g, fm, gn), App(App(g, n), fm, fm)]
    held = [None] * slots
    refs = []
    with _Frozen():
        for what, j, i in plan:
            held[j] = None
            if what == "build":
                s = pool[i]
                t = _make(W, s)
                held[j] = (t, s)
                _track(t, refs)
                t = None
            _released(E, "released", refs, [h[0] for h in held if h])
            for h in held:
                if h is not None:
                    E.check("intact", matches(E, W, h[0], h[1]))
                    E.check("canonical", _make(W, h[1]) is h[0])
            for p in held:
                for q in held:
                    if p is not None and q is not None and p is not q:
                        E.check("one", E.iff(p[0] is q[0], same_spec(E, p[1], q[1])))
            p = q = h = None
        E.observe("alive", sum(1 for _, r in refs if r() is not None))
        held = t = None
        _released(E, "all released", refs, [])


def _uses(W, E):
    sc = W.sc
    a = sc.Expr.new_wild("a_")
    ev = sc.Expr.new_evaluator("ev", int)
    core = E.mod("protosym.core.sym")
    ev[core.AtomRule[a]] = core.AtomFunc(lambda v: 1)(a)
    ev[core.HeadRule(a, sc.b)] = core.HeadOp(lambda h, xs: 1 + sum(xs))(a, sc.b)
    x = sc.x
    tree = E.mod("protosym.core.tree")
    M = sc.Matrix
    return [
        ("repr", lambda e: repr(e)),
        ("str", lambda e: str(e.rep)),
        ("rawrepr", lambda e: repr(e.rep)),
        ("latex", lambda e: e.eval_latex()),
        ("diff", lambda e: e.diff(x, 2)),
        ("subs", lambda e: e.xreplace({x: sc.y})),
        ("func", lambda e: e.as_function(x)(e + 1)),
        ("counts", lambda e: (e.count_ops_graph(), e.count_ops_tree())),
        ("evaluator", lambda e: ev(e)),
        ("f64", lambda e: e.eval_f64({x: 0.5})),
        ("bin", lambda e: e.bin_expand()),
        ("args", lambda e: (e.args, e.head)),
        ("sort", lambda e: tree.topological_sort(e.rep, heads=True)),
        ("graph", lambda e: tree.forward_graph(e.rep)),
        ("ops", lambda e: (e + 2, 3 * e, -e, e / e, e**2)),
        ("matrix", lambda e: (M([[e, 0], [1, e]]) + M([[x, e], [0, e]])).diff(x).tolist()),
        ("ir", lambda e: e.to_llvm_ir([x])),
        ("lambdify", lambda e: sc.lambdify([x], e)(0.5)),
        ("lambdify matrix", lambda e: sc.lambdify([x], M([[e, 0], [x, e]]))(0.5)),
        ("to_sympy", lambda e: e.to_sympy()),
        ("roundtrip", lambda e: sc.Expr.from_sympy(e.to_sympy())),
        ("error", lambda e: E.call(lambda: sc.expressify("no"))[0]),
        ("no rule", lambda e: E.call(lambda: e.eval_f64())[0]),
        ("bad args", lambda e: E.call(lambda: e.as_function(x)())[0]),
    ]


NUSES = 24


@C.harness
def uses(E, which, twice):
    """No operation keeps an expression (or its results) alive afterwards."""
    W = Cas(E)
    op = _uses(W, E)[which]
    m, n = I(E.int("m", 2, 50)), I(E.int("n", 2, 50))
    X = S("x")
    inner = App(F("Add"), App(F("Mul"), X, m), n)
    s = App(F("pow"), App(F("sin"), inner), n)
    t = App(F("cos"), App(F("Mul"), inner, X))
    refs = []
    base = [W.sc.x, W.sc.y, W.sc.zero, W.sc.one, W.sc.negone]
    base += [getattr(W.sc, k) for k in ("Add", "Mul", "Pow", "sin", "cos", "List")]
    base = [b.rep for b in base]
    with _Frozen():
        e = _make(W, s)
        d = _make(W, t) if twice else None
        _track(e.rep, refs)
        if d is not None:
            _track(d.rep, refs)
        r = op[1](e)
        if d is not None:
            r2 = op[1](d)
            r2 = None
        refs += [(id(e), weakref.ref(e))]
        for q in r if isinstance(r, tuple) else (r,):
            if type(q) is W.sc.Expr:
                _track(q.rep, refs)
        q = r = None
        held = [d.rep] if d is not None else []
        if d is not None:
            E.check("use:kept", matches(E, W, d.rep, t))
        e = None
        _released(E, "use:released", refs, base + held)
        e = _make(W, s)
        E.check("use:rebuilt", matches(E, W, e.rep, s))
        E.check("use:canonical", _make(W, s) is e)
        held = e = d = None
        _released(E, "use:all released", refs, base)
        E.observe("left", sum(1 for _, r in refs if r() is not None) > 0)


@C.harness
def accumulate(E, n):
    """Building and dropping n expressions leaves nothing behind."""
    W = Core(E)
    b = E.int("b", 1000)
    f = F("f")
    with _Frozen():
        refs = []
        keep = _make(W, App(f, I(b)))
        for i in range(n):
            t = _make(W, App(f, I(b + i), App(f, I(b + i), I(b))))
            if i in (0, n // 2, n - 1):
                _track(t, refs)
            t = None
        _released(E, "accumulate", refs, [keep])
        Tree, Atom = W.tree.Tree, W.atom.Atom
        left = [o for o in gc.get_objects() if type(o) is Tree or type(o) is Atom]
        E.check("accumulate:count", len(left) <= 5, lambda: f"{len(left)} objects left")
        left = None
        E.check("accumulate:keep", matches(E, W, keep, App(f, I(b))))


@C.harness
def deep(E, n):
    """A deep chain is released as a whole and rebuilt as a whole."""
    W = Core(E)
    f = F("f")
    m = I(E.int("m"))
    with _Frozen():
        s = m
        mid = None
        for i in range(n):
            s = App(f, s)
            if i == n // 2:
                mid = s
        t = _make(W, s)
        refs = []
        _track(t, refs)
        u = _make(W, mid)
        t = None
        _released(E, "deep:top", refs, [u])
        E.check("deep:mid", matches(E, W, u, mid))
        t = _make(W, s)
        E.check("deep:again", matches(E, W, t, s))
        t = u = None
        _released(E, "deep:all", refs, [])


C.add(history, "5 steps, 2 slots, 3 expressions", steps=5, slots=2, kinds=[0, 1, 2],
      expect=("released", "intact", "canonical", "all released"))
C.add(history, "5 steps, 2 slots, 2 expressions (one with a compound head)", steps=5, slots=2, kinds=[2, 3],
      expect=("released", "one"))
for i in range(NUSES):
    C.add(uses, f"operation {i} on one expression", which=i, twice=False,
          expect=("use:released", "use:canonical"))
C.add(uses, "differentiation of two expressions sharing parts", which=4, twice=True, expect=("use:kept",))
C.add(uses, "substitution in two expressions sharing parts", which=5, twice=True, expect=("use:kept",))
C.add(accumulate, "40 expressions built and dropped", n=40, expect=("accumulate",))
C.add(deep, "chain of depth 60", n=60, expect=("deep:all",))
C.deep(history, "6 steps, 3 slots, 3 expressions", steps=6, slots=3, kinds=[1, 2, 3])
C.deep(history, "7 steps, 2 slots, 3 expressions", steps=7, slots=2, kinds=[0, 1, 2])
C.deep(accumulate, "200 expressions", n=200)
C.deep(deep, "chain of depth 150", n=150)
C.outside = ["longer histories", "release under concurrent garbage collection", "chains beyond the interpreter's own deallocation limits"]
C.assumptions = ["reference counting and the cyclic collector of CPython; weak dictionaries as documented"]
