"""C29: results do not depend on hash or set iteration order."""

import gc
import os
import random
import subprocess
import sys

from harness.c28 import FLOATS, NAMES, pool
from harness.calc import *  # noqa: F403
from harness.ops import *  # noqa: F403
from px.registry import Check

CHECK = Check("C29", __name__)
C = CHECK

ADD, MUL = F("Add"), F("Mul")


def many(name, number):
    """Expressions with several atoms, heads and compound parts."""
    x, s, i, y = S("x"), S(name), I(number), S("y")
    fx, gs = App(F("f"), x, s), App(F("g"), s)
    return pool(name, number) + [
        App(F("h"), fx, gs, App(F("k"), y, i), App(gs, fx), I(7)),
        App(ADD, App(MUL, x, y, s), App(F("pow"), App(ADD, y, x), I(2)), App(F("sin"), App(MUL, s, y)), App(F("cos"), App(ADD, s, x, y))),
    ]


def results(E, op, k, name, number, values):
    """The result of an operation in a fresh instance of the package."""
    E.renew()
    W = Cas(E)
    b = Bench(E, W, made(name, number, k), name, number, values)
    return describe(b, run(b, op))


def made(name, number, k):
    """Expression k of the list, or the one with these parts."""
    if isinstance(k, int):
        return many(name, number)[k]
    nodes = [S("x"), S(name), I(number)]
    for h, *args in k:
        nodes.append(App(F(h), *[nodes[a] for a in args]))
    return nodes[-1]


def flat(d):
    """A description as text, sets sorted."""
    k, v = d
    if k in ("list", "dict"):
        return f"{k}[{','.join([flat(x) for x in v])}]"
    if k == "set":
        return f"set[{','.join(sorted([flat(x) for x in v]))}]"
    if k == "float":
        return "nan" if v != v else v.hex()
    if k == "spec":
        return sharing(v)
    return f"{k}:{v!r}"


def sharing(s):
    """The spec as a list of its distinct parts."""
    index, out = {}, []

    def put(t):
        key = ("L", t.kind, t.value) if type(t) is Leaf else ("A", *[put(p) for p in t.parts])
        if key not in index:
            index[key] = len(out)
            out.append(key)
        return index[key]

    put(s)
    return repr(out)


def child(*args):
    """Prints what runs in this process give, objects lying elsewhere each time."""
    sys.path.insert(0, os.path.join(os.environ.get("PX_REPO", "/repo"), "src"))
    from px.concrete import ConcreteEngine

    print("\n".join(sorted({flat(d) for d in repeat(ConcreteEngine({}), args, 12)})))


def repeat(E, args, n):
    rnd = random.Random(os.environ.get("PYTHONHASHSEED"))
    junk, out = [], []
    for _ in range(n):
        junk.append([object() for _ in range(rnd.randrange(400))])
        junk.append([(0, [k]) for k in range(rnd.randrange(100))])
        for part in junk[rnd.randrange(len(junk)) :]:
            del part[:: 1 + rnd.randrange(4)]
        gc.collect()
        out.append(results(E, *args))
    return out


CHILD = "import sys, json; sys.path.insert(0, sys.argv[1]); import harness.c29 as h; h.child(*json.loads(sys.argv[2]))"


@C.harness
def orders(E, ops, which):
    """Every set iteration order gives the result of the default one."""
    judge(E, ops, which[E.choose("of", len(which))])


@C.harness
def dags(E, ops, heads, n, leaves=3):
    """The same for every expression of n compound nodes of two arguments."""
    k = []
    for j in range(n):
        h = heads[E.choose(f"h{j}", len(heads))]
        a, b = E.choose(f"l{j}", leaves + j), E.choose(f"r{j}", leaves + j)
        E.assume(j == 0 or leaves + j - 1 in (a, b))
        k.append([h, *[c if c < leaves else c + 3 - leaves for c in (a, b)]])
    judge(E, ops, k)


def judge(E, ops, k):
    op = NAMES[ops[E.choose("op", len(ops))]]
    name = E.str("name", "ident", avoid=("x", "y", "f", "g", "h", "k", "a", "b"))
    number = 5 if op in FLOATS else E.int("number", 30)
    args = (op, k, name, number, (0.75, 2.5))
    if E.symbolic:
        first = results(E, *args)
        E.set_order_symbolic = True
        try:
            other = results(E, *args)
        finally:
            E.set_order_symbolic = False
        E.check("order", equal(E, first, other), lambda: f"{op} of {show(made(name, number, k))} gives {first} or {other}")
        return
    # in a replay: runs with objects at different addresses, and other hash seeds
    runs = repeat(E, args, 80)
    seen = {flat(d): d for d in runs}
    if len(seen) == 1:
        import json

        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        ps = [subprocess.Popen([sys.executable, "-B", "-c", CHILD, here, json.dumps(args)], env={**os.environ, "PYTHONHASHSEED": str(s)}, stdout=subprocess.PIPE, text=True) for s in range(6)]
        for p in ps:
            out = p.communicate()[0].splitlines()
            if p.returncode == 0:
                seen.update({t: t for t in out})
    E.check("order", len(seen) == 1, lambda: f"{op} of {show(made(name, number, k))} gives different results: {list(seen.values())[:2]}")


def mistakes(b, W, name):
    """Calls that are refused, each for two reasons or more."""
    sc, tree = W.sc, W.tree
    E = b.E
    x, y, s = sc.Symbol("x"), sc.Symbol("y"), sc.Symbol(name)
    p, q, r = (sc.Function(n) for n in "pqr")
    evs = E.mod("protosym.core.evaluate").Evaluator
    ev = evs()
    ev.add_opn(p.rep, lambda xs: 0)
    es = [p(q(x), r(s)), q(r(p(x)), s), r(x) + q(s) * p(1), sc.List(p(x), q(r(s))), p(x)(q(s)) + r(1), s + y * x]
    calls = [
        lambda e: sc.lambdify([], e), lambda e: e.to_llvm_ir([]), lambda e: e.to_llvm_ir([x, y]), lambda e: e.eval_f64(), lambda e: e.eval_f64({x: 1.0}),
        lambda e: e.diff(x), lambda e: ev(e.rep), lambda e: sc.Matrix([[e, x], [y, e]]).to_llvm_ir([]), lambda e: sc.lambdify([y], sc.Matrix([[e, q(e)]])),
        lambda e: e.diff(x, 2), lambda e: e.as_function(x, y)(1), lambda e: e.eval_f64({s: 1.0}),
    ]
    return es, calls


def refusal(E, k, j, name):
    E.renew()
    W = Cas(E)
    b = Bench(E, W, S("x"), name, 1, (0.5, 2.0))
    es, calls = mistakes(b, W, name)
    e = es[k]
    st, v = E.call(lambda: calls[j](e))
    return (st, type(v).__name__ + ": " + str(v)) if st == "exc" else (st, "")


@C.harness
def errors(E):
    """The error of a call that is wrong in several ways is always the same."""
    k, j = E.choose("expression", 6), E.choose("call", 12)
    name = E.str("name", "ident", avoid=("x", "y", "p", "q", "r"))
    first = refusal(E, k, j, name)
    if E.symbolic:
        E.set_order_symbolic = True
        try:
            other = refusal(E, k, j, name)
        finally:
            E.set_order_symbolic = False
        others = [other]
    else:
        rnd = random.Random(1)
        junk, others = [], []
        for _ in range(150):
            junk.append([object() for _ in range(rnd.randrange(400))])
            del junk[rnd.randrange(len(junk))][:: 1 + rnd.randrange(4)]
            others.append(refusal(E, k, j, name))
    for other in others:
        E.check("error", first[0] == other[0] and E.all([first[1] == other[1]]), lambda: f"{first} or {other}")


ALL = list(range(len(NAMES)))
C.add(orders, "every operation on 6 expressions", ops=ALL, which=[0, 1, 2, 3, 4, 5], expect=("order",))
C.add(errors, "12 calls on 6 expressions, wrong in several ways", expect=("error",))
STEPS = [n for n in ("diff", "diff s", "xreplace", "subs", "text", "latex", "bin_expand", "lambdify", "llvm", "sort", "sort heads", "sort exclude", "split", "graph", "evaluator", "core", "transformer", "to_sympy", "from_sympy", "matrix llvm")]
C.add(dags, "20 operations on every expression of 2 compound nodes", ops=[NAMES.index(n) for n in STEPS], heads=["f", "Mul"], n=2, leaves=2, expect=("order",))
C.deep(dags, "20 operations on every expression of 2 compound nodes, 3 leaves", ops=[NAMES.index(n) for n in STEPS], heads=["f", "Add", "Mul"], n=2)
C.deep(dags, "20 operations on every expression of 3 compound nodes", ops=[NAMES.index(n) for n in STEPS], heads=["f", "Mul"], n=3)
C.outside = ["sets handed to the user (the heads of a graph): compared as sets",
             "from the third set iterated in one operation on, only the two orders as listed and reversed; of a set of more than three, each element first or all reversed"]
C.assumptions = ["the order of id() and hash() values of objects is arbitrary"]
