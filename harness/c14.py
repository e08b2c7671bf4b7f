"""C14: operators build exactly the expression written, without rewriting it."""

import operator

from harness.lib import *  # noqa: F403
from px.registry import Check

CHECK = Check("C14", __name__)
C = CHECK

ADD, MUL, POW, NEG1 = F("Add"), F("Mul"), F("pow"), I(-1)

DEFS = {
    "pos": (operator.pos, 1, lambda a: a),
    "neg": (operator.neg, 1, lambda a: App(MUL, NEG1, a)),
    "add": (operator.add, 2, lambda a, b: App(ADD, a, b)),
    "sub": (operator.sub, 2, lambda a, b: App(ADD, a, App(MUL, NEG1, b))),
    "mul": (operator.mul, 2, lambda a, b: App(MUL, a, b)),
    "truediv": (operator.truediv, 2, lambda a, b: App(MUL, a, App(POW, b, NEG1))),
    "pow": (operator.pow, 2, lambda a, b: App(POW, a, b)),
}
OPS = list(DEFS)
BINARY = [k for k in OPS if DEFS[k][1] == 2]
INPLACE = {"add": operator.iadd, "sub": operator.isub, "mul": operator.imul, "truediv": operator.itruediv, "pow": operator.ipow}


class Native:
    """A python int used as an operand (spec: the Integer atom)."""

    def __init__(self, n):
        self.n = n


def operand(W, v):
    return v.n if type(v) is Native else W.build(v)


def spec_of(v):
    return I(v.n) if type(v) is Native else v


def judge(E, W, label, fn, want):
    r = E.call(fn)
    E.check(label + ":ok", r[0] == "ok", lambda: f"{show(want)}: {r[1]!r}")
    e = r[1]
    E.check(label + ":type", type(e) is W.sc.Expr)
    E.check(label, matches(E, W, e.rep, want), lambda: f"wanted {show(want)}, got {e!r}")
    E.check(label + ":object", e is W.build(want))
    return e


def operands(E, ints):
    """Expressions of every sort, and python ints."""
    es = [S(E.str("s", "any")), I(E.int("i")), App(POW, S("y"), I(E.int("j"))), App(ADD, S("y"), I(2)),
          App(MUL, NEG1, S("y")), App(F("f"), S("y"))]
    return es, [Native(E.int("n")), Native(E.int("m"))][:ints]


@C.harness
def one(E, form):
    """One operator, every sort of operand on either side."""
    W = Cas(E)
    es, ns = operands(E, 1)
    k = OPS[E.choose("op", len(OPS))]
    fn, ar, spec = DEFS[k]
    pool = es + ns
    a = pool[E.choose("left", len(pool))]
    if ar == 1:
        if type(a) is Native or form != "op":
            E.assume(False)
        judge(E, W, "unary", lambda: fn(W.build(a)), spec(a))
        return
    b = pool[E.choose("right", len(pool))]
    if type(a) is Native and type(b) is Native:
        E.assume(False)
    want = spec(spec_of(a), spec_of(b))
    oa, ob = operand(W, a), operand(W, b)
    if form == "op":
        judge(E, W, "binary", lambda: fn(oa, ob), want)
    elif form == "inplace":
        judge(E, W, "inplace", lambda: INPLACE[k](oa, ob), want)
    elif form == "method":
        if type(a) is Native:
            E.assume(False)
        judge(E, W, "method", lambda: getattr(oa, f"__{k}__")(ob), want)
    else:
        if type(b) is Native:
            E.assume(False)
        judge(E, W, "reflected", lambda: getattr(ob, f"__r{k}__")(oa), want)


@C.harness
def program(E, n, leaves, ints, ops=OPS):
    """Formulas of n operators over the operands and each other's results."""
    W = Cas(E)
    pool = [S(E.str("s", "ident")), I(E.int("i"))][:leaves] + [Native(E.int("n")), Native(E.int("m"))][:ints]
    vals = [operand(W, v) for v in pool]
    specs = [spec_of(v) for v in pool]
    native = [type(v) is Native for v in pool]
    for k in range(n):
        fn, ar, spec = DEFS[ops[E.choose(f"op{k}", len(ops))]]
        idx = [E.choose(f"a{k}.{j}", len(pool)) for j in range(ar)]
        if all(native[i] for i in idx):
            E.assume(False)
        if k and len(vals) - 1 not in idx:
            E.assume(False)  # every step uses the one before
        want = spec(*[specs[i] for i in idx])
        vals.append(judge(E, W, "program", lambda: fn(*[vals[i] for i in idx]), want))
        specs.append(want)
        native.append(False)
        pool.append(want)


@C.harness
def again(E):
    """Operands are not changed; the same formula is the same expression."""
    W = Cas(E)
    es, ns = operands(E, 1)
    a, b = es[E.choose("left", len(es))], (es + ns)[E.choose("right", len(es) + 1)]
    oa, ob = operand(W, a), operand(W, b)
    got = [fn(*([oa, ob][:ar])) for fn, ar, _ in DEFS.values()]
    for e, (fn, ar, spec) in zip(got, DEFS.values()):
        want = spec(*([a, spec_of(b)][:ar]))
        E.check("again", matches(E, W, e.rep, want))
        E.check("again:object", fn(*([oa, ob][:ar])) is e)
    E.check("operand", matches(E, W, oa.rep, a))
    if type(b) is not Native:
        E.check("operand:right", matches(E, W, ob.rep, b))


@C.harness
def calls(E, n):
    """Calling an expression, with ints among the arguments."""
    W = Cas(E)
    es, ns = operands(E, 2)
    pool = es[:3] + ns
    h = [F("f"), S("y"), App(F("f"), I(E.int("k"))), ADD, MUL, F("List")][E.choose("head", 6)]
    args = [pool[E.choose(f"arg{k}", len(pool))] for k in range(n)]
    judge(E, W, "call", lambda: W.build(h)(*[operand(W, a) for a in args]), App(h, *[spec_of(a) for a in args]))


@C.harness
def total(E, n):
    """sum() and long formulas keep written order and grouping."""
    W = Cas(E)
    es, ns = operands(E, 2)
    pool = es[:2] + ns
    args = [pool[E.choose(f"term{k}", len(pool))] for k in range(n)]
    start = es[5]
    specs = [spec_of(a) for a in args]
    want = start
    for s in specs:
        want = App(ADD, want, s)
    judge(E, W, "sum", lambda: sum([operand(W, a) for a in args], W.build(start)), want)
    want = start
    for k, s in enumerate(specs):
        want = DEFS[BINARY[k % 5]][2](s, want) if k % 2 else DEFS[BINARY[k % 5]][2](want, s)

    def run():
        e = W.build(start)
        for k, a in enumerate(args):
            o = operand(W, a)
            fn = DEFS[BINARY[k % 5]][0]
            e = fn(o, e) if k % 2 else fn(e, o)
        return e

    judge(E, W, "mixed", run, want)


@C.harness
def wide(E, n):
    """Calls with many arguments and long formulas, ints among them."""
    W = Cas(E)
    start = App(F("f"), S("y"))
    pool = [S("x"), Native(E.int("n")), I(3), start, Native(-1)]
    few = [0, n // 2, n - 1]
    k, m = E.choose("from", len(pool)), few[E.choose("swap", len(few))]
    args = [pool[(k + j * (1 + m % 3)) % len(pool)] for j in range(n)]
    args[m], args[0] = args[0], args[m]
    which = E.choose("which", 9)
    specs = [spec_of(a) for a in args]
    if which < 4:
        h = [F("f"), ADD, MUL, F("List")][which]
        judge(E, W, "wide:call", lambda: W.build(h)(*[operand(W, a) for a in args]), App(h, *specs))
        return
    op = BINARY[which - 4]
    want = start
    for s in specs:
        want = DEFS[op][2](want, s)

    def run():
        e = W.build(start)
        for a in args:
            e = DEFS[op][0](e, operand(W, a))
        return e

    judge(E, W, "wide:formula", run, want)


class Other:
    pass


@C.harness
def refused(E):
    """Operands that are not expressions or ints."""
    W = Cas(E)
    sc = W.sc
    es, _ = operands(E, 0)
    e = W.build(es[(1, 0, 5)[E.choose("expr", 3)]])
    bad = [1.5, None, "x", "", b"x", [], [1], (), {}, {1}, Other(), 1j, e.rep, int, sc.Matrix([[e, 1]]), E.flt("d"), E.str("t", "any"),
           sc.Expr, sc.Integer, lambda: e, Ellipsis, float("nan")]
    o = bad[E.choose("bad", len(bad))]
    k = BINARY[E.choose("op", 5)]
    fn = DEFS[k][0]
    for label, run in (("right", lambda: fn(e, o)), ("left", lambda: fn(o, e))):
        r = E.call(run)
        E.check(label, r[0] == "exc" and isinstance(r[1], TypeError), lambda: f"{k} {o!r} {label}: {r}")
    r = E.call(lambda: sc.expressify(o))
    E.check("expressify", r[0] == "exc" and isinstance(r[1], E.mod("protosym.simplecas.exceptions").ExpressifyError))
    r = E.call(lambda: e(1, o))
    E.check("argument", r[0] == "exc", lambda: f"{r}")
    # and nothing was left behind
    want = DEFS[k][2](es[0], I(2))
    judge(E, W, "after", lambda: fn(W.build(es[0]), 2), want)


class Foreign:
    """A type of its own that knows how to combine with anything."""

    def __init__(self, tag):
        self.tag = tag


for _name in ("add", "sub", "mul", "truediv", "pow"):
    for _pre in ("__", "__r"):
        setattr(Foreign, f"{_pre}{_name}__", lambda self, other, n=_pre + _name: (n, self.tag, other))


@C.harness
def foreign(E):
    """Operands of other types that define the operation themselves."""
    W = Cas(E)
    es, _ = operands(E, 0)
    e = W.build(es[E.choose("expr", len(es))])
    i = E.choose("op", 5)
    name = ("add", "sub", "mul", "truediv", "pow")[i]
    fn = (lambda a, b: a + b, lambda a, b: a - b, lambda a, b: a * b, lambda a, b: a / b, lambda a, b: a**b)[i]
    o = Foreign("tag")
    for label, run, pre in (("foreign:right", lambda: fn(e, o), "__r"), ("foreign:left", lambda: fn(o, e), "__")):
        r = E.call(run)
        E.check(label, r[0] == "ok" and type(r[1]) is tuple and r[1][:2] == (pre + name, "tag") and r[1][2] is e,
                lambda: f"{name} {label}: {r}")


@C.harness
def conversion(E):
    W = Cas(E)
    n = E.int("native")
    e = W.sc.expressify(n)
    E.check("int", type(e) is W.sc.Expr)
    E.check("int:value", matches(E, W, e.rep, I(n)))
    E.check("int:object", e is W.sc.Integer(n))
    es, _ = operands(E, 0)
    for s in es:
        o = W.build(s)
        E.check("same", W.sc.expressify(o) is o)
    d = [("zero", 0), ("one", 1), ("negone", -1)]
    for name, v in d:
        E.check("constant", matches(E, W, getattr(W.sc, name).rep, I(v)))
    for name, s in [("x", S("x")), ("y", S("y")), ("f", F("f")), ("g", F("g")), ("sin", F("sin")), ("cos", F("cos")),
                    ("Add", ADD), ("Mul", MUL), ("Pow", POW), ("List", F("List"))]:
        E.check("name", matches(E, W, getattr(W.sc, name).rep, s))


for form in ("op", "inplace", "method", "reflected"):
    C.add(one, f"one operator ({form}), 7 operands on either side", form=form)
C.add(program, "formulas of 2 operators (neg, add, sub, /) over 1 expression and 1 int", n=2, leaves=1, ints=1,
      ops=["neg", "add", "sub", "truediv"], expect=("program",))
C.add(program, "formulas of 2 operators (-, *, **) over 2 expressions", n=2, leaves=2, ints=0, ops=["sub", "mul", "pow"],
      expect=("program",))
C.add(program, "formulas of 3 operators (neg, sub, pow) over 1 expression", n=3, leaves=1, ints=0, ops=["neg", "sub", "pow"],
      expect=("program",))
C.add(again, "every operator on 6 x 7 operands, twice", expect=("again", "operand"))
C.add(calls, "calls with up to 2 arguments", n=2, expect=("call",))
C.add(total, "sums and mixed formulas of 3 operands", n=3, expect=("sum", "mixed"))
C.add(wide, "calls and formulas of 40 operands", n=40, expect=("wide:call", "wide:formula"))
C.add(refused, "22 operands that are not expressions", expect=("right", "left", "expressify", "argument", "after"))
C.add(foreign, "every operator with an operand that defines it itself", expect=("foreign:right", "foreign:left"))
C.add(conversion, "expressify and the named constants", expect=("int", "same", "constant", "name"))
C.deep(program, "formulas of 3 operators over 1 expression and 1 int", n=3, leaves=1, ints=0)
C.deep(program, "formulas of 2 operators over 1 expression and 2 ints", n=2, leaves=1, ints=2)
C.deep(program, "formulas of 2 operators over 2 expressions and 1 int", n=2, leaves=2, ints=1)
C.deep(program, "formulas of 2 operators over 1 expression and 2 ints", n=2, leaves=1, ints=2)
C.deep(program, "formulas of 2 operators over 2 expressions and 2 ints", n=2, leaves=2, ints=2)
C.deep(total, "sums and mixed formulas of 6 operands", n=6)
C.deep(calls, "calls with 4 arguments", n=4)
C.outside = ["operand classes that define their own reflected operators"]
