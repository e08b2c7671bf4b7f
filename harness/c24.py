"""C24: compiled functions compute the same doubles as the expression."""

import gc

from harness.compiled import *  # noqa: F403
from px.registry import Check

CHECK = Check("C24", __name__)
C = CHECK


def judge(E, W, s, args, values, label, calls=1):
    """Compile s for the argument specs and compare with the expression's value."""
    mach = Machine(E, args, values)
    e = W.build(s)
    objs = [W.build(a) for a in args]
    given = list(objs)
    r = E.call(lambda: W.sc.lambdify(given, e))
    E.check(label + ":args", len(given) == len(objs) and all([p is q for p, q in zip(given, objs)]))
    if mach.refused(s):
        err = E.mod("protosym.simplecas.exceptions").LLVMNotImplementedError
        E.check(label + ":refused", r[0] == "exc" and isinstance(r[1], err), lambda: f"lambdify({args}, {show(s)}): {r[1]!r}")
        return None
    how = f"lambdify({args}, {show(s)})"
    try:
        want = mach.value(s)
    except OverflowError:  # an int beyond the doubles
        E.check(label + ":huge", r[0] == "exc", lambda: f"{how}: {r[1]!r}")
        return None
    E.check(label + ":ok", r[0] == "ok", lambda: f"{how}: {r[1]!r}")
    f = r[1]
    for _ in range(calls):
        r = E.call(lambda: f(*values))
        E.check(label + ":call", r[0] == "ok", lambda: f"{how}{tuple(values)}: {r[1]!r}")
        E.check(label, mach.agrees(r[1], want), lambda: f"{how}{tuple(values)}: {r[1]!r}, not {want!r}")
    return f, want, mach


def heads(x):
    return {
        "A": (F("Add"), (1, 2, 3)), "M": (F("Mul"), (1, 2, 3)), "A2": (F("Add"), (2,)), "M2": (F("Mul"), (2,)), "A0": (F("Add"), (0, 1)), "M0": (F("Mul"), (0, 1)),
        "A3": (F("Add"), (3,)), "M3": (F("Mul"), (3,)), "P": (F("pow"), (2,)), "sin": (F("sin"), (1,)), "cos": (F("cos"), (1,)),
        "f": (F("f"), (1,)), "L": (F("List"), (0, 2)), "Sy": (S("sin"), (1,)), "D": (App(F("sin"), x), (1,)), "f0": (F("f"), (0,)), "A4": (F("Add"), (4,)),
    }


@C.harness
def values(E, n, which, leaves, args=2, lo=None):
    """Every expression of n compound nodes, arguments of any value."""
    W = Cas(E)
    x, y = S("x"), S("y")
    ls = [x, I(E.int("i", lo)), y, I(E.int("j", lo)), S("missing"), F("f")]
    ls = [ls[k] for k in leaves]
    hs = heads(x)
    s = gen_dag(E, "p", ls, [hs[h] for h in which], n, interchangeable=False)[-1]
    judge(E, W, s, [x, y][:args], [E.flt("vx"), E.flt("vy")][:args], "value", calls=2)


@C.harness
def names(E, kind="any", three=0, orders=6):
    """Arguments of any names, in any order, some unused."""
    W = Cas(E)
    a, b = S(E.str("a", kind)), S(E.str("b", kind))
    ls = [a, b] + ([S(E.str("c", kind))] if three else [S("x")])
    distinct(E, ls)
    c = ls[2]
    s = [
        App(F("Add"), App(F("Mul"), a, b), App(F("Mul"), I(-1), b)),
        App(F("Mul"), App(F("Add"), b, I(1), b), App(F("sin"), b)),
        App(F("pow"), b, a),
        a,
        I(7),
        App(F("Add"), App(F("Mul"), c, a), App(F("Add"), a, App(F("Mul"), b, c), c)),
    ][E.choose("form", 6)]
    order = [[0, 1, 2], [2, 1, 0], [1, 0, 2], [1, 2, 0], [0, 2, 1], [2, 0, 1]][E.choose("order", orders)]
    vs = [E.flt("va"), E.flt("vb"), E.flt("vc")]
    judge(E, W, s, [ls[k] for k in order], [vs[k] for k in order], "name")


TRICKY = ["_out", ".0", ".1", "arg.0", "arg.1", "arg.2", "0", "", " ", "x y", 'q"', "\\22", "\\", "é", "jit_func1", "double", "%x", "arg_0", "entry", "Val", "sin", "x.", "ret", "llvm.pow.f64", "\n", "\0", "a" * 300]


@C.harness
def tricky(E, matrix=0):
    """Names that mean something in LLVM code, two at a time."""
    W = Cas(E)
    p, q = E.choose("p", len(TRICKY)), E.choose("q", len(TRICKY))
    a, b = S(TRICKY[p]), S(TRICKY[q])
    c = S(E.str("c", "any") if p == q else "c")
    if p == q:
        b = S("other")
    distinct(E, [a, b, c])
    s = App(F("Add"), App(F("Mul"), a, b), App(F("Mul"), I(-3), c), b)
    judge(E, W, s, [a, b, c], [E.flt("va"), E.flt("vb"), E.flt("vc")], "tricky")


@C.harness
def unused(E):
    """Extra arguments change nothing; arguments of other types."""
    W = Cas(E)
    x, y = S("x"), S("y")
    extra = [S(E.str(f"n{k}", "ident", avoid=("x", "y", "z"))) for k in range(2)]
    distinct(E, extra)
    vs = {"x": E.flt("vx"), "y": E.flt("vy")}
    ve = [E.flt("u0"), E.flt("u1")]
    place = E.choose("place", 4)
    s = [App(F("Add"), x, App(F("Mul"), y, x)), App(F("sin"), y), I(E.int("i")), x][E.choose("form", 4)]
    args = [[extra[0], x, extra[1], y], [x, y, *extra], [*extra, y, x], [extra[1], y, x]][place]
    vals = []
    for a in args:
        vals.append(vs[a.value] if a is x or a is y else ve[0] if a is extra[0] else ve[1])
    judge(E, W, s, args, vals, "unused")


@C.harness
def ints(E):
    """Arguments given as ints or bools."""
    W = Cas(E)
    x, y = S("x"), S("y")
    f = W.sc.lambdify([W.build(x), W.build(y)], W.build(App(F("Add"), App(F("Mul"), x, I(3)), y)))
    i = E.int("i", -1000, 1000)
    v = E.flt("v")
    E.check("ints", E.flt_same(f(2, v), 2.0 * 3.0 + v))
    E.check("ints", E.flt_same(f(v, True), v * 3.0 + 1.0))
    E.check("ints", E.flt_same(f(v, -0.0), v * 3.0 + -0.0))
    E.observe("i", i)


BIG = [0, 1, -1, 2**53, 2**53 + 1, 2**53 + 3, -(2**53) - 1, 10**22, 10**23, 2**63, 2**64 - 1, 2**1023, 2**1024 - 2**970, 2**1024, -(2**1024), 10**309, 3**700, -(10**30) + 1]


@C.harness
def constants(E):
    """Integer constants of every size."""
    W = Cas(E)
    x = S("x")
    n = I(BIG[E.choose("n", len(BIG))])
    s = [n, App(F("Add"), n, x), App(F("Mul"), x, n), App(F("pow"), x, n), App(F("Add"), n, n), App(F("Mul"), App(F("Add"), x, I(E.int("i"))), n)][E.choose("form", 6)]
    judge(E, W, s, [x], [E.flt("vx")], "constant")


SPECIAL = [0.0, -0.0, 5e-324, 1.7976931348623157e308, float("inf"), float("nan"), 0.1]


@C.harness
def special(E, n, which):
    """Arguments of special values."""
    W = Cas(E)
    x, y = S("x"), S("y")
    hs = heads(x)
    s = gen_dag(E, "p", [x, y, I(0)], [hs[h] for h in which], n, interchangeable=False)[-1]
    judge(E, W, s, [y, x], [SPECIAL[E.choose("vy", len(SPECIAL))], SPECIAL[E.choose("vx", len(SPECIAL))]], "special")


@C.harness
def held(E, n):
    """Functions stay valid and their own, whatever is compiled afterwards."""
    W = Cas(E)
    x, y = S("x"), S("y")
    v, w = E.flt("v"), E.flt("w")
    k = E.choose("kind", 5)
    forms = [
        lambda j: App(F("Add"), x, I(j)),
        lambda j: App(F("Mul"), x, S("y"), *[x] * (j % 5)),
        lambda j: (x, y)[j % 2],
        lambda j: App(F("Add"), App(F("sin"), App(F("Mul"), x, I(j))), y),
        lambda j: App(F("Add"), *[x] * (j % 4), y),
    ]
    mk = forms[k]
    held_, drop = [], E.choose("drop", 3)
    for j in range(n):
        args = [x, y] if j % 3 else [y, x]
        vals = [v, w] if j % 3 else [w, v]
        s = mk(j)
        m = Machine(E, args, vals)
        f = W.sc.lambdify([W.build(a) for a in args], W.build(s))
        if drop == 0 or (drop == 1 and j % 2 == 0) or (drop == 2 and j in (0, n // 2)):
            held_.append((f, vals, m, m.value(s), s))
        del f
        if j % 3 == 2:
            gc.collect()
    gc.collect()
    for f, vals, m, want, s in held_ + held_[::-1]:
        r = E.call(lambda: f(*vals))
        E.check("held", r[0] == "ok" and m.agrees(r[1], want), lambda: f"{show(s)}{vals}: {r[1]!r} after {n} others")


@C.harness
def manyheld(E, n):
    """The first and some later functions, after very many others."""
    W = Cas(E)
    x, v = S("x"), E.flt("v")
    held_ = []
    for j in range(n):
        f = W.sc.lambdify([W.build(x)], W.build(App(F("Add"), x, I(j))))
        if j in (0, 1, n // 2, n - 1):
            m = Machine(E, [x], [v])
            held_.append((f, m, m.value(App(F("Add"), x, I(j)))))
        del f
    gc.collect()
    for f, m, want in held_:
        r = E.call(lambda: f(v))
        E.check("held", r[0] == "ok" and m.agrees(r[1], want), lambda: f"{r[1]!r} after {n} others")


@C.harness
def twins(E, cas=0):
    """Two functions that look alike in one respect."""
    W = Cas(E)
    a, b = S(E.str("a", "any")), S(E.str("b", "any"))
    distinct(E, [a, b])
    va, vb = E.flt("va"), E.flt("vb")
    d = App(F("Add"), a, App(F("Mul"), I(-1), b))
    pairs = [
        ([a, b], d, [b, a], d),
        ([a], App(F("sin"), a), [b], App(F("sin"), b)),
        ([a, b], a, [a, b], b),
        ([a, b], App(F("pow"), a, b), [a, b], App(F("pow"), b, a)),
        ([a], App(F("Mul"), a, I(2)), [a, b], App(F("Mul"), a, I(2))),
        ([a, b], App(F("Add"), a, b), [a, b], App(F("Mul"), a, b)),
        ([a, b], App(F("Add"), App(F("Add"), a, b), a), [a, b], App(F("Add"), a, App(F("Add"), b, a))),
        ([a, b], I(3), [a, b], I(4)),
    ]
    a1, s1, a2, s2 = pairs[E.choose("pair", len(pairs))]
    val = {id(a): va, id(b): vb}
    r1 = judge(E, W, s1, a1, [val[id(q)] for q in a1], "twin")
    r2 = judge(E, W, s2, a2, [val[id(q)] for q in a2], "twin")
    judge(E, W, s1, a1, [val[id(q)] for q in a1], "twin")
    for r, aa in ((r1, a1), (r2, a2)):
        E.check("twin:later", r[2].agrees(r[0](*[val[id(q)] for q in aa]), r[1]))
    # argument values are those of the call
    u = E.flt("u")
    m = Machine(E, a1, [u if q is a else vb for q in a1])
    got, want = r1[0](*m.values), m.value(s1)
    E.check("twin:values", m.agrees(got, want))


@C.harness
def refused(E):
    """Functions and symbols that cannot be compiled, wherever they occur."""
    W = Cas(E)
    x = S("x")
    fn = F(E.str("fn", "any"))
    for known in KNOWN:
        E.assume(E.not_(values_equal(E, "Function", fn.value, known)))
    sy = S(E.str("sy", "any"))
    distinct(E, [sy, x])
    D = App(F("sin"), x)
    bad = [
        App(fn, x), App(fn), App(fn, x, I(2)), sy, fn, App(D, x), App(S("cos"), x), App(I(3), x), App(F("List"), x, I(2)), App(F("List")), App(fn, App(fn, x)), F("sin"), App(x),
        App(App(fn, x), x), App(sy, x),
    ]
    k = E.choose("bad", len(bad))
    s = bad[k]
    s = [s, App(F("sin"), s), App(F("Add"), x, App(F("Mul"), s, I(0))), App(F("pow"), I(1), s), App(F("Add"), s), App(F("Mul"), s, s, x)][E.choose("where", 6)]
    judge(E, W, s, [x], [E.flt("vx")], "refuse")
    # and valid code afterwards
    judge(E, W, App(F("Add"), x, x, I(1)), [x], [E.flt("vx2")], "after")


@C.harness
def chains(E, n):
    """Long chains with shared parts."""
    W = Cas(E)
    x, y, i = S("x"), S("y"), I(E.int("i"))
    e = x
    steps = [lambda e: App(F("Add"), e, y), lambda e: App(F("Mul"), y, e), lambda e: App(F("sin"), e), lambda e: App(F("pow"), e, i), lambda e: App(F("Mul"), e, e),
             lambda e: App(F("Add"), e, x, e), lambda e: App(F("cos"), e)]
    pat = [E.choose(f"step{k}", len(steps)) for k in range(2)]
    for k in range(n):
        e = steps[pat[k % 2]](e)
    judge(E, W, e, [x, y], [E.flt("vx"), E.flt("vy")], "chain")


@C.harness
def wide(E, n):
    W = Cas(E)
    ls = [S("x"), S("y"), I(E.int("i")), App(F("sin"), S("x"))]
    few = list(range(n)) if n < 10 else [0, 1, n // 2, n - 2, n - 1]
    k, m = E.choose("from", len(ls)), few[E.choose("swap", len(few))]
    ts = [ls[(k + j * (1 + m % 3)) % len(ls)] for j in range(n)]
    ts[m], ts[0] = ts[0], ts[m]
    h = (F("Add"), F("Mul"))[E.choose("head", 2)]
    judge(E, W, App(F("Add"), App(h, *ts), App(F("Mul"), *ts[1:])), [S("x"), S("y")], [E.flt("vx"), E.flt("vy")], "wide")


@C.harness
def ir(E, n, which, leaves):
    """to_llvm_ir gives code for the function that lambdify compiles."""
    W = Cas(E)
    x, y = S("x"), S("y")
    ls = [x, I(E.int("i", 21)), y, S("z"), F("f")]
    s = gen_dag(E, "p", [ls[k] for k in leaves], [heads(x)[h] for h in which], n, interchangeable=False)[-1]
    v = {"x": E.flt("vx"), "y": E.flt("vy"), "z": E.flt("vz")}
    names = ["xy", "yx", "zxy", "x", "yzx"][E.choose("args", 5)]
    args, vals = [S(k) for k in names], [v[k] for k in names]
    mach = Machine(E, args, vals)
    e = W.build(s)
    objs = [W.build(a) for a in args]
    given = list(objs)
    r = E.call(lambda: e.to_llvm_ir(given))
    E.check("ir:args", len(given) == len(objs) and all([p is q for p, q in zip(given, objs)]))
    how = f"{show(s)}.to_llvm_ir({args})"
    if mach.refused(s):
        err = E.mod("protosym.simplecas.exceptions").LLVMNotImplementedError
        E.check("ir:refused", r[0] == "exc" and isinstance(r[1], err), lambda: f"{how}: {r[1]!r}")
        return
    E.check("ir:ok", r[0] == "ok" and isinstance(r[1], str), lambda: f"{how}: {r[1]!r}")
    want = mach.value(s)
    got = E.call(lambda: assembled(E, r[1], len(args))(*vals))
    E.check("ir:call", got[0] == "ok", lambda: f"{how}: {got[1]!r}")
    E.check("ir", mach.agrees(got[1], want), lambda: f"{how} at {vals}: {got[1]!r}, not {want!r}")


C.add(ir, "the code of 1 compound node, leaves x, int, y, every argument list", n=1, which=["A", "M", "P", "sin", "cos"], leaves=[0, 1, 2], expect=("ir", "ir:refused"))
C.add(ir, "the code of 2 compound nodes, leaves x, y, z, f", n=2, which=["A2", "f", "P"], leaves=[0, 2, 3], expect=("ir", "ir:refused"))
C.add(values, "2 compound nodes over +,* (1 to 3 terms), leaves x, int > 20", n=2, lo=21, which=["A", "M"], leaves=[0, 1], expect=("value", "value:ok"))
C.add(values, "2 compound nodes over pow,sin,cos,+,* of 2, leaves x, y, int > 20", n=2, lo=21, which=["P", "sin", "cos", "A2", "M2"], leaves=[0, 1, 2], expect=("value",))
C.add(values, "1 compound node over +,*,pow,sin, leaves x, int, int", n=1, which=["A", "M", "P", "sin"], leaves=[0, 1, 3], expect=("value",))
C.add(values, "2 compound nodes over +,* of 0 or 1 terms, pow", n=2, which=["A0", "M0", "P"], lo=21, leaves=[0, 1, 3], expect=("value",))
C.add(values, "2 compound nodes with what cannot be compiled", n=2, which=["A2", "sin", "f", "L", "Sy", "D"], leaves=[0, 4, 5], expect=("value", "value:refused"))
C.add(values, "2 compound nodes, one symbol not an argument", n=2, which=["P", "M2"], leaves=[0, 2], args=1, expect=("value", "value:refused"))
C.add(values, "3 compound nodes over *,+,sin, leaf x", n=3, which=["A2", "M2", "sin"], leaves=[0], expect=("value",))
C.add(names, "two arguments of any name, every order", expect=("name", "name:ok"))
C.add(names, "three arguments of any identifier names, every order", kind="ident", three=1, orders=2, expect=("name",))
C.add(tricky, "27 names that mean something in LLVM, pairs, and with one of any name", expect=("tricky",))
C.add(unused, "unused arguments", expect=("unused",))
C.add(ints, "arguments that are ints", expect=("ints",))
C.add(constants, "18 sizes of integer in 6 forms", expect=("constant", "constant:huge"))
C.add(special, "1 compound node, special values", n=1, which=["A2", "M2", "A3", "M0", "A0"], expect=("special",))
C.add(held, "40 functions compiled one after another", n=40, expect=("held",))
C.add(manyheld, "600 functions compiled one after another", n=600, expect=("held",))
C.add(twins, "pairs of similar functions", expect=("twin", "twin:later", "twin:values"))
C.add(refused, "15 uncompilable parts in 6 places", expect=("refuse:refused", "after"))
C.add(chains, "chains 30 long, every alternation of 7 steps", n=30, expect=("chain",))
C.add(wide, "sums and products of 8 terms", n=8, expect=("wide",))
C.add(wide, "sums and products of 36 terms", n=36, expect=("wide",))
C.deep(values, "3 compound nodes over +,*,pow,sin, leaves x, int", n=3, which=["A2", "M2", "P", "sin"], leaves=[0, 1])
C.deep(values, "2 compound nodes over +,* of 1 to 3 terms, leaves x, y, int", n=2, which=["A", "M"], leaves=[0, 1, 2])
C.deep(names, "three arguments of any names", three=1)
C.deep(special, "2 compound nodes, special values", n=2, which=["A2", "M2"])
C.deep(held, "150 functions", n=150)
C.deep(manyheld, "5000 functions compiled one after another", n=5000)
C.deep(chains, "chains 300 long", n=300)
C.deep(wide, "25 terms", n=25)
C.outside = ["the LLVM compiler, its optimisation passes and machine code (a stub interprets the LLVM text the code produces; the real ones run in replays)",
             "calls of sin, cos and pow with a wrong number of arguments", "arguments that are not symbols"]
C.assumptions = ["sin, cos and pow are arbitrary functions of doubles; a double for an int is an arbitrary function of the int (fixed ints: exact)",
                 "the LLVM stub: IR grammar, names and IEEE arithmetic as LLVM defines them, optimisation preserves values"]
