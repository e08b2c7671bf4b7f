"""C15: eval_f64 computes the documented floating-point value."""

from harness.lib import *  # noqa: F403
from px.registry import Check

CHECK = Check("C15", __name__)
C = CHECK


class Missing(Exception):
    pass


class Oracle:
    """The documented value of a spec; ``values`` maps symbol names to floats."""

    def __init__(self, E, values):
        self.E = E
        self.values = values
        self.memo = {}
        self.lacks = {}

    def missing(self, s):
        """Some part of s has no value or rule."""
        if id(s) not in self.lacks:
            self.lacks[id(s)] = (self._missing(s), s)
        return self.lacks[id(s)][0]

    def _missing(self, s):
        if type(s) is Leaf:
            if s.kind == "Symbol":
                return s.value not in self.values
            return s.kind != "Integer"
        if type(s.head) is not Leaf or s.head.kind != "Function":
            return True
        if s.head.value not in ("Add", "Mul", "pow", "sin", "cos"):
            return True
        return any([self.missing(a) for a in s.args])

    def value(self, s):
        E = self.E
        if id(s) in self.memo:
            return self.memo[id(s)][0]
        if type(s) is Leaf:
            r = E.f_of_int(s.value) if s.kind == "Integer" else self.values[s.value]
        else:
            xs = [self.value(a) for a in s.args]
            n = s.head.value
            if n == "Add":
                r = E.f_fsum(xs)
            elif n == "Mul":
                r = 1.0
                for v in xs:
                    r = r * v
            else:
                r = E.f_lib(n, *xs)
        self.memo[id(s)] = (r, s)
        return r


def judge(E, W, s, values, label, supplied="all"):
    e = W.build(s)
    o = Oracle(E, values)
    vals = {W.build(S(k)): v for k, v in values.items()}
    if not vals and supplied == "none":
        r = E.call(lambda: e.eval_f64())
    elif len(s.args) % 2 if type(s) is App else True:
        r = E.call(lambda: e.eval_f64(vals))
    else:
        r = E.call(lambda: W.sc.expr.eval_f64(e, vals))
    if o.missing(s):
        err = E.mod("protosym.core.exceptions").NoEvaluationRuleError
        E.check(label + ":missing", r[0] == "exc" and isinstance(r[1], (err, ValueError)), lambda: f"{show(s)}: {r}")
        return
    want = E.call(lambda: o.value(s))
    if want[0] == "exc":
        E.check(label + ":domain", r[0] == "exc" and type(r[1]) is type(want[1]), lambda: f"{show(s)} {values}: {r}")
        return
    E.check(label + ":ok", r[0] == "ok", lambda: f"{show(s)} {values}: {r[1]!r}")
    E.check(label, E.flt_same(r[1], want[1]), lambda: f"{show(s)} {values}: {r[1]!r} wanted {want[1]!r}")


HEADS = {
    "A": (F("Add"), (1, 2, 3)), "A2": (F("Add"), (2,)), "A0": (F("Add"), (0, 1)), "A3": (F("Add"), (3,)),
    "M": (F("Mul"), (1, 2, 3)), "M2": (F("Mul"), (2,)), "M0": (F("Mul"), (0, 1)), "M3": (F("Mul"), (3,)),
    "P": (F("pow"), (2,)), "sin": (F("sin"), (1,)), "cos": (F("cos"), (1,)),
    "f": (F("f"), (1,)), "L": (F("List"), (1, 2)), "Z": (F("f"), (0,)),
}


@C.harness
def values(E, n, heads, leaves, strict=0, odd=0):
    """Every expression of n compound nodes, finite arguments."""
    W = Cas(E)
    if strict:
        E.domain_errors()
    ls = [S("x"), I(E.int("i")), S("y")][:leaves]
    if odd:
        ls = ls[:1] + [S("missing"), F("f")][:odd]
    s = gen_dag(E, "p", ls, [HEADS[h] for h in heads], n, interchangeable=False)[-1]
    v = {"x": E.flt("x"), "y": E.flt("y"), "unused": E.flt("u")}
    judge(E, W, s, v, "value")


@C.harness
def names(E):
    """Values are found by name, whatever the names are."""
    W = Cas(E)
    a, b = E.str("a", "any"), E.str("b", "any")
    distinct(E, [S(a), S(b)])
    va, vb = E.flt("va"), E.flt("vb")
    sa, sb, fa = W.build(S(a)), W.build(S(b)), W.build(F(a))
    vals = {sa: va, sb: vb}
    E.check("name", E.flt_same(sa.eval_f64(vals), va))
    E.check("name", E.flt_same(sb.eval_f64(vals), vb))
    r = E.call(lambda: (sa + sb).eval_f64({sb: vb}))
    err = E.mod("protosym.core.exceptions").NoEvaluationRuleError
    E.check("none", r[0] == "exc" and isinstance(r[1], err))
    r = E.call(lambda: fa.eval_f64(vals))
    E.check("function", r[0] == "exc" and isinstance(r[1], err))
    got = (sa * sb - sa).eval_f64(vals)
    want = E.f_fsum([1.0 * va * vb, -1.0 * va])
    E.check("formula", E.flt_same(got, want), lambda: f"{got} wanted {want}")
    E.check("untouched", len(vals) == 2 and vals[sa] is va and vals[sb] is vb)


SPECIAL = [0.0, -0.0, 1.0, -1.0, 5e-324, -5e-324, 1.7976931348623157e308, float("inf"), float("-inf"), float("nan"), 0.1, 2.0**53]


@C.harness
def special(E, n, heads):
    """Values of special kinds, exactly."""
    W = Cas(E)
    s = gen_dag(E, "p", [S("x"), S("y")], [HEADS[h] for h in heads], n, interchangeable=False)[-1]
    v = {"x": SPECIAL[E.choose("vx", len(SPECIAL))], "y": SPECIAL[E.choose("vy", len(SPECIAL))]}
    judge(E, W, s, v, "special")


INTS = [0, 1, -1, 2**53, 2**53 + 1, -(2**53) - 1, 10**22, 10**23, 2**1024 - 1, 2**1024, -(10**400), 3**700]


@C.harness
def integers(E):
    """Integers of every size convert as float() does."""
    W = Cas(E)
    n = INTS[E.choose("int", len(INTS))]
    i, j = I(n), I(E.int("j"))
    s = [i, App(F("Add"), i, j), App(F("Mul"), i, j), App(F("pow"), i, j), App(F("sin"), i), App(F("Mul"), j, j, j)][
        E.choose("form", 6)]
    judge(E, W, s, {}, "integer", supplied=["none", "empty"][E.choose("supplied", 2)])


@C.harness
def wide(E, n):
    """Sums and products of many terms, in any order and repeated."""
    W = Cas(E)
    ls = [S("x"), S("y"), I(E.int("i")), App(F("sin"), S("x"))]
    few = list(range(n)) if n < 10 else [0, 1, n // 2, n - 2, n - 1]
    k, m = E.choose("from", len(ls)), few[E.choose("swap", len(few))]
    ts = [ls[(k + j * (1 + m % 3)) % len(ls)] for j in range(n)]
    ts[m], ts[0] = ts[0], ts[m]
    h = (F("Add"), F("Mul"))[E.choose("head", 2)]
    v = {"x": E.flt("x"), "y": E.flt("y")}
    judge(E, W, App(F("Add"), App(h, *ts), App(F("Mul"), *ts[1:])), v, "wide")


@C.harness
def deep(E, n):
    """Long chains with shared parts."""
    W = Cas(E)
    y, i = S("y"), I(E.int("i"))
    e = S("x")
    steps = [lambda e: App(F("Add"), e, y), lambda e: App(F("Mul"), y, e), lambda e: App(F("sin"), e),
             lambda e: App(F("pow"), e, i), lambda e: App(F("Mul"), e, i), lambda e: App(F("cos"), e), lambda e: App(F("Add"), e, e)]
    pat = [E.choose(f"step{k}", len(steps)) for k in range(2)]
    for k in range(n):
        e = steps[pat[k % 2]](e)
    judge(E, W, e, {"x": E.flt("x"), "y": E.flt("y")}, "deep")


@C.harness
def norule(E):
    """Heads without a rule are refused, wherever they occur."""
    W = Cas(E)
    x = S("x")
    D = App(F("sin"), x)
    hs = [F(E.str("fn", "any", avoid=())), App(D, x).head, App(F("Add"), x), S("sin"), I(3), F("List"), F("")]
    k = E.choose("head", len(hs))
    for known in ("Add", "Mul", "pow", "sin", "cos"):
        E.assume(E.not_(values_equal(E, "Function", hs[0].value, known)))
    n = E.choose("args", 3)
    s = App(hs[k], *[x, I(2)][:n])
    s = [s, App(F("sin"), s), App(F("Add"), x, App(F("Mul"), s, I(0))), App(F("pow"), s, I(0))][E.choose("where", 4)]
    err = E.mod("protosym.core.exceptions").NoEvaluationRuleError
    e = W.build(s)
    r = E.call(lambda: e.eval_f64({W.build(x): E.flt("x")}))
    E.check("norule", r[0] == "exc" and isinstance(r[1], err), lambda: f"{show(s)}: {r}")


C.add(values, "2 compound nodes over +,* (1 to 3 terms), 2 leaves", n=2, heads=["A", "M"], leaves=2, expect=("value",))
C.add(values, "2 compound nodes over pow,sin,cos,+,* of 2, 3 leaves", n=2, heads=["P", "sin", "cos", "A2", "M2"], leaves=3, expect=("value",))
C.add(values, "2 compound nodes over pow,sin, domain errors", n=2, heads=["P", "sin"], leaves=2, strict=1,
      expect=("value", "value:domain"))
C.add(values, "2 compound nodes over +,* of 0 or 1 terms, f(), pow", n=2, heads=["A0", "M0", "Z", "P"], leaves=2, expect=("value", "value:missing"))
C.add(values, "2 compound nodes with missing symbols and functions", n=2, heads=["A2", "sin", "f", "L"], leaves=1, odd=2,
      expect=("value", "value:missing"))
C.add(values, "3 compound nodes over *,+,sin, 1 leaf", n=3, heads=["A2", "M2", "sin"], leaves=1, expect=("value",))
C.add(names, "arbitrary names of symbols", expect=("name", "none", "function", "formula", "untouched"))
C.add(special, "1 compound node, zeros, infinities, NaN and extreme values", n=1, heads=["A2", "M2", "P", "sin", "cos"], expect=("special",))
C.add(integers, "12 sizes of integer in 6 forms", expect=("integer", "integer:domain"))
C.add(wide, "sums and products of 7 terms", n=7, expect=("wide",))
C.add(wide, "sums and products of 36 terms", n=36, expect=("wide",))
C.add(deep, "chains 30 deep, every alternation of 7 steps", n=30, expect=("deep",))
C.add(norule, "7 heads without rules in 4 places", expect=("norule",))
C.deep(values, "3 compound nodes over +,*,pow,sin, 2 leaves", n=3, heads=["A2", "M2", "P", "sin"], leaves=2)
C.deep(values, "2 compound nodes over +,* of 1 to 3 terms, 3 leaves", n=2, heads=["A", "M"], leaves=3)
C.deep(values, "2 compound nodes over pow,+,*, domain errors", n=2, heads=["P", "A2", "M2"], leaves=1, strict=1)
C.deep(values, "3 compound nodes over pow,sin, domain errors", n=3, heads=["P", "sin"], leaves=2, strict=1)
C.deep(special, "2 compound nodes, zeros, infinities, NaN and extreme values", n=2, heads=["A2", "M2", "P"])
C.deep(wide, "sums and products of 20 terms", n=20)
C.deep(deep, "chains 150 deep, every alternation of 7 steps", n=150)
C.outside = ["supplied values that are not floats", "overflow inside sums and powers of symbolic values"]
C.assumptions = ["sin, cos, pow and sums of three or more terms are arbitrary functions of their double arguments; "
                 "a double for an int is an arbitrary function of the int (fixed ints: exact)"]
