"""C12: evaluator rules: malformed rules are refused, accepted rules are applied."""

from harness.lib import *  # noqa: F403
from px.registry import Check

CHECK = Check("C12", __name__)
C = CHECK


class Missing(Exception):
    pass


class Model:
    """What an evaluator with some rules must compute."""

    def __init__(self, E, W):
        self.E, self.W = E, W
        self.ops, self.atoms = {}, {}
        self.gop = self.gatom = None

    def copy(self):
        m = Model(self.E, self.W)
        m.ops, m.atoms = dict(self.ops), dict(self.atoms)
        m.gop, m.gatom = self.gop, self.gatom
        return m

    def fold(self, s):
        E = self.E
        if type(s) is Leaf:
            if s.kind in self.atoms:
                tag = self.atoms[s.kind]
                v = s.value
                return E.uf(tag, E.real_of_int(v)) if s.kind == "Integer" else E.ufs(tag, [v])
            if self.gatom:
                return E.uf(self.gatom, den_spec(E, s))
            raise Missing
        xs = [self.fold(a) for a in s.args]
        h = s.head.value
        if h in self.ops:
            tag, arity = self.ops[h]
            if arity is not None and arity != len(xs):
                raise TypeError
            return E.uf(f"{tag}.{len(xs)}", *xs)
        if self.gop:
            return E.uf(f"{self.gop}.{len(xs)}", den_spec(E, s.head), *xs)
        raise Missing


X, Y = S("x"), S("y")


def exprs(E, i):
    f, g, h = F("f"), F("g"), F("h")
    return [X, i, App(f, X), App(g, i, X), App(f, App(g, X, Y)), App(h, X, i, Y), App(g, App(f, i), App(f, X)),
            App(f, X, Y), App(g, X), App(App(f, X), X) if False else App(h, App(h))]


class Reg:
    """Patterns and calls to choose from."""

    def __init__(self, E, W, wild):
        self.E, self.W, self.wild = E, W, wild
        self.sym = E.mod("protosym.core.sym")
        self.sc = W.sc

    def term(self, t):
        """Wild i, or the star of wild i-3."""
        return self.wild[t] if t < 3 else self.sym.star(self.wild[t - 3])

    def pattern(self, p):
        """(what is registered, kind, subject, argument codes)."""
        sc, sym = self.sc, self.sym
        f, g = self.W.build(F("f")), self.W.build(F("g"))
        t = self.term
        kind, subj, args = p
        if kind == "op":
            head = {"f": f, "g": g}[subj]
            return head(*[t(a) for a in args])
        if kind == "atom":
            return {"Integer": sc.Integer, "Symbol": sc.Symbol}[subj][t(args[0])]
        if kind == "gatom":
            return sym.AtomRule[t(args[0])]
        return sym.HeadRule(t(args[0]), t(args[1]))

    def call(self, c, tag):
        E, sym = self.E, self.sym
        wrap, args = c
        W = self.W
        t = [self.term(a) for a in args]
        if wrap == "op1":
            return sym.PyOp1(lambda x: E.uf(tag + ".1", x))(*t)
        if wrap == "op2":
            return sym.PyOp2(lambda x, y: E.uf(tag + ".2", x, y))(*t)
        if wrap == "opn":
            return sym.PyOpN(lambda xs: E.uf(f"{tag}.{len(xs)}", *xs))(*t)
        if wrap == "func1":
            return sym.PyFunc1(lambda v: E.ufs(tag, [v]) if isinstance(v, str) else E.uf(tag, E.real_of_int(v)))(*t)
        if wrap == "atomfunc":
            return sym.AtomFunc(lambda a: E.uf(tag, den_tree(E, W, a)))(*t)
        if wrap == "headop":
            return sym.HeadOp(lambda h, xs: E.uf(f"{tag}.{len(xs)}", den_tree(E, W, h), *xs))(*t)
        if wrap == "raw":
            return [lambda x: x, None, sym.PyOp1(lambda x: x), W.sc.x, 1][args[0]]
        raise AssertionError(wrap)


PATTERNS = [
    ("op", "f", (0,)), ("op", "f", (0, 1)), ("op", "f", (1, 0)), ("op", "f", (3,)), ("op", "g", (0, 1)),
    ("op", "f", ()), ("op", "f", (0, 1, 2)), ("op", "f", (0, 3)), ("op", "f", (4, 0)), ("op", "g", (4,)),
    ("atom", "Integer", (0,)), ("atom", "Symbol", (1,)), ("atom", "Integer", (3,)),
    ("gatom", None, (0,)), ("gatom", None, (3,)), ("gop", None, (0, 1)), ("gop", None, (0, 3)),
]
CALLS = (
    [("op1", (a,)) for a in (0, 1, 3)]
    + [("op2", a) for a in ((0, 1), (1, 0), (0, 2), (0, 3), (4, 0))]
    + [("opn", (a,)) for a in (0, 1, 3)]
    + [("func1", (a,)) for a in (0, 1, 3)]
    + [("atomfunc", (a,)) for a in (0, 1, 3)]
    + [("headop", a) for a in ((0, 1), (1, 0), (0, 3), (0, 2))]
    + [("raw", (k,)) for k in range(5)]
)
FITS = {"op": ("op1", "op2", "opn"), "atom": ("func1",), "gatom": ("atomfunc",), "gop": ("headop",)}


def verdict(p, c, same):
    """None: accepted or refused, as the package likes; else True/False."""
    kind, subj, args = p
    wrap, cargs = c
    if wrap == "raw":
        return False
    if wrap == "opn":
        return kind == "op" and len(args) == 1 and args[0] >= 3 and cargs[0] < 3 and same(args[0] - 3, cargs[0])
    fits = len(args) == len(cargs) and all(same(a, b) for a, b in zip(args, cargs))
    if not fits or wrap not in FITS[kind]:
        return False
    if kind == "op":
        return not any(a >= 3 for a in args)
    return None if any(a >= 3 for a in args) else True


def apply_rule(m, p, c, tag):
    kind, subj, _ = p
    if kind == "op":
        m.ops[subj] = (tag, {"op1": 1, "op2": 2, "opn": None}[c[0]])
    elif kind == "atom":
        m.atoms[subj] = tag
    elif kind == "gatom":
        m.gatom = tag
    else:
        m.gop = tag


def compare(E, W, ev, m, label, es):
    err = E.mod("protosym.core.exceptions").NoEvaluationRuleError
    for s in es:
        try:
            want = ("ok", m.fold(s))
        except Missing:
            want = ("missing", None)
        except TypeError:
            continue  # a rule of fixed arity on another number of arguments
        got = E.call(lambda: ev(W.build(s)))
        if want[0] == "ok":
            E.check(label, got[0] == "ok", lambda: f"{show(s)}: {got}")
            E.check(label + ":value", E.num_eq(got[1], want[1]), lambda: f"{show(s)}: {got[1]} wanted {want[1]}")
        else:
            E.check(label + ":missing", got[0] == "exc" and isinstance(got[1], err), lambda: f"{show(s)}: {got}")


@C.harness
def rules(E, base, patterns, calls, steps, names="fixed"):
    """Every pattern with every call, on an evaluator that already has rules."""
    ps = [PATTERNS[E.choose(f"pattern{k}", patterns)] for k in range(steps)]
    cs = [CALLS[E.choose(f"call{k}", calls)] for k in range(steps)]
    if steps > 1:
        # keep to sequences that begin with an accepted rule
        E.assume(verdict(ps[0], cs[0], lambda a, b: a == b) is True)
    if names == "fixed":
        nm = ["wa", "wb", "wc"]
    else:
        nm = [E.str(f"wild{i}", "any") for i in range(3)]
    i = I(E.int("i"))
    W = Cas(E)
    sc = W.sc
    sym = E.mod("protosym.core.sym")
    bad = E.mod("protosym.core.exceptions").BadRuleError
    wild = [sc.Expr.new_wild(n) for n in nm]

    def same(a, b):
        if a == b:
            return True
        if (a >= 3) != (b >= 3):
            return False
        return bool(values_equal(E, "Symbol", nm[a % 3], nm[b % 3]))
    R = Reg(E, W, wild)
    ev, other = sc.Expr.new_evaluator("ev", object), sc.Expr.new_evaluator("other", object)
    m, mo = Model(E, W), Model(E, W)
    pre = [] if base == 0 else [
        (("op", "f", (0,)), ("op1", (0,))), (("op", "g", (3,)), ("opn", (0,))), (("atom", "Integer", (0,)), ("func1", (0,))),
        (("gatom", None, (0,)), ("atomfunc", (0,)))]
    if base == 2:
        pre += [(("gop", None, (0, 1)), ("headop", (0, 1)))]
    for k, (p, c) in enumerate(pre):
        ev[R.pattern(p)] = R.call(c, f"pre{k}")
        apply_rule(m, p, c, f"pre{k}")
    other[R.pattern(("op", "f", (0, 1)))] = R.call(("op2", (0, 1)), "oth")
    apply_rule(mo, ("op", "f", (0, 1)), ("op2", (0, 1)), "oth")
    es = exprs(E, i)
    for k in range(steps):
        p, c = ps[k], cs[k]
        if p[0] == "op" and len(p[2]) > 1 and any(same(a, b) for n, a in enumerate(p[2]) for b in p[2][:n]):
            E.assume(False)  # the same pattern variable twice
        want = verdict(p, c, same)
        got = E.call(lambda: ev.__setitem__(R.pattern(p), R.call(c, f"new{k}")))
        if want is False:
            E.check("refused", got[0] == "exc" and isinstance(got[1], bad), lambda: f"{p} = {c}: {got}")
        elif want is True:
            E.check("accepted", got[0] == "ok", lambda: f"{p} = {c}: {got}")
        if got[0] == "ok":
            apply_rule(m, p, c, f"new{k}")
        else:
            E.check("refused:kind", isinstance(got[1], bad), lambda: f"{p} = {c}: {got}")
        compare(E, W, ev, m, "applied" if got[0] == "ok" else "unchanged", es)
    compare(E, W, other, mo, "other", es)
    E.observe("verdict", got[0])


@C.harness
def add_op(E):
    """The lower-level way to add an operation rule."""
    W = Cas(E)
    sym = E.mod("protosym.core.sym")
    bad = E.mod("protosym.core.exceptions").BadRuleError
    ev = W.sc.Expr.new_evaluator("ev", object)
    k = E.choose("wrapper", 7)
    i = I(E.int("i"))
    w = [
        lambda: sym.PyOp1(lambda x: E.uf("o.1", x)), lambda: sym.PyOp2(lambda x, y: E.uf("o.2", x, y)),
        lambda: sym.PyOpN(lambda xs: E.uf(f"o.{len(xs)}", *xs)), lambda: sym.PyFunc1(lambda v: v),
        lambda: sym.AtomFunc(lambda v: v), lambda: sym.HeadOp(lambda h, v: v), lambda: (lambda x: x),
    ][k]()
    m = Model(E, W)
    R = Reg(E, W, [W.sc.Expr.new_wild(n) for n in "abc"])
    ev[W.sc.Integer[R.wild[0]]] = R.call(("func1", (0,)), "n")
    m.atoms["Integer"] = "n"
    ev[R.pattern(("gatom", None, (0,)))] = R.call(("atomfunc", (0,)), "ga")
    m.gatom = "ga"
    r = E.call(lambda: ev.add_op(W.build(F("f")), w))
    if k < 3:
        E.check("add_op", r[0] == "ok")
        m.ops["f"] = ("o", [1, 2, None][k])
    else:
        E.check("add_op:refused", r[0] == "exc" and isinstance(r[1], bad))
    compare(E, W, ev, m, "add_op:applied", exprs(E, i))


@C.harness
def broad(E, n):
    """Rules for many operations in one evaluator, in any order; one of them replaced."""
    W = Cas(E)
    sc, sym = W.sc, E.mod("protosym.core.sym")
    a, b = sc.Expr.new_wild("a"), sc.Expr.new_wild("b")
    few = [0, 1, n // 2, n - 2, n - 1]
    back, again = E.choose("reversed", 2), few[E.choose("again", len(few))]
    ev, m = sc.Expr.new_evaluator("ev", object), Model(E, W)
    ev[sc.Integer[a]] = sym.PyFunc1(lambda v: E.uf("int", E.real_of_int(v)))(a)
    m.atoms["Integer"] = "int"
    i = I(E.int("i"))

    def rule(k, tag):
        head = W.build(F(f"f{k}"))
        if k % 3 == 0:
            ev[head(a, b)] = sym.PyOp2(lambda x, y: E.uf(f"{tag}.2", x, y))(a, b)
        elif k % 3 == 1:
            ev[head(a)] = sym.PyOp1(lambda x: E.uf(f"{tag}.1", x))(a)
        else:
            ev[head(sym.star(a))] = sym.PyOpN(lambda xs: E.uf(f"{tag}.{len(xs)}", *xs))(a)
        m.ops[f"f{k}"] = (tag, [2, 1, None][k % 3])

    for k in (range(n - 1, -1, -1) if back else range(n)):
        rule(k, f"t{k}")
    rule(again, "again")
    args = [(i, I(2)), (i,), (i, I(3), i)]
    es = [App(F(f"f{k}"), *args[k % 3]) for k in range(n)] + [App(F(f"f{n}"), i)]
    nested = i
    for k in range(n):
        nested = App(F(f"f{k}"), *[(nested, i), (nested,), (i, nested, i)][k % 3])
    compare(E, W, ev, m, "broad", es + [nested])


C.add(broad, "rules for 36 operations", n=36, expect=("broad", "broad:value", "broad:missing"))
C.add(rules, "17 patterns x 28 calls, fresh evaluator", base=0, patterns=len(PATTERNS), calls=len(CALLS), steps=1,
      expect=("refused", "accepted", "applied:value", "applied:missing", "unchanged:missing", "other:missing"))
C.add(rules, "17 patterns x 28 calls, evaluator with rules", base=1, patterns=len(PATTERNS), calls=len(CALLS), steps=1,
      expect=("refused", "accepted", "applied:value", "unchanged:value"))
C.add(rules, "5 patterns x 8 calls, arbitrary names of pattern variables", base=2, patterns=5, calls=8, steps=1,
      names="any", expect=("refused", "accepted", "unchanged:value"))
C.add(rules, "two registrations, 10 patterns x 11 calls", base=2, patterns=10, calls=11, steps=2,
      expect=("refused", "accepted", "unchanged:value"))
C.add(add_op, "7 wrappers", expect=("add_op", "add_op:refused", "add_op:applied"))
C.deep(rules, "two registrations, 17 patterns x 28 calls", base=1, patterns=len(PATTERNS), calls=len(CALLS), steps=2)
C.deep(rules, "17 patterns x 28 calls, arbitrary names of pattern variables", base=1, patterns=len(PATTERNS),
       calls=len(CALLS), steps=1, names="any")
C.outside = ["patterns in which a variable is repeated or is not a pattern variable", "calls with the wrong number of arguments "
             "for their own wrapper (refused by Python)", "rules of fixed arity applied to another number of arguments"]
