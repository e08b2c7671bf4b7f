"""C30: invalid input is refused with the documented error and leaves no trace."""

from harness.c28 import FLOATS, NAMES, pool, structure, unchanged
from harness.calc import *  # noqa: F403
from harness.ops import *  # noqa: F403
from px.registry import Check

CHECK = Check("C30", __name__)
C = CHECK

ADD, MUL, POW = F("Add"), F("Mul"), F("pow")


class Errors:
    def __init__(self, E):
        sx = E.mod("protosym.simplecas.exceptions")
        cx = E.mod("protosym.core.exceptions")
        self.T, self.I, self.N = TypeError, IndexError, NotImplementedError
        self.X, self.L = sx.ExpressifyError, sx.LLVMNotImplementedError
        self.R, self.B = cx.NoEvaluationRuleError, cx.BadRuleError


def junk(E, W, b):
    """Values that are not expressions (nor ints)."""
    T = E.mod("protosym.core.atom").AtomType
    sym = E.mod("protosym.core.sym")
    return {
        "str": E.str("junk"), "float": E.flt("junkf"), "None": None, "list": [b.e], "tuple": (b.e,), "dict": {}, "empty": [], "object": object(), "complex": 1j,
        "class": float, "Matrix": W.sc.Matrix([[b.x]]), "atom": T("Symbol", str)("x"), "other": sym.Sym(b.x.rep), "bytes": b"x", "set": {b.x},
    }


JUNK = ["str", "float", "None", "list", "tuple", "dict", "empty", "object", "complex", "class", "Matrix", "atom", "other", "bytes", "set"]
HASHABLE = ["None", "object", "complex", "class", "atom", "other", "bytes"]


def places(E, W, b):
    """Where a value can be given: (kinds, error, call)."""
    x, e, sc, er = b.x, b.e, W.sc, Errors(E)
    Tree, Tr, Subs = b.tree.Tree, b.tree.Tr, b.tree.SubsFunc
    expr_mod = E.mod("protosym.simplecas.expr")
    sym = E.mod("protosym.core.sym")
    mat = sc.Matrix([[x, 0], [e, 3]])
    nolist = [k for k in JUNK if k not in ("list", "empty")]
    P = {
        "expressify": (JUNK, er.X, lambda j: sc.expressify(j)),
        "f(j)": (JUNK, er.X, lambda j: sc.f(j)),
        "f(x, j)": (JUNK, er.X, lambda j: sc.f(x, j)),
        "f(j, 1)": (JUNK, er.X, lambda j: sc.f(j, 1)),
        "Add(e, x, j)": (JUNK, er.X, lambda j: sc.Add(e, x, j)),
        "xreplace to": (JUNK, er.X, lambda j: e.xreplace({x: j})),
        "xreplace from": (HASHABLE, er.X, lambda j: e.xreplace({x: 1, j: x})),
        "as_function": (JUNK, er.X, lambda j: e.as_function(x, j)),
        "function call": (JUNK, er.X, lambda j: e.as_function(x, b.s)(x, j)),
        "entry": (JUNK, er.X, lambda j: sc.Matrix([[x, 0], [j, x]])),
        "Tree": (JUNK, er.T, lambda j: Tree(j)),
        "Tree head": (JUNK, er.T, lambda j: Tree(j, x.rep)),
        "Tree argument": (JUNK, er.T, lambda j: Tree(e.rep, x.rep, j)),
        "Tree call": (JUNK, er.T, lambda j: sc.f.rep(x.rep, j)),
        "Tr": ([k for k in JUNK if k != "atom"], er.T, lambda j: Tr(j)),
        "Expr": (JUNK, er.T, lambda j: sc.Expr(j)),
        "matrix": (["str", "float", "None", "list", "tuple", "dict", "object", "complex", "class", "Matrix", "atom", "other", "bytes", "set"], er.T, lambda j: sc.Matrix(j)),
        "row": (nolist, er.T, lambda j: sc.Matrix([[x], j])),
        "first row": (nolist, er.T, lambda j: sc.Matrix([j])),
        "index": (JUNK, er.T, lambda j: mat[j]),
        "row index": (JUNK, er.T, lambda j: mat[j, 0]),
        "column index": (JUNK, er.T, lambda j: mat[0, j]),
        "third index": (JUNK, er.T, lambda j: mat[0, 1, j]),
        "matrix +": ([k for k in JUNK if k != "Matrix"], er.T, lambda j: mat + j),
        "+ matrix": ([k for k in JUNK if k != "Matrix"], er.T, lambda j: j + mat),
        "matrix diff": (JUNK, er.T, lambda j: mat.diff(j)),
        "lambdify": ([k for k in JUNK if k != "Matrix"], er.T, lambda j: sc.lambdify([x], j)),
        "rule key": (JUNK, er.T, lambda j: expr_mod.diff.__setitem__(j, x)),
        "rule": (JUNK, er.B, lambda j: expr_mod.eval_f64.__setitem__(sc.sin(sc.a), j)),
        "rule for atom": (JUNK, er.B, lambda j: expr_mod.eval_f64.__setitem__(sc.Integer[sc.a], j)),
        "rule for all": (JUNK, er.B, lambda j: expr_mod.eval_f64.__setitem__(sym.AtomRule[sc.a], j)),
        "rule for heads": (JUNK, er.B, lambda j: expr_mod.eval_f64.__setitem__(sym.HeadRule(sc.a, sc.b), j)),
        "operation": (JUNK, er.B, lambda j: expr_mod.eval_f64.add_op(sc.sin, j)),
    }
    for name, op in {"x + j": lambda j: e + j, "j + x": lambda j: j + e, "x - j": lambda j: e - j, "j - x": lambda j: j - e, "x * j": lambda j: e * j, "j * x": lambda j: j * e,
                     "x / j": lambda j: e / j, "j / x": lambda j: j / e, "x ** j": lambda j: e**j, "j ** x": lambda j: j**e}.items():
        P[name] = (JUNK, er.T, op)
    return P


PLACES = [
    "expressify", "f(j)", "f(x, j)", "f(j, 1)", "Add(e, x, j)", "xreplace to", "xreplace from", "as_function", "function call", "entry", "Tree", "Tree head", "Tree argument", "Tree call",
    "Tr", "Expr", "matrix", "row", "first row", "index", "row index", "column index", "third index", "matrix +", "+ matrix", "matrix diff", "lambdify", "rule key", "rule",
    "rule for atom", "rule for all", "rule for heads", "operation", "x + j", "j + x", "x - j", "j - x", "x * j", "j * x", "x / j", "j / x", "x ** j", "j ** x",
]
AFTER = [n for n in ("diff", "xreplace", "subs", "text", "f64", "f64 none", "bin_expand", "graph", "evaluator", "matrix", "build", "llvm", "to_sympy", "core") if n in NAMES]


class World:
    def __init__(self, E, op):
        self.E, self.op = E, op
        self.floats = op in FLOATS
        self.name = E.str("name", "ident", avoid=("x", "y", "f", "g", "a", "b"))
        self.number = 5 if self.floats else E.int("number", 3)
        self.which = E.choose("of", 2) * 2
        self.W = Cas(E)
        self.specs = pool(self.name, self.number)
        self.b = self.bench()
        self.nodes = structure(self.W, self.specs)

    def bench(self):
        return Bench(self.E, self.W, self.specs[self.which], self.name, self.number, (0.75, 2.5))

    def traces(self, how):
        """Valid operations give what they give in a fresh start."""
        E, op = self.E, self.op
        unchanged(E, self.nodes, "unchanged", how)
        now = describe(self.bench(), run(self.bench(), op))
        E.renew()
        self.W = Cas(E)
        b = self.bench()
        E.check("trace", equal(E, describe(b, run(b, op)), now), lambda: f"after {how()}: {op} of {show(b.spec)} gives {now}")


@C.harness
def misplaced(E, names, kinds, after):
    """Anything that is not an expression, at every place that checks."""
    w = World(E, after[E.choose("after", len(after))])
    P = places(E, w.W, w.b)
    place = names[E.choose("place", len(names))]
    allowed, err, call = P[place]
    kind = kinds[E.choose("kind", len(kinds))]
    E.assume(kind in allowed)
    j = junk(E, w.W, w.b)[kind]
    r = E.call(lambda: call(j))
    how = lambda: f"{place} given {j!r}"
    E.check("refused", r[0] == "exc" and isinstance(r[1], err), lambda: f"{how()}: {r[1]!r}")
    r = E.call(lambda: call(j))
    E.check("refused", r[0] == "exc" and isinstance(r[1], err), lambda: f"{how()} again: {r[1]!r}")
    w.traces(how)


@C.harness
def among_many(E, n, kinds):
    """One thing that is not an expression among many that are."""
    W = Cas(E)
    x = S(E.str("name", "ident", avoid=("x", "y", "f", "g", "a", "b")))
    b = Bench(E, W, App(ADD, x, I(2)), x.value, 5, (0.75, 2.5))
    er, sc, e = Errors(E), W.sc, b.e
    good = [sc.Integer(k) for k in range(n)]
    at = [0, 1, n // 2, n - 2, n - 1][E.choose("at", 5)]
    kind = kinds[E.choose("kind", len(kinds))]
    j = junk(E, W, b)[kind]
    with_junk = [*good[:at], j, *good[at + 1 :]]
    reps = [g.rep for g in good]
    reps_junk = [*reps[:at], j, *reps[at + 1 :]]
    place = ["call", "Add", "Tree", "tree call", "row", "column", "parameters", "arguments", "short row", "counts"][E.choose("place", 10)]
    err, call, right = {
        "call": (er.X, lambda: sc.f(*with_junk), lambda: sc.f(*good)),
        "Add": (er.X, lambda: sc.Add(*with_junk), lambda: sc.Add(*good)),
        "Tree": (er.T, lambda: b.tree.Tree(*reps_junk), lambda: b.tree.Tree(*reps)),
        "tree call": (er.T, lambda: sc.f.rep(*reps_junk), lambda: sc.f.rep(*reps)),
        "row": (er.X, lambda: sc.Matrix([with_junk]), lambda: sc.Matrix([good])),
        "column": (er.X, lambda: sc.Matrix([[g] for g in with_junk]), lambda: sc.Matrix([[g] for g in good])),
        "parameters": (er.X, lambda: e.as_function(*with_junk), lambda: e.as_function(*good)),
        "arguments": (er.X, lambda: e.as_function(*good)(*with_junk), lambda: e.as_function(*good)(*good)),
        "short row": (er.T, lambda: sc.Matrix([[g] if k != at else [g, g] for k, g in enumerate(good)]), lambda: sc.Matrix([[g] for g in good])),
        "counts": (er.T, lambda: e.as_function(*good)(*good[:at], *good[at + 1 :]), lambda: e.as_function(*good)(*good)),
    }[place]
    how = lambda: f"{place} of {n} with {j!r} at {at}"
    for _ in range(2):
        r = E.call(call)
        E.check("many:refused", r[0] == "exc" and isinstance(r[1], err), lambda: f"{how()}: {r[1]!r}")
    r = E.call(right)
    E.check("many:good", r[0] == "ok", lambda: f"{how()}, then none: {r[1]!r}")


@C.harness
def indices(E, nr, nc):
    """Every pair of ints is either inside the matrix or refused."""
    W = Cas(E)
    rows = [[App(F("f"), I(10 * i + j)) if (i + j) % 2 else I(0) for j in range(nc)] for i in range(nr)]
    M = W.sc.Matrix([[W.build(s) for s in r] for r in rows])
    i, j = E.int("i"), E.int("j")
    r = E.call(lambda: M[i, j])
    inside = E.all([0 <= i, i < nr, 0 <= j, j < nc])
    if bool(inside):
        E.check("inside", r[0] == "ok" and E.any([E.all([i == k, j == m, matches(E, W, r[1].rep, rows[k][m])]) for k in range(nr) for m in range(nc)]), lambda: f"[{i}, {j}]: {r[1]!r}")
    else:
        E.check("outside", r[0] == "exc" and isinstance(r[1], IndexError), lambda: f"[{i}, {j}] of {nr}x{nc}: {r[1]!r}")


@C.harness
def counts(E, most):
    """Rows of different length, functions given a different number of arguments."""
    W = Cas(E)
    sc, e = W.sc, W.build(App(ADD, S("x"), App(F("f"), S("y"))))
    ls = [E.choose(f"row{k}", most + 1) for k in range(3)]
    v = E.int("v")
    r = E.call(lambda: sc.Matrix([[v] * n for n in ls]))
    if len(set(ls)) == 1:
        E.check("rows", r[0] == "ok" and r[1].shape == (3, ls[0]))
    else:
        E.check("rows", r[0] == "exc" and isinstance(r[1], TypeError), lambda: f"rows of {ls}: {r[1]!r}")
    ps = [W.build(S("x")), W.build(S("y")), W.build(S("z"))][: ls[0]]
    fn = e.as_function(*ps)
    r = E.call(lambda: fn(*[v] * ls[1]))
    sf = W.tree.SubsFunc(e.rep, [p.rep for p in ps])
    q = E.call(lambda: sf(*[e.rep] * ls[1]))
    if len(ps) == ls[1]:
        E.check("arguments", r[0] == "ok" and q[0] == "ok")
    else:
        E.check("arguments", r[0] == "exc" and isinstance(r[1], TypeError) and q[0] == "exc" and isinstance(q[1], TypeError), lambda: f"{ls[1]} for {len(ps)}: {r[1]!r}, {q[1]!r}")


@C.harness
def unknown(E, n, which):
    """A symbol without a value or a function without a rule, anywhere."""
    W = Cas(E)
    er = Errors(E)
    sc = W.sc
    name = E.str("name", "ident", avoid=("x", "y", "a", "b", "Add", "Mul", "pow", "sin", "cos"))
    kind = E.choose("kind", 3)
    x = S("x")
    bad = [S(name), App(F(name), x), F(name)][kind]
    hs = {"A": (ADD, (2,)), "M": (MUL, (2,)), "P": (POW, (2,)), "s": (F("sin"), (1,)), "A3": (ADD, (3,)), "c": (F("cos"), (1,))}
    root = gen_dag(E, "e", [bad, x, I(2)], [hs[h] for h in which], n, interchangeable=False)[-1]
    E.assume(any([t is bad for t in subspecs(root)]))
    e, xo = W.build(root), W.build(x)
    how = lambda: show(root)
    for label, fn, err in (
        ("f64", lambda: e.eval_f64({xo: 0.5}), er.R), ("f64", lambda: e.eval_f64({xo: 0.25}), er.R), ("compile", lambda: sc.lambdify([xo], e), er.L),
        ("compile", lambda: e.to_llvm_ir([xo]), er.L), ("compile", lambda: sc.lambdify([xo], sc.Matrix([[xo, 0], [1, e]])), er.L), ("compile", lambda: sc.Matrix([[e]]).to_llvm_ir([xo]), er.L),
        ("latex", lambda: e.eval_latex(), None), ("text", lambda: str(e), None),
    ):
        r = E.call(fn)
        if err is None:
            E.check(label, r[0] == "ok", lambda: f"{how()}: {r[1]!r}")
        else:
            E.check(label, r[0] == "exc" and isinstance(r[1], err), lambda: f"{how()}: {r[1]!r}")
    # what is left out can still be supplied, and the rest still works
    if kind == 0:
        v = E.call(lambda: e.eval_f64({xo: 0.5, W.build(bad): 0.5}))
        E.check("supplied", v[0] == "ok" or not isinstance(v[1], er.R), lambda: f"{how()}: {v[1]!r}")
        c = E.call(lambda: sc.lambdify([xo, W.build(bad)], e))
        E.check("supplied", c[0] == "ok", lambda: f"{how()}: {c[1]!r}")
    ok = E.call(lambda: (xo * xo + 2).eval_f64({xo: 0.5}))
    E.check("supplied", ok[0] == "ok" and ok[1] == 2.25)


@C.harness
def rules(E, after):
    """Refused rules leave the rules there were."""
    w = World(E, after[E.choose("after", len(after))])
    W, sc, er = w.W, w.W.sc, Errors(E)
    sym, mod = E.mod("protosym.core.sym"), E.mod("protosym.simplecas.expr")
    a, b, f = sc.a, sc.b, sc.f
    ev, D = mod.eval_f64, mod.diff
    one, two, many = sym.PyOp1(lambda p: 99.0), sym.PyOp2(lambda p, q: 99.0), sym.PyOpN(lambda ps: 99.0)
    g = W.build(F(E.str("head", "ident", avoid=("a", "b"))))
    bad = [
        lambda: ev.__setitem__(g(a), one(b)), lambda: ev.__setitem__(g(a, b), two(b, a)), lambda: ev.__setitem__(g(a), two(a, a)), lambda: ev.__setitem__(g(a, b), one(a)),
        lambda: ev.__setitem__(g(a), many(a)), lambda: ev.__setitem__(g(sym.star(a)), one(a)), lambda: ev.__setitem__(g(sym.star(a)), sym.PyFunc1(lambda p: 99.0)(a)),
        lambda: ev.__setitem__(sc.Symbol[a], one(a)), lambda: ev.__setitem__(sc.Integer[a], sym.PyFunc1(lambda p: 99.0)(b)), lambda: ev.__setitem__(sym.AtomRule[a], one(a)),
        lambda: ev.__setitem__(sym.HeadRule(a, b), two(a, b)), lambda: ev.__setitem__(sym.HeadRule(a, b), sym.HeadOp(lambda h, q: 99.0)(b, a)), lambda: ev.__setitem__(g(a), g(a)),
    ]
    badd = [lambda: D.__setitem__((g(a, a), a), a), lambda: D.__setitem__((g(b), a), b), lambda: D.__setitem__((g(a), a, a), a), lambda: D.__setitem__(g(a), a),
            lambda: D.__setitem__((sc.sin(b), a), sc.zero), lambda: D.__setitem__((sc.Mul(a, b, a), a), a)]
    k = E.choose("rule", len(bad) + len(badd))
    fn, err = (bad[k], er.B) if k < len(bad) else (badd[k - len(bad)], TypeError)
    r = E.call(fn)
    how = lambda: f"rule {k}"
    E.check("rule", r[0] == "exc" and isinstance(r[1], err), lambda: f"{how()}: {r[1]!r}")
    w.traces(how)


C.add(misplaced, f"{len(PLACES)} places given text and doubles of every value, None, a list", names=PLACES, kinds=["str", "float", "None", "list"], after=["matrix", "diff"],
      expect=("refused", "unchanged", "trace"))
C.add(misplaced, f"{len(PLACES)} places given 11 other kinds of object", names=PLACES, kinds=[k for k in JUNK if k not in ("str", "float", "None", "list")], after=["build"], expect=("refused",))
C.add(misplaced, "8 places, then each of 14 operations", names=["f(x, j)", "xreplace to", "entry", "Tree argument", "rule", "rule key", "x + j", "lambdify"], kinds=["str", "object"], after=AFTER, expect=("trace",))
C.add(among_many, "one of 40 that is no expression, at five places", n=40, kinds=JUNK, expect=("many:refused", "many:good"))
C.add(indices, "every two ints, 2x3", nr=2, nc=3, expect=("inside", "outside"))
C.add(indices, "every two ints, 3x1", nr=3, nc=1, expect=("inside", "outside"))
C.add(counts, "three rows of 0 to 3 entries; 0 to 3 arguments", most=3, expect=("rows", "arguments"))
C.add(unknown, "a symbol or function of every other name, in 2 compound nodes of 4 kinds", n=2, which=["A", "M", "P", "s"], expect=("f64", "compile", "supplied"))
C.add(rules, "19 rules refused, for every head, then each of 14 operations", after=AFTER, expect=("rule", "trace", "unchanged"))
C.deep(misplaced, "every place and kind, then each of 14 operations", names=PLACES, kinds=JUNK, after=AFTER)
C.deep(unknown, "a symbol or function of every other name, in 3 compound nodes", n=3, which=["A", "s", "P"])
C.outside = ["places that do not check what they are given and fail in some other way (an attribute the value lacks): the variable of Expr.diff and the number of times, keys of eval_f64's values, arguments of lambdify, "
             "Evaluator and topological_sort on what is not a Tree, from_sympy of what is not a SymPy object, the parts of a differentiation rule", "bool as int; atom values of the wrong Python type"]
