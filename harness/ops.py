"""A catalogue of operations on expressions (shared by C28, C29, C30).

An operation takes a Bench (an expression built in the current instance of
the package, some further values) and returns its result; the lists, dicts
and sets it passes to the package go through Bench.give, which remembers what
they held.
"""

from harness.calc import *  # noqa: F403


class Bench:
    def __init__(self, E, W, spec, name, number, values):
        self.E, self.W, self.sc = E, W, W.sc
        self.tree = E.mod("protosym.core.tree")
        self.spec = spec
        self.e = W.build(spec)
        self.x = W.build(S("x"))
        self.s = W.build(S(name))
        self.i = W.build(I(number))
        self.values = values
        self.given = []
        self.sympy_ok = True

    def give(self, c):
        """Remember what a container passed to the package holds."""
        copy = list(c.items()) if isinstance(c, dict) else list(c)
        self.given.append((c, copy))
        return c

    def intact(self):
        for c, copy in self.given:
            now = list(c.items()) if isinstance(c, dict) else list(c)
            if len(now) != len(copy):
                return False
            for a, b in zip(now, copy):
                if isinstance(c, dict):
                    if not (a[0] is b[0] and a[1] is b[1]):
                        return False
                elif a is not b:
                    return False
        return True

    def spoil_given(self):
        for c, _ in self.given:
            spoil(c)
        self.given = []

    @property
    def point(self):
        return {self.x: self.values[0], self.s: self.values[1]}


def spoil(r):
    """Modify a returned container in place."""
    if isinstance(r, list):
        for x in r:
            spoil(x)
        r.append("spoilt")
        if len(r) > 1:
            r[0] = "spoilt"
    elif isinstance(r, dict):
        r.clear()
    elif isinstance(r, set):
        r.clear()
    elif isinstance(r, tuple):
        for x in r:
            spoil(x)
    elif hasattr(r, "operations") and hasattr(r, "atoms"):
        spoil(r.operations)
        spoil(r.atoms)
        spoil(r.heads)
    elif hasattr(r, "shape") and hasattr(r, "__setitem__"):
        n, m = r.shape
        for i in range(n):
            for j in range(m):
                r[i, j] = 77


def describe(b, r):
    """The result, detached from the instance of the package that made it."""
    W, sc = b.W, b.sc
    if isinstance(r, BaseException):
        return ("raised", type(r).__name__)
    if r is None or isinstance(r, bool) or type(r) is bool:
        return ("is", r)
    if isinstance(r, sc.Expr):
        return ("spec", tree_spec(W, r.rep))
    if isinstance(r, b.tree.Tree):
        return ("spec", tree_spec(W, r))
    if isinstance(r, str):
        return ("str", r)
    if isinstance(r, float):
        return ("float", r)
    if isinstance(r, int):
        return ("int", r)
    if isinstance(r, (list, tuple)):
        return ("list", [describe(b, x) for x in r])
    if isinstance(r, (set, frozenset)):
        on, b.E.set_order_symbolic = b.E.set_order_symbolic, False
        xs = list(r)
        b.E.set_order_symbolic = on
        return ("set", [describe(b, x) for x in xs])
    if isinstance(r, dict):
        return ("dict", [describe(b, (k, v)) for k, v in r.items()])
    if isinstance(r, sc.Matrix):
        n, m = r.shape
        return ("list", [("int", n), ("int", m), ("list", [describe(b, r[i, j]) for i in range(n) for j in range(m)]), describe(b, r.tolist())])
    if hasattr(r, "operations") and hasattr(r, "atoms"):
        return ("list", [describe(b, r.atoms), describe(b, r.heads), describe(b, r.operations)])
    if hasattr(r, "is_Matrix") and r.is_Matrix:
        return ("list", [("int", r.rows), ("int", r.cols), ("list", [("sympy", r[i, j]) for i in range(r.rows) for j in range(r.cols)])])
    if hasattr(r, "is_Symbol"):
        return ("sympy", r)
    if hasattr(r, "dtype"):
        n, m = r.shape
        return ("list", [("int", n), ("int", m), ("list", [("float", r[i, j] if b.E.symbolic else float(r[i, j])) for i in range(n) for j in range(m)])])
    raise AssertionError(f"cannot describe {type(r)}")


def equal(E, a, b):
    """Formula: two descriptions are of the same result."""
    if a[0] != b[0]:
        return False
    p, q = a[1], b[1]
    if a[0] == "spec":
        return same_spec(E, p, q)
    if a[0] == "float":
        return E.flt_same(p, q)
    if a[0] in ("list", "dict"):
        return len(p) == len(q) and E.all([equal(E, s, t) for s, t in zip(p, q)])
    if a[0] == "set":
        return len(p) == len(q) and E.all([E.any([equal(E, s, t) for t in q]) for s in p])
    return p == q


def stable(b, fn):
    """The result of fn, which stays the same when the last one is modified."""
    r = fn()
    d = describe(b, r)
    spoil(r)
    q = b.E.call(lambda: describe(b, fn()))
    b.E.check("stable", q[0] == "ok" and equal(b.E, d, q[1]), lambda: f"modifying a result of {show(b.spec)} changes the next from {d} to {q[1]!r}")
    return fn()


def each(b, *fns):
    return [b.E.call(fn)[1] for fn in fns]


# -- the operations ---------------------------------------------------------


def _fields(b):
    return b.tree


def _sorted(b):
    return b.tree.topological_sort(b.e.rep, heads=True)


def _sorted_plain(b):
    return b.tree.topological_sort(b.e.rep)


def _exclude(b):
    return b.tree.topological_sort(b.e.rep, exclude=b.give({b.x.rep, b.s.rep, b.sc.sin(b.x).rep}))


def _subs(b):
    params = b.give([b.x.rep, b.s.rep])
    fn = b.tree.SubsFunc(b.e.rep, params)
    assert b.intact()
    b.spoil_given()
    r = fn(b.s.rep, b.x.rep)
    return [r, fn(b.x.rep, b.i.rep), fn(b.s.rep, b.x.rep)]


def _function(b):
    fn = b.e.as_function(b.x, b.s)
    return [fn(b.s, 2), fn(b.x + 1, b.x), fn(b.s, 2)]


def _values(b, ev):
    d = b.give(b.point)
    r = ev(d)
    if not b.intact():
        raise AssertionError("values changed")
    b.spoil_given()
    return r


def _evaluator(b):
    """A new evaluator of the user's own."""
    sc = b.sc
    a = sc.a
    sym = b.E.mod("protosym.core.sym")
    ev = sc.Expr.new_evaluator("mine", str)
    ev[sc.Integer[a]] = sym.PyFunc1[int, str](lambda n: "I")(a)
    ev[sc.Symbol[a]] = sym.PyFunc1[str, str](lambda n: n)(a)
    ev[sym.HeadRule(a, sc.b)] = sym.HeadOp[str](lambda h, xs: "(" + ",".join(xs) + ")")(a, sc.b)
    ev[sc.sin(a)] = sym.PyOp1[str](lambda x: "S" + x)(a)
    d = b.give({b.x: "X"})
    r = [ev(b.e), ev(b.e, d), ev(b.e)]
    if not b.intact():
        raise AssertionError("values changed")
    return r


def _core(b):
    """Core Evaluator, iterative and recursive."""
    ev = b.E.mod("protosym.core.evaluate").Evaluator()
    ev.add_atom_generic(lambda v: 1)
    ev.add_op_generic(lambda h, xs: 1 + sum(xs))
    ev.add_op1(b.sc.sin.rep, lambda x: x * 3)
    d = b.give({b.x.rep: 7})
    r = [ev.eval_forward(b.e.rep, d), ev.eval_recursive(b.e.rep, d), ev(b.e.rep, d), ev(b.e.rep), ev.evaluate(b.e.rep, d)]
    if not b.intact():
        raise AssertionError("values changed")
    return r


def _transformer(b):
    tr = b.E.mod("protosym.core.evaluate").Transformer()
    sc = b.sc
    tr.add_opn(sc.Add.rep, lambda xs: sc.Mul.rep(*reversed(xs)))
    tr.add_op1(sc.sin.rep, lambda x: x)
    return [tr(b.e.rep), tr(b.e.rep)]


def _differentiator(b):
    sc = b.sc
    D = b.E.mod("protosym.core.sym").SymDifferentiator(sc.Expr, add=sc.Add, mul=sc.Mul, zero=sc.zero, one=sc.one)
    D[sc.sin(sc.a), sc.a] = sc.sin(sc.a)
    D[sc.f(sc.a, sc.b), sc.b] = sc.b + sc.a
    D.add_distributive_rule(sc.List)
    return D(b.e, b.x)


def _lambdify(b):
    args = b.give([b.x, b.s])
    f = b.sc.lambdify(args, b.e)
    if not b.intact():
        raise AssertionError("arguments changed")
    b.spoil_given()
    return [f(*b.values), f(*b.values[::-1]), f(*b.values)]


def _matrix(b):
    rows = b.give([b.e, 0, b.s])
    outer = b.give([rows, [0, b.x, 3]])
    M = b.sc.Matrix(outer)
    if not b.intact():
        raise AssertionError("entries changed")
    b.spoil_given()
    return M


def _matrix_ops(b):
    M = _matrix(b)
    N = b.sc.Matrix([[0, b.x, b.e], [b.s, 0, 0]])
    before = describe(b, [M, N])
    r = each(b, lambda: M + M, lambda: M + N, lambda: repr(M), lambda: N.binop(M, b.sc.Mul), lambda: M.binop(N, lambda p, q: b.sc.zero), lambda: M.diff(b.x) + N)
    after = b.E.call(lambda: describe(b, [M, N]))
    b.E.check("stable", after[0] == "ok" and equal(b.E, before, after[1]), lambda: f"operations on matrices of {show(b.spec)} changed {before} to {after[1]!r}")
    return r + [stable(b, M.tolist), M[0, 0], M]


def _matrix_lambdify(b):
    M = _matrix(b)
    f = b.sc.lambdify([b.x, b.s], M)
    return stable(b, lambda: f(*b.values))


def _from_sympy(b):
    return b.sc.Expr.from_sympy(b.e.to_sympy())


def _matrix_sympy(b):
    M = _matrix(b)
    o = stable(b, M.to_sympy)
    N = b.sc.Matrix.from_sympy(o)
    return [M.to_sympy(), N, N + M]


def _build(b):
    """Arithmetic on the expression, and its parts."""
    e = b.e
    r = [e + 1, 2 * e, -e, e**e, e - e, 1 / e, e(b.x), e.rep.children and e.args, e.rep.children and e.head]
    return r


def _funcs(b):
    T = b.E.mod("protosym.core.atom").AtomType
    return [list(x) and len(x) for x in b.tree.funcs_symbols(["f"], ["x", "y"])] + [T("Integer", int) is b.W.kinds["Integer"]]


def _bad_rule(b):
    """Rules that are refused."""
    sc = b.sc
    sym = b.E.mod("protosym.core.sym")
    ev = sc.eval_f64 if hasattr(sc, "eval_f64") else b.E.mod("protosym.simplecas.expr").eval_f64
    r = b.E.call(lambda: ev.__setitem__(sc.sin(sc.a), sym.PyOp1[float](lambda v: 0.0)(sc.b)))
    D = b.E.mod("protosym.simplecas.expr").diff
    q = b.E.call(lambda: D.__setitem__((sc.f(sc.a, sc.a), sc.a), sc.a))
    return [r[0] == "ok" or r[1], q[0] == "ok" or q[1]]


OPS = {
    "diff": lambda b: b.e.diff(b.x),
    "diff2": lambda b: b.e.diff(b.x, 2),
    "diff s": lambda b: b.e.diff(b.s),
    "xreplace": lambda b: [b.e.xreplace(b.give({b.x: b.s, b.s: b.x + 1})), b.e.xreplace(b.give({b.e: b.x}))],
    "function": _function,
    "subs": _subs,
    "text": lambda b: [str(b.e), repr(b.e), repr(b.e.rep), str(b.e.rep)],
    "latex": lambda b: [b.e.eval_latex(), b.e._repr_latex_()],
    "f64": lambda b: _values(b, b.e.eval_f64),
    "f64 swapped": lambda b: [b.e.eval_f64({b.x: b.values[1], b.s: b.values[0]}), b.e.eval_f64(b.point)],
    "f64 none": lambda b: b.e.eval_f64(),
    "counts": lambda b: [b.e.count_ops_graph(), b.e.count_ops_tree()],
    "bin_expand": lambda b: b.e.bin_expand(),
    "to_sympy": lambda b: b.e.to_sympy(),
    "from_sympy": _from_sympy,
    "lambdify": _lambdify,
    "lambdify swapped": lambda b: b.sc.lambdify([b.s, b.x], b.e)(*b.values),
    "llvm": lambda b: b.e.to_llvm_ir(b.give([b.x, b.s])),
    "llvm none": lambda b: b.e.to_llvm_ir(b.give([])),
    "sort": lambda b: stable(b, lambda: _sorted_plain(b)),
    "sort heads": lambda b: stable(b, lambda: _sorted(b)),
    "sort exclude": lambda b: stable(b, lambda: _exclude(b)),
    "split": lambda b: stable(b, lambda: b.tree.topological_split(b.e.rep)),
    "graph": lambda b: stable(b, lambda: b.tree.forward_graph(b.e.rep)),
    "evaluator": _evaluator,
    "core": _core,
    "transformer": _transformer,
    "differentiator": _differentiator,
    "matrix": _matrix_ops,
    "matrix diff": lambda b: [_matrix(b).diff(b.x), _matrix(b).diff(b.s) + _matrix(b)],
    "matrix lambdify": _matrix_lambdify,
    "matrix llvm": lambda b: _matrix(b).to_llvm_ir(b.give([b.s, b.x])),
    "matrix sympy": _matrix_sympy,
    "build": _build,
    "funcs": _funcs,
    "bad rule": _bad_rule,
}


def run(b, name):
    """Result of an operation, or what it raised."""
    r = b.E.call(lambda: OPS[name](b))
    if r[0] == "exc" and isinstance(r[1], AssertionError):
        raise r[1]
    return r[1]
