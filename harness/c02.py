"""C02: concurrent construction still yields a single object.

Decided by px/races.py: the store operations each constructor performs are
collected from the current source, for every outcome other threads can give
them, and the solver searches all interleavings.
"""

from px.registry import Check

CHECK = C = Check("C02", __name__)


class Setup:
    """Fixed parts, and what the threads build from them."""

    def __init__(self):
        self.ops = {}
        self.checks = {}
        self.keep = []

    def op(self, name, build, check):
        self.ops[name] = build
        self.checks[name] = check


class Want:
    """A field's value has to satisfy a check of its own."""

    def __init__(self, check):
        self.check = check


def whole(obj, cls, **fields):
    """None, or what is wrong with a constructed object."""
    if not isinstance(obj, cls):
        return f"a {type(obj).__name__} instead of a {cls.__name__}"
    for k, v in fields.items():
        try:
            w = getattr(obj, k)
        except AttributeError:
            return f"{cls.__name__} without its {k}"
        if isinstance(v, Want):
            p = v.check(w)
            if p:
                return f"{k}: {p}"
        elif isinstance(v, tuple) and isinstance(w, tuple):
            if len(v) != len(w) or any(a is not b for a, b in zip(v, w)):
                return f"{k} is {w!r}"
        elif w is not v and (isinstance(v, (type(None),)) or w != v):
            return f"{k} is {w!r} instead of {v!r}"
    return None


def _atom_check(K, value):
    from protosym.core.atom import Atom

    return lambda a: whole(a, Atom, atom_type=K, value=value)


def _leaf_check(inner):
    from protosym.core.tree import Tree

    return lambda t: whole(t, Tree, children=(), value=Want(inner))


def atom(n=0):
    from protosym.core.atom import AtomType

    s = Setup()
    K, L = AtomType("K", str), AtomType("K", str)
    s.op("K('a')", lambda: K("a"), _atom_check(K, "a"))
    s.op("K('b')", lambda: K("b"), _atom_check(K, "b"))
    s.op("L('a')", lambda: L("a"), _atom_check(L, "a"))
    return s


def leaf(n=0):
    from protosym.core.atom import AtomType
    from protosym.core.tree import Tr

    s = Setup()
    K = AtomType("K", str)
    a, b = K("a"), K("b")
    s.op("Tr(a)", lambda: Tr(a), _leaf_check(lambda v: None if v is a else repr(v)))
    s.op("Tr(b)", lambda: Tr(b), _leaf_check(lambda v: None if v is b else repr(v)))
    return s


def compound(n=0):
    from protosym.core.atom import AtomType
    from protosym.core.tree import Tr, Tree

    s = Setup()
    K = AtomType("K", str)
    f, x, y = (Tr(K(c)) for c in "fxy")
    s.op("f(x, y)", lambda: f(x, y), lambda t: whole(t, Tree, children=(f, x, y)))
    s.op("f(y, x)", lambda: f(y, x), lambda t: whole(t, Tree, children=(f, y, x)))
    s.op("f()", lambda: f(), lambda t: whole(t, Tree, children=(f,)))
    return s


def wrapped(n=0):
    from protosym.core.atom import AtomType
    from protosym.core.sym import Sym
    from protosym.core.tree import Tr
    from protosym.simplecas.expr import Expr

    s = Setup()
    K = AtomType("K", str)
    x, y = Tr(K("x")), Tr(K("y"))
    s.op("Sym(x)", lambda: Sym(x), lambda e: whole(e, Sym, rep=x))
    s.op("Sym(y)", lambda: Sym(y), lambda e: whole(e, Sym, rep=y))
    s.op("Expr(x)", lambda: Expr(x), lambda e: whole(e, Expr, rep=x))
    return s


def symbol(n=0):
    """From a name to an expression object: three stores."""
    from protosym.core.atom import Atom
    from protosym.core.sym import Sym
    from protosym.core.tree import Tree

    s = Setup()
    K = Sym.new_atom("K", str)

    def check(name):
        at = lambda a: whole(a, Atom, value=name)
        tree = lambda t: whole(t, Tree, children=(), value=Want(at))
        return lambda e: whole(e, Sym, rep=Want(tree))

    s.op("K('a')", lambda: K("a"), check("a"))
    s.op("K('b')", lambda: K("b"), check("b"))
    return s


def call(n=0):
    """An expression from expressions: two stores."""
    from protosym.core.tree import Tree
    from protosym.simplecas.expr import Expr
    from protosym.core.sym import Sym

    s = Setup()
    K = Expr.new_atom("K", str)
    f, x, y = K("f"), K("x"), K("y")
    s.keep += [f, x, y]

    def check(*parts):
        tree = lambda t: whole(t, Tree, children=tuple(p.rep for p in parts))
        return lambda e: whole(e, Expr, rep=Want(tree))

    s.op("f(x, y)", lambda: f(x, y), check(f, x, y))
    s.op("f(y, x)", lambda: f(y, x), check(f, y, x))
    return s


def plus(n=0):
    from protosym.core.tree import Tree
    from protosym.simplecas.expr import Expr
    from protosym.simplecas.functions import Add

    s = Setup()
    K = Expr.new_atom("K", str)
    x, y = K("x"), K("y")
    s.keep += [x, y]

    def check(*parts):
        tree = lambda t: whole(t, Tree, children=tuple(p.rep for p in parts))
        return lambda e: whole(e, Expr, rep=Want(tree))

    s.op("x + y", lambda: x + y, check(Add, x, y))
    s.op("y + x", lambda: y + x, check(Add, y, x))
    return s


SETUPS = {
    f.__name__: f for f in (atom, leaf, compound, wrapped, symbol, call, plus)
}

# scenario: setup, the operation of each thread, tier
SCENARIOS = [
    ("atom", ("K('a')", "K('a')"), "quick"),
    ("atom", ("K('a')", "K('a')", "K('a')"), "quick"),
    ("atom", ("K('a')", "K('b')"), "quick"),
    ("atom", ("K('a')", "L('a')", "K('a')"), "quick"),
    ("leaf", ("Tr(a)", "Tr(a)"), "quick"),
    ("leaf", ("Tr(a)", "Tr(a)", "Tr(a)"), "quick"),
    ("leaf", ("Tr(a)", "Tr(b)"), "quick"),
    ("compound", ("f(x, y)", "f(x, y)"), "quick"),
    ("compound", ("f(x, y)", "f(x, y)", "f(x, y)"), "quick"),
    ("compound", ("f(x, y)", "f(y, x)"), "quick"),
    ("compound", ("f()", "f()"), "quick"),
    ("wrapped", ("Sym(x)", "Sym(x)"), "quick"),
    ("wrapped", ("Sym(x)", "Sym(x)", "Sym(x)"), "quick"),
    ("wrapped", ("Sym(x)", "Expr(x)"), "quick"),
    ("wrapped", ("Expr(x)", "Expr(x)"), "quick"),
    ("wrapped", ("Sym(x)", "Sym(y)"), "quick"),
    ("call", ("f(x, y)", "f(x, y)"), "quick"),
    ("plus", ("x + y", "x + y"), "quick"),
    ("symbol", ("K('a')", "K('a')"), "thorough"),
    ("atom", ("K('a')", "K('a')", "K('a')", "K('a')"), "thorough"),
    ("compound", ("f(x, y)", "f(x, y)", "f(y, x)"), "thorough"),
    ("call", ("f(x, y)", "f(y, x)"), "thorough"),
    ("call", ("f(x, y)", "f(x, y)", "f(x, y)"), "thorough"),
    ("plus", ("x + y", "y + x"), "thorough"),
]

C.outside = [
    "more threads than stated, or more than one construction per thread (plus one afterwards)",
    "preemption inside a single operation of a built-in dict (the GIL makes it atomic); builds of Python without the GIL",
    "shared state other than weak dictionaries, module and class level dicts, rebound globals, rebound class attributes and locks",
]
C.assumptions = [
    "one operation on one key of a built-in dict is atomic; everything between two such operations is local to its thread",
    "the results stay referenced until all threads are done",
]


def _run(check, tier, seed, budget, args):
    from px import races

    return races.main(check, tier, seed, budget, args)


C.custom = _run
