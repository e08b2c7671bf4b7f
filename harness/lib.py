"""Specifications of expressions, builders, oracles (shared by all harnesses).

A *spec* describes an expression independently of the package: nested Leaf/App
descriptors whose leaf values may be symbolic.  Harnesses build the real
expression from a spec through the public API and judge what the package does
against the spec.  Nothing here imports z3: the same harness runs under the
symbolic engine and, for replays, under the concrete one.
"""

from __future__ import annotations

import sys

RESERVED = ("Add", "Mul", "pow", "sin", "cos", "List")


class Leaf:
    __slots__ = ("kind", "value")

    def __init__(self, kind, value):
        self.kind = kind
        self.value = value

    def __repr__(self):
        return f"{self.kind}({self.value!r})"


class App:
    __slots__ = ("head", "args")

    def __init__(self, head, *args):
        self.head = head
        self.args = tuple(args)

    @property
    def parts(self):
        return (self.head, *self.args)

    def __repr__(self):
        return f"{self.head!r}{self.args!r}"


def I(n):  # noqa: E743
    return Leaf("Integer", n)


def S(name):
    return Leaf("Symbol", name)


def F(name):
    return Leaf("Function", name)


# --------------------------------------------------------------------------
# core-level worlds: atom kinds made here
# --------------------------------------------------------------------------


class Core:
    """Builds specs as core Trees."""

    KINDS = ("Integer", "Symbol", "Function")

    def __init__(self, E):
        self.E = E
        self.atom = E.mod("protosym.core.atom")
        self.tree = E.mod("protosym.core.tree")
        A = self.atom.AtomType
        self.kinds = {
            "Integer": A("Integer", int),
            "Symbol": A("Symbol", str),
            "Function": A("Function", str),
        }
        self.memo = {}

    def kind_of(self, t):
        at = t.value.atom_type
        for k, v in self.kinds.items():
            if v is at:
                return k
        return None

    def build(self, s):
        if id(s) in self.memo:
            return self.memo[id(s)][0]
        if type(s) is Leaf:
            r = self.tree.Tr(self.kinds[s.kind](s.value))
        else:
            r = self.tree.Tree(*[self.build(p) for p in s.parts])
        self.memo[id(s)] = (r, s)
        return r

    def heads(self, *names):
        return [F(n) for n in names]


class Cas(Core):
    """Builds specs as simplecas Expr (reps are core Trees)."""

    def __init__(self, E):
        self.E = E
        self.sc = sc = E.mod("protosym.simplecas")
        self.tree = E.mod("protosym.core.tree")
        self.kinds = {
            "Integer": sc.Integer.atom_type,
            "Symbol": sc.Symbol.atom_type,
            "Function": sc.Function.atom_type,
        }
        self.mk = {"Integer": sc.Integer, "Symbol": sc.Symbol, "Function": sc.Function}
        self.memo = {}

    def build(self, s):
        if id(s) in self.memo:
            return self.memo[id(s)][0]
        if type(s) is Leaf:
            r = self.mk[s.kind](s.value)
        else:
            h = self.build(s.head)
            r = h(*[self.build(a) for a in s.args])
        self.memo[id(s)] = (r, s)
        return r


# --------------------------------------------------------------------------
# structural comparison
# --------------------------------------------------------------------------


def values_equal(E, kind, a, b):
    if kind == "Integer":
        if isinstance(a, str) or isinstance(b, str):
            return False
        return a == b
    if not isinstance(a, str) or not isinstance(b, str):
        return False
    return a == b


def same_spec(E, a, b, memo=None):
    """Formula: the two specs denote the same structure."""
    memo = {} if memo is None else memo
    if a is b:
        return True
    key = (id(a), id(b))
    if key in memo:
        return memo[key]
    if type(a) is not type(b):
        r = False
    elif type(a) is Leaf:
        r = a.kind == b.kind and values_equal(E, a.kind, a.value, b.value)
    elif len(a.args) != len(b.args):
        r = False
    else:
        r = E.all([same_spec(E, p, q, memo) for p, q in zip(a.parts, b.parts)])
    memo[key] = r
    return r


def matches(E, W, tree, spec, memo=None):
    """Formula: a core Tree has exactly the structure of the spec."""
    memo = {} if memo is None else memo
    key = (id(tree), id(spec))
    if key in memo:
        return memo[key]
    ch = tree.children
    if type(spec) is Leaf:
        if len(ch):
            r = False
        else:
            v = tree.value
            r = v.atom_type is W.kinds[spec.kind] and values_equal(
                E, spec.kind, v.value, spec.value
            )
    elif len(ch) != len(spec.parts):
        r = False
    else:
        r = E.all([matches(E, W, c, p, memo) for c, p in zip(ch, spec.parts)])
    memo[key] = r
    return r


def show(spec, depth=6):
    if type(spec) is Leaf:
        return f"{spec.value}"
    if depth == 0:
        return "..."
    return f"{show(spec.head)}({', '.join(show(a, depth - 1) for a in spec.args)})"


# --------------------------------------------------------------------------
# generators
# --------------------------------------------------------------------------


def gen_dag(E, name, leaves, heads, n, interchangeable=True, must_use=True, repeat=True):
    """n compound nodes over the leaves; heads = [(spec, (arities...))].

    Arguments range over every earlier node, so every sharing pattern within
    the bound occurs.  Leaves of one kind are used in order of first use.
    The last node is the root; every other compound node is used.
    """
    comps = []
    used_leaf = 0
    unused = set()
    maxar = max(max(ar) for _, ar in heads)
    for k in range(n):
        h, ars = heads[E.choose(f"{name}.h{k}", len(heads))]
        ar = ars[E.choose(f"{name}.n{k}", len(ars))]
        args = []
        for j in range(ar):
            nl = min(len(leaves), used_leaf + 1) if interchangeable else len(leaves)
            pick = E.choose(f"{name}.a{k}.{j}", nl + len(comps))
            if pick < nl:
                args.append(leaves[pick])
                used_leaf = max(used_leaf, pick + 1)
            else:
                args.append(comps[pick - nl])
                unused.discard(pick - nl)
        comps.append(App(h, *args))
        if must_use:
            if k < n - 1:
                unused.add(k)
            if len(unused) > maxar + (n - 2 - k) * (maxar - 1) or (
                k == n - 1 and unused
            ):
                E.assume(False)
    return comps


def gen_ints(E, name, n, lo=None, hi=None):
    return [I(E.int(f"{name}{i}", lo, hi)) for i in range(n)]


def gen_syms(E, name, n, kind="ident", avoid=("x", "y"), maxlen=None):
    return [S(E.str(f"{name}{i}", kind, maxlen, avoid)) for i in range(n)]


def distinct(E, leaves):
    """Assume leaf values of the same kind pairwise different."""
    for i, a in enumerate(leaves):
        for b in leaves[:i]:
            if a.kind == b.kind:
                E.assume(E.not_(values_equal(E, a.kind, a.value, b.value)))


def subspecs(spec):
    """Distinct subspec objects, children first (heads included)."""
    out, seen = [], set()
    stack = [(spec, False)]
    while stack:
        s, done = stack.pop()
        if done:
            out.append(s)
            continue
        if id(s) in seen:
            continue
        seen.add(id(s))
        stack.append((s, True))
        if type(s) is App:
            for p in reversed(s.parts):
                stack.append((p, False))
    return out


def classes(E, specs):
    """Representatives of the distinct structures among specs (forks on equality)."""
    reps = []
    for s in specs:
        for r in reps:
            c = same_spec(E, s, r)
            if c is True or (c is not False and bool(c)):
                break
        else:
            reps.append(s)
    return reps


# --------------------------------------------------------------------------
# exact denotation
# --------------------------------------------------------------------------


def den_fn(E, name, args):
    if name == "Add":
        r = E.real_of_int(0)
        for a in args:
            r = r + a
        return r
    if name == "Mul":
        r = E.real_of_int(1)
        for a in args:
            r = r * a
        return r
    return None


def den_spec(E, s, memo=None):
    """Exact value of a spec; symbols and unknown functions uninterpreted."""
    memo = {} if memo is None else memo
    if id(s) in memo:
        return memo[id(s)]
    if type(s) is Leaf:
        if s.kind == "Integer":
            r = E.real_of_int(s.value)
        elif s.kind == "Symbol":
            r = E.ufs("symval", [s.value])
        else:
            r = E.ufs("fnval", [s.value])
    else:
        args = [den_spec(E, a, memo) for a in s.args]
        r = None
        if type(s.head) is Leaf and s.head.kind == "Function":
            if not E.is_symbolic(s.head.value):
                r = den_fn(E, s.head.value, args)
        if r is None:
            r = E.uf(f"apply{len(args)}", den_spec(E, s.head, memo), *args)
    memo[id(s)] = r
    return r


def den_tree(E, W, t, memo=None):
    """Exact value of a core Tree made by the package."""
    memo = {} if memo is None else memo
    if id(t) in memo:
        return memo[id(t)][0]
    if not t.children:
        v = t.value
        k = W.kind_of(t)
        if k == "Integer":
            r = E.real_of_int(v.value)
        elif k == "Symbol":
            r = E.ufs("symval", [v.value])
        elif k == "Function":
            r = E.ufs("fnval", [v.value])
        else:
            r = E.ufs("odd." + v.atom_type.name, [v.value])
    else:
        h = t.children[0]
        args = [den_tree(E, W, c, memo) for c in t.children[1:]]
        r = None
        if not h.children and W.kind_of(h) == "Function":
            if not E.is_symbolic(h.value.value):
                r = den_fn(E, h.value.value, args)
        if r is None:
            r = E.uf(f"apply{len(args)}", den_tree(E, W, h, memo), *args)
    memo[id(t)] = (r, t)
    return r


# --------------------------------------------------------------------------
# measuring
# --------------------------------------------------------------------------


class Budget(Exception):
    pass


def _in_pkg(frame):
    fn = frame.f_code.co_filename
    return "/protosym/" in fn


def measure(fn, limit=None):
    """(result, calls, depth): package calls made and maximal package depth."""
    old = sys.getprofile()
    st = [0, 0, 0]

    def prof(frame, event, arg):
        if event == "call":
            if _in_pkg(frame):
                st[0] += 1
                st[1] += 1
                if st[1] > st[2]:
                    st[2] = st[1]
                if limit is not None and st[0] > limit:
                    sys.setprofile(None)
                    raise Budget(st[0])
        elif event == "return":
            if _in_pkg(frame):
                st[1] -= 1

    sys.setprofile(prof)
    try:
        r = fn()
    finally:
        sys.setprofile(old)
    return r, st[0], st[2]


BIG = [(6, 7), (7, 6), (1, 36), (36, 1), (3, 12)]
FILLS = ["dense", "one", "hole", "triangle", "checks", "sparse", "empty", "alike"]


def big_rows(E, name, nr, nc, entry, fills=FILLS):
    """A matrix too large for every pattern: some typical ones; entry(k) for the k-th place, or 0."""
    fill = fills[E.choose(name + ".fill", len(fills))]
    spots = [(0, 0), (0, nc - 1), (nr - 1, 0), (nr - 1, nc - 1), (nr // 2, nc // 2)]
    at = spots[E.choose(name + ".at", 5)] if fill in ("one", "hole") else None

    def holds(i, j):
        return {
            "dense": True, "alike": True, "empty": False, "one": (i, j) == at, "hole": (i, j) != at, "triangle": j >= i if nr <= nc else i >= j,
            "checks": (i + j) % 2 == 0, "sparse": (i * nc + j) % 5 == 3,
        }[fill]

    return [[(entry(0 if fill == "alike" else i * nc + j) if holds(i, j) else I(0)) for j in range(nc)] for i in range(nr)]
