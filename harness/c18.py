"""C18: low-level repr and str show the structure faithfully."""

from harness.texts import *  # noqa: F403
from px.registry import Check

CHECK = Check("C18", __name__)
C = CHECK

ODD = ["", "'", '"', "'\"", "\\", "\\'", "a'b", "\n", "\t", "\x00", "\xe9", "\u03b1", "\U0001f600", "Tr(Integer(1))", "1", " ", "a, b",
       "x)", "{}", "%s", "\ud800", "None"]


def scope(E, W):
    d = {"Tr": W.tree.Tr, "Tree": W.tree.Tree}
    for k in ("Integer", "Symbol", "Function"):
        d[k] = W.kinds[k]
    return d


def judge(E, obj, sc, label, text=None):
    """repr evaluates to the very same object."""
    if text is None:
        r = E.call(lambda: repr(obj))
        E.check(label + ":prints", r[0] == "ok" and isinstance(r[1], str), lambda: f"{r[1]!r}")
        text = r[1]
    try:
        t, names = python_reading(E, text)
        got, cond = eval_repr_text(E, t, names, sc)
    except (SyntaxError, NotRepr) as err:
        E.check(label, False, f"{text}: {err}")
    E.check(label + ":text", cond, lambda: text)
    E.check(label, got is obj, lambda: f"{text} is not the object")


def low(E, W, s, obj, label):
    r = E.call(lambda: str(obj))
    E.check(label + ":prints", r[0] == "ok" and isinstance(r[1], str), lambda: f"{r[1]!r}")
    try:
        n = Reader(E, r[1]).read()
    except Unreadable as err:
        E.check(label, False, f"{r[1]}: {err}")
    E.check(label, reads_as(E, n, s, low=True), lambda: f"{show(s)} prints as {r[1]}")


def world(E, level):
    return Core(E) if level == "core" else Cas(E)


@C.harness
def trees(E, n, leaves, level, names="any", heads="fg"):
    """Every tree of n compound nodes, repr and str."""
    W = world(E, level)
    nm = [E.str(k, names) for k in ("x", "y")]
    ls = [S(nm[0]), I(E.int("i")), S(nm[1]), F("f")][:leaves]
    table = {"f": (F("f"), (0, 1, 2)), "f2": (F("f"), (2,)), "g": (F("g"), (1,)), "A": (F("Add"), (2, 3)), "M": (F("Mul"), (2,)),
             "P": (F("pow"), (2,)), "D": (App(F("D"), ls[0]), (1, 2)), "x": (ls[0], (1,)), "i": (I(3), (1,)), "z": (F("z"), (0,)),
             "DD": (App(App(F("D")), F("f")), (0, 1))}
    s = gen_dag(E, "p", ls, [table[h] for h in heads], n, interchangeable=False)[-1]
    obj = W.build(s)
    t = obj if level == "core" else obj.rep
    judge(E, t, scope(E, W), "repr")
    if names == "ident":
        if any(type(q) is App and type(q.head) is Leaf and q.head.kind == "Integer" for q in subspecs(s)):
            return
        low(E, W, s, t, "str")


@C.harness
def atoms(E):
    """Atoms of every kind and value; Sym."""
    W = Core(E)
    sym = E.mod("protosym.core.sym")
    k = E.choose("kind", 3)
    odd = E.choose("value", len(ODD) + 1)
    v = E.int("i") if k == 0 else (E.str("s", "any") if odd == 0 else ODD[odd - 1])
    if k == 0 and odd:
        E.assume(False)
    name = ("Integer", "Symbol", "Function")[k]
    a = W.kinds[name](v)
    E.check("kind", repr(W.kinds[name]) == name)
    judge(E, a, scope(E, W), "atom")
    E.check("atom:str", E.all([str(a) == (v if k else str(v))]))
    t = W.tree.Tr(a)
    judge(E, t, scope(E, W), "tree")
    E.check("tree:str", E.all([str(t) == str(a)]))
    judge(E, t(t, t), scope(E, W), "call")
    # Sym wraps trees
    s = sym.Sym(t(t))
    judge(E, s, {**scope(E, W), "Sym": sym.Sym}, "sym")
    E.check("sym:str", E.all([str(s) == str(t(t))]))
    at = sym.Sym.new_atom("Thing", int if k == 0 else str)
    E.check("symkind", repr(at) == "Thing")
    o = at(v)
    judge(E, o, {"Sym": sym.Sym, "Tr": W.tree.Tr, "Thing": at.atom_type}, "symatom")
    w = sym.Sym.new_wild("w") if k == 0 else sym.Sym.new_wild(v)
    judge(E, w, {"Sym": sym.Sym, "Tr": W.tree.Tr, "Wild": sym.Wild}, "wild")


@C.harness
def odd_values(E):
    """Trees whose leaves hold odd strings, two at a time; kinds of other types."""
    W = Core(E)
    a = ODD[E.choose("a", len(ODD))]
    b = ODD[E.choose("b", len(ODD))]
    p, q = W.build(S(a)), W.build(S(b))
    f = W.build(F("f"))
    t1, t2 = f(p, f(q)), f(q, f(p))
    judge(E, t1, scope(E, W), "odd")
    E.check("odd:differ", (repr(t1) == repr(t2)) == (a == b))
    E.check("odd:kinds", repr(W.build(S(a))) != repr(W.build(F(a))))
    E.check("odd:str", str(t1) == f"f({a}, f({b}))")
    kind = W.atom.AtomType
    for name, typ, v in (("Real", float, -0.5), ("Bytes", bytes, b"a'\x00"), ("Pair", tuple, (1, "x'")), ("Bool", bool, True),
                         ("Unicode", str, a), ("Nothing", type(None), None)):
        k = kind(name, typ)
        o = k(v)
        E.check("other", eval(repr(o), {name: k}) is o)
        E.check("other:tree", eval(repr(f(W.tree.Tr(o))), {name: k, **scope(E, W)}) is f(W.tree.Tr(o)))


@C.harness
def long_values(E, sizes):
    """Long values that differ in one place are shown whole."""
    W = Core(E)
    n = sizes[E.choose("size", len(sizes))]
    at = [0, 1, n // 3, n // 2, n - 2, n - 1][E.choose("place", 6)]
    c = ["b", " ", "'", "\u03b1"][E.choose("character", 4)]
    base = "a" * n
    other = base[:at] + c + base[at + 1 :]
    f = W.build(F("f"))
    pairs = [(W.build(S(base)), W.build(S(other))), (W.build(F(base)), W.build(F(other)))]
    i = 10 ** (n % 4000)
    pairs.append((W.build(I(i)), W.build(I(i + 10 ** (at % (n % 4000 or 1))))))
    K, L = W.atom.AtomType("Bytes", bytes), W.atom.AtomType("Pair", tuple)
    pairs.append((W.tree.Tr(K(b"a" * n)), W.tree.Tr(K(b"a" * at + b"b" + b"a" * (n - at - 1)))))
    pairs.append((W.tree.Tr(L((1,) * n)), W.tree.Tr(L((1,) * at + (2,) + (1,) * (n - at - 1)))))
    sc = {"Bytes": K, "Pair": L, **scope(E, W)}
    for p, q in pairs:
        for t in (p, q, f(p, f(q)), f(q, f(p)), p(q)):
            E.check("long", eval(repr(t), sc) is t, lambda: f"{str(t)[:80]}...")
        E.check("long:differ", repr(p) != repr(q) and str(p) != str(q))
        E.check("long:atoms", eval(repr(p.value), sc) is p.value and str(p) == str(p.value.value) and str(q(p)) == f"{q.value.value}({p.value.value})")


@C.harness
def deep(E, n):
    """Long chains and wide calls, down arguments and heads."""
    W = Core(E)
    x, i = S(E.str("x", "ident")), I(E.int("i"))
    e = x
    pat = [E.choose(f"step{k}", 4) for k in range(2)]
    for k in range(n):
        e = [lambda e: App(F("f"), e, i), lambda e: App(F("g"), i, e), lambda e: App(e, x), lambda e: App(F("h"), *([x] * 3), e)][pat[k % 2]](e)
    t = W.build(e)
    judge(E, t, scope(E, W), "deep")
    low(E, W, e, t, "deep:str")


@C.harness
def wide(E, n, level):
    """Calls with many arguments, in any order and repeated."""
    W = world(E, level)
    x, i = S(E.str("x", "ident") if level == "core" else "x"), I(E.int("i", 3))
    ls = [x, i, App(F("g"), i, x), F("k"), App(F("g"))]
    few = [0, 1, n // 2, n - 2, n - 1]
    k, m = E.choose("from", len(ls)), few[E.choose("swap", len(few))]
    ts = [ls[(k + j * (1 + m % 3)) % len(ls)] for j in range(n)]
    ts[m] = App(F("g"), x, *[i] * n)
    e = App((F("f"), F("Add"), App(F("D"), x))[E.choose("head", 3)], *ts)
    obj = W.build(e)
    t = obj if level == "core" else obj.rep
    judge(E, t, scope(E, W), "wide")
    low(E, W, e, t, "wide:str")


C.add(wide, "18 arguments", n=18, level="core", expect=("wide", "wide:str"))
C.add(wide, "40 arguments", n=40, level="cas", expect=("wide", "wide:str"))
for level in ("core", "cas"):
    C.add(trees, f"{level}: 2 compound nodes, 2 leaves, arbitrary strings", n=2, leaves=2, level=level,
          heads=["f", "g", "D"] if level == "core" else ["A", "P", "z"], expect=("repr", "repr:text"))
    C.add(trees, f"{level}: 1 compound node, 4 leaves, every head", n=1, leaves=4, level=level, names="ident",
          heads=["f", "g", "D", "x", "i", "DD", "A", "M", "P"], expect=("repr", "str"))
C.add(trees, "core: 2 compound nodes, 2 leaves, names", n=2, leaves=2, level="core", names="ident",
      heads=["f2", "g", "D", "x", "z"], expect=("repr", "str"))
C.add(trees, "core: 3 compound nodes, 1 leaf, names", n=3, leaves=1, level="core", names="ident", heads=["f2", "g", "DD"],
      expect=("repr", "str"))
C.add(atoms, "atoms of 3 kinds, arbitrary and 22 odd values; Sym", expect=("atom", "tree", "sym", "symatom", "wild", "call"))
C.add(odd_values, "22 x 22 odd strings, 6 other kinds", expect=("odd", "odd:differ", "other"))
C.add(long_values, "values of 31 to 3000 characters, digits or items", sizes=[31, 90, 300, 3000], expect=("long", "long:differ", "long:atoms"))
C.add(deep, "chains 12 deep", n=12, expect=("deep", "deep:str"))
C.deep(trees, "core: 3 compound nodes, 2 leaves, arbitrary strings", n=3, leaves=2, level="core", heads=["f2", "g"])
C.deep(trees, "core: 2 compound nodes, 3 leaves, names", n=2, leaves=3, level="core", names="ident", heads=["f", "g", "D", "x", "DD"])
C.deep(deep, "chains 40 deep", n=40)
C.outside = ["values whose own repr does not evaluate back", "kinds that share a name", "str of names that are not identifiers, except the 22 listed"]
