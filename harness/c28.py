"""C28: operations have no side effects on expressions, arguments or later results."""

import gc

from harness.calc import *  # noqa: F403
from harness.ops import *  # noqa: F403
from px.registry import Check

CHECK = Check("C28", __name__)
C = CHECK

ADD, MUL, POW = F("Add"), F("Mul"), F("pow")
NAMES = list(OPS)
FLOATS = ("f64", "f64 none", "f64 swapped", "lambdify swapped", "lambdify", "matrix lambdify", "llvm", "llvm none", "matrix llvm")


def pool(name, number):
    x, s, i = S("x"), S(name), I(number)
    sx = App(F("sin"), x)
    xs = App(MUL, x, s)
    return [
        App(ADD, App(POW, sx, i), xs, sx, App(MUL, I(-1), App(F("cos"), xs))),
        App(F("f"), x, App(F("List"), s, i), App(F("sin"), App(F("f"), x, s))),
        App(MUL, App(ADD, x, s, i, x), App(MUL, s), App(POW, App(ADD, x, s, i, x), I(2))),
        App(ADD, App(POW, x, s), App(F("List"), x, x, s)),
    ]


def structure(W, specs):
    """Every node of the expressions, with its children and value."""
    out, seen, stack = [], set(), [W.build(s).rep for s in specs]
    while stack:
        t = stack.pop()
        if id(t) in seen:
            continue
        seen.add(id(t))
        ch = list(t.children)
        out.append((t, ch, None if ch else t.value, None if ch else t.value.value))
        stack.extend(ch)
    return out


def unchanged(E, nodes, label, how):
    for t, ch, atom, value in nodes:
        now = list(t.children)
        ok = len(now) == len(ch) and all([p is q for p, q in zip(now, ch)])
        if ok and atom is not None:
            ok = t.value is atom and atom.value is value
        E.check(label, ok, how)


@C.harness
def history(E, first, second, pairs, n=1):
    """Operations in any order: results stay the same, and are those of a fresh start."""
    k, m = pairs[E.choose("pair", len(pairs))]
    opa = NAMES[second[E.choose("a", len(second))]]
    opbs = [NAMES[first[E.choose(f"b{j}", len(first))]] for j in range(n)]
    name = E.str("name", "ident", avoid=("x", "y", "f", "g", "a", "b"))
    # doubles are symbolic in a harness of their own
    number = 5 if any([o in FLOATS for o in [opa, *opbs]]) else E.int("number", 3)
    values = (0.75, 2.5)
    specs = pool(name, number)
    judge(E, specs, k, m, opa, opbs, name, number, values)


def judge(E, specs, k, m, opa, opbs, name, number, values):

    def how():
        return f"{opa} on {show(specs[k])} with {opbs} on {show(specs[m])}"

    W = Cas(E)
    nodes = structure(W, specs)
    ba = Bench(E, W, specs[k], name, number, values)
    bb = Bench(E, W, specs[m], name, number, values)

    def do(b, op):
        r = run(b, op)
        d = describe(b, r)
        E.check("arguments", b.intact(), how)
        b.spoil_given()
        spoil(r)
        return d

    was = [do(bb, op) for op in opbs]
    a1 = do(ba, opa)
    again = [do(bb, op) for op in opbs]
    a2 = do(ba, opa)
    for op, p, q in zip(opbs, was, again):
        E.check("again", equal(E, p, q), lambda: f"{how()}: {op} gives {p} and then {q}")
    E.check("again", equal(E, a1, a2), lambda: f"{how()}: {a1} and then {a2}")
    unchanged(E, nodes, "unchanged", how)
    E.renew()
    W2 = Cas(E)
    b = Bench(E, W2, specs[k], name, number, values)
    E.check("fresh", equal(E, describe(b, run(b, opa)), a1), lambda: f"{how()}: {a1} unlike in a fresh start")


@C.harness
def doubles(E):
    """The operations that compute doubles, at every point."""
    name = E.str("name", "ident", avoid=("x", "y", "f", "g", "a", "b"))
    values = (E.flt("u"), E.flt("v"))
    x, s = S("x"), S(name)
    spec = [App(MUL, x, s, x), App(ADD, x, App(MUL, s, I(3)))][E.choose("of", 2)]
    opa = ["f64", "f64 swapped", "lambdify", "lambdify swapped", "matrix lambdify"][E.choose("a", 5)]
    judge(E, [spec], 0, 0, opa, [NAMES[E.choose("b", len(NAMES))]], name, 5, values)


@C.harness
def temporaries(E, ops, n=3):
    """Operations on expressions that come and go, whose places in memory are used again."""
    op = NAMES[ops[E.choose("op", len(ops))]]
    name = E.str("name", "ident", avoid=("x", "y", "f", "g", "a", "b", "p", "q"))
    number = 5 if op in FLOATS else E.int("number", 3)
    values = (0.75, 2.5)
    x, s, i = S("x"), S(name), I(number)
    which = E.choose("of", 3)
    forms = [
        [App(MUL, x, s), App(MUL, s, x), App(MUL, x, i), App(MUL, x, x)],
        [App(F("sin"), x), App(F("cos"), x), App(F("sin"), s), App(F("cos"), i)],
        [App(F("List"), App(ADD, x, s), i), App(F("List"), App(ADD, s, x), i), App(F("List"), App(MUL, s, x), x), App(F("List"), App(MUL, x, s), i)],
    ][which]
    order = [E.choose(f"o{k}", len(forms)) for k in range(n)]
    got = []
    for k in order:
        W = Cas(E)
        b = Bench(E, W, forms[k], name, number, values)
        r = run(b, op)
        got.append(describe(b, r))
        del W, b, r
        gc.collect()
    E.renew()
    b = Bench(E, Cas(E), forms[order[-1]], name, number, values)
    E.check("temporary", equal(E, describe(b, run(b, op)), got[-1]), lambda: f"{op} of {[show(forms[k]) for k in order]}: {got[-1]}")
    for j in range(n - 1):
        if order[j] == order[-1]:
            E.check("temporary", equal(E, got[j], got[-1]), lambda: f"{op} of {[show(forms[k]) for k in order]}: {got}")


@C.harness
def often(E, n):
    """An operation on many other expressions before it is done again."""
    op = NAMES[E.choose("op", len(NAMES))]
    name = E.str("name", "ident", avoid=("x", "y", "f", "g", "a", "b"))
    values = (0.75, 2.5)
    x, s = S("x"), S(name)
    first = App(ADD, App(MUL, x, s), App(F("sin"), x))
    W = Cas(E)

    def do(spec):
        b = Bench(E, W, spec, name, 5, values)
        r = run(b, op)
        d = describe(b, r)
        E.check("arguments", b.intact(), lambda: f"{op} of {show(spec)}")
        b.spoil_given()
        spoil(r)
        return d

    was = do(first)
    for k in range(n):
        last = App(ADD, App(MUL, x, I(k)), App(F("sin"), App(POW, s, I(k))))
        got = do(last)
    E.check("again", equal(E, do(first), was), lambda: f"{op} of {show(first)} after {n} others, unlike {was}")
    E.renew()
    W = Cas(E)
    E.check("fresh", equal(E, do(last), got), lambda: f"{op} of {show(last)} after {n} others: {got} unlike in a fresh start")


@C.harness
def all_of_them(E, n):
    """Every operation in turn, over and over, from any of them on."""
    k = E.choose("from", len(NAMES))
    ops = NAMES[k:] + NAMES[:k]
    name = E.str("name", "ident", avoid=("x", "y", "f", "g", "a", "b"))
    values = (0.75, 2.5)
    specs = pool(name, 5)
    spec = specs[E.choose("of", 2)]
    W = Cas(E)
    b = Bench(E, W, spec, name, 5, values)
    nodes = structure(W, specs)
    seen = {}
    for j in range(n):
        for op in (ops if j % 2 == 0 else ops[::-1]):
            r = run(b, op)
            d = describe(b, r)
            b.spoil_given()
            spoil(r)
            if op in seen:
                E.check("again", equal(E, seen[op], d), lambda: f"round {j}: {op} of {show(spec)} gives {seen[op]} and then {d}")
            seen[op] = d
    unchanged(E, nodes, "unchanged", lambda: f"every operation on {show(spec)}")


ALL = list(range(len(NAMES)))
H = len(ALL) // 2
for lo, hi in ((0, 9), (9, 18), (18, 27), (27, len(ALL))):
    C.add(history, f"operations {lo} to {hi - 1} of {len(ALL)} before and after every other, on one expression of 4", first=ALL[lo:hi], second=ALL, pairs=[(0, 0)], expect=("arguments", "stable", "again", "unchanged", "fresh"))
    C.add(history, "the same, on an expression that is refused by some operations", first=ALL[lo:hi], second=ALL, pairs=[(1, 1)], expect=("again", "fresh"))
C.add(history, "operations of different kinds on overlapping expressions", first=ALL[::2], second=ALL[1::2], pairs=[(2, 0), (0, 3)], expect=("again",))
C.add(doubles, "eval_f64 and compiled functions at every two doubles, before and after every operation", expect=("again", "fresh"))
C.add(temporaries, "every operation on 2 short-lived expressions", ops=ALL, n=2, expect=("temporary",))
C.add(history, "three operations of different kinds", first=ALL[::4], second=ALL[1::3], pairs=[(0, 0), (3, 2)], n=2, expect=("again",))
C.add(often, "36 other expressions between two uses of each operation", n=36, expect=("again", "fresh"))
C.add(all_of_them, "every operation in turn, twice, from any of them on", n=2, expect=("again", "unchanged"))
C.deep(often, "150 other expressions between two uses of each operation", n=150)
C.deep(all_of_them, "every operation in turn, six times, from any of them on", n=6)
C.deep(history, "every two operations before a third", first=ALL, second=ALL, pairs=[(0, 0)], n=2)
C.deep(temporaries, "every operation on 4 short-lived expressions", ops=ALL, n=4)
C.deep(history, "every two operations on overlapping expressions", first=ALL, second=ALL, pairs=[(0, 1), (2, 0), (3, 2), (1, 3), (2, 2), (3, 3)])
C.outside = ["registering rules with the built-in evaluators and differentiator (meant to last)", "modifying the attributes of Matrix or SubsFunc objects directly"]
