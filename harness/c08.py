"""C08: expression depth is not limited by the call stack."""

import sys

from harness.c07 import ARITH, GENERAL, _ops
from harness.lib import *  # noqa: F403
from px.registry import Check

CHECK = Check("C08", __name__)
C = CHECK

PRINT = ["str", "repr", "latex"]
STRUCT = [k for k in GENERAL if k != "subscompound"]
NUMERIC = [k for k in ARITH if k != "to_sympy"]

# how one more level is put around an expression: (name, numeric, needs rule)
LEVELS = [
    ("f(e)", False),
    ("f(y, e)", False),
    ("e(y)", False),
    ("sin(e)", True),
    ("e + y", True),
    ("y*e", True),
    ("e**2", True),
    ("Mul(e, 2, y)", True),
    ("Add(cos(e), e(m))", False),
    ("f(e, g(e))", False),
    ("y**e", True),
    ("List(e)", False),
    ("2**(m + sin(-e))", True),
    ("Add(e)", True),
]


def _level(sc, k, e, m):
    y = sc.y
    f, g = sc.Function("f"), sc.Function("g")
    return [
        lambda: f(e),
        lambda: f(y, e),
        lambda: e(y),
        lambda: sc.sin(e),
        lambda: e + y,
        lambda: y * e,
        lambda: e**2,
        lambda: sc.Mul(e, 2, y),
        lambda: sc.Add(sc.cos(e), e(m)),
        lambda: f(e, g(e)),
        lambda: y**e,
        lambda: sc.List(e),
        lambda: 2 ** (m + sc.sin(-e)),
        lambda: sc.Add(e),
    ][k]()


def _nest(W, k, n, m):
    sc = W.sc
    e = sc.Function("h") if k == 2 else sc.x + m
    for _ in range(n):
        e = _level(sc, k, e, m)
    return e


def _op(E, W, e, kind):
    if kind == "str":
        return lambda: str(e)
    if kind == "repr":
        return lambda: repr(e)
    if kind == "latex":
        return lambda: e.eval_latex()
    return _ops(E, W, e, W.sc.x, kind)


def _run(op):
    """The operation, without failures that have nothing to do with depth."""
    def go():
        try:
            op()
        except (OverflowError, ValueError, ZeroDivisionError):
            pass
    return go


def _kinds(k, printing=True):
    """Operations that make sense on level k (and shapes whose text explodes)."""
    ks = list(STRUCT)
    if LEVELS[k][1]:
        ks += NUMERIC
        if k == 10:  # the exponent depends on the variable
            ks.remove("diff")
            ks.remove("matrix diff")
        if k == 12:
            ks.remove("diff")
            ks.remove("matrix diff")
    if k == 11:
        ks += ["diff"]
    if printing and k not in (8, 9):
        ks += PRINT
    return ks


@C.harness
def depth(E, k, small, big):
    """The call depth for much deeper expressions is the same."""
    kinds = _kinds(k)
    kind = kinds[E.choose("operation", len(kinds))]
    W = Cas(E)
    m = E.int("m", -5, 5)

    def used(n):
        e = _nest(W, k, n, m)
        return measure(_run(_op(E, W, e, kind)))[2]
    used(2)
    a, b = used(small), used(big)
    E.check(f"depth:{kind}", b <= a + 3, lambda: f"{a} frames for {small} levels, {b} for {big}")
    E.check("depth", True)
    E.observe("depth ok", b <= a + 3)


@C.harness
def deep(E, k, n, kinds=None, room=None):
    """Far more levels than the recursion limit allows frames."""
    m = 3
    kinds = kinds or _kinds(k, printing=False)
    kind = kinds[E.choose("operation", len(kinds))]
    W = Cas(E)
    e = _nest(W, k, n, m)
    op = _run(_op(E, W, e, kind))
    old = sys.getrecursionlimit()
    if room is not None:
        f, here = sys._getframe(), 0
        while f is not None:
            f, here = f.f_back, here + 1
        sys.setrecursionlimit(here + room)
    try:
        r = E.call(op)
    finally:
        sys.setrecursionlimit(old)
    E.check(f"deep:{kind}", not (r[0] == "exc" and isinstance(r[1], RecursionError)),
            lambda: f"{kind} of an expression {n} levels deep: recursion error")
    E.check(f"deep:{kind}:other", r[0] == "ok", lambda: f"{type(r[1])}")
    E.check("deep", True)
    E.observe("ok", r[0])


@C.harness
def mixed(E, small, big):
    """Two kinds of level, one inside the other, over and over."""
    plain = [k for k in range(len(LEVELS)) if k not in (8, 9, 12)]
    a = plain[E.choose("outer level", len(plain))]
    b = plain[E.choose("inner level", len(plain))]
    kinds = STRUCT + PRINT
    kind = kinds[E.choose("operation", len(kinds))]
    W = Cas(E)

    def used(n):
        e = W.sc.x
        for _ in range(n):
            e = _level(W.sc, a, _level(W.sc, b, e, 2), 2)
        return measure(_run(_op(E, W, e, kind)))[2]
    used(1)
    s, t = used(small), used(big)
    E.check(f"depth:{kind}", t <= s + 3, lambda: f"{s} frames for {small} levels, {t} for {big}")
    E.check("mixed", True)
    E.observe("depth ok", t <= s + 3)


@C.harness
def errors(E, n):
    """Deep expressions that have no rule or cannot be compiled: the right error."""
    W = Cas(E)
    sc = W.sc
    m = E.int("m", -5, 5)
    k = E.choose("head or argument", 2)
    e = _nest(W, 2 if k == 0 else 0, n, m)
    op = E.choose("operation", 3)
    if op == 0:
        r = E.call(lambda: (e + 1).eval_f64({sc.x: 1.0, sc.y: 2.0}))
        err = E.mod("protosym.core.exceptions").NoEvaluationRuleError
    elif op == 1:
        r = E.call(lambda: (e + 1).to_llvm_ir([sc.x, sc.y]))
        err = E.mod("protosym.simplecas.exceptions").LLVMNotImplementedError
    else:
        r = E.call(lambda: sc.Matrix([[e, 0]]).to_llvm_ir([sc.x, sc.y]))
        err = E.mod("protosym.simplecas.exceptions").LLVMNotImplementedError
    E.check("errors", r[0] == "exc" and isinstance(r[1], err), lambda: f"{r[0]} {type(r[1])}")
    E.observe("raised", r[0])


for i, (nm, _) in enumerate(LEVELS):
    C.add(depth, f"levels {nm}: 8 against 40 levels", k=i, small=8, big=40, expect=("depth",))
    C.add(deep, f"levels {nm}: 1200 levels, recursion limit as found", k=i, n=1200, expect=("deep",))
    if i not in (8, 9):
        C.add(deep, f"levels {nm}: printing 400 levels with 150 frames", k=i, n=400, kinds=PRINT,
              room=150, expect=("deep",))
C.add(mixed, "every two of 11 kinds of level, 5 against 25 of each", small=5, big=25, expect=("mixed",))
C.add(errors, "1500 levels", n=1500, expect=("errors",))
for i, (nm, _) in enumerate(LEVELS):
    C.deep(depth, f"levels {nm}: 20 against 250 levels", k=i, small=20, big=250)
    C.deep(deep, f"levels {nm}: 20000 levels", k=i, n=12000)
C.outside = ["conversion to and from SymPy (SymPy recurses itself)", "eval_recursive",
             "the C stack of CPython's own deallocation", "LLVM's own compilation"]
C.assumptions = ["expressions nest one of 14 kinds of level uniformly"]
