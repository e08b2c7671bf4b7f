"""Meaning of SymPy objects (shared by C26, C27).

Symbolically the stub SymPy records what was built, and meanings are compared
as formulas; in replays the real SymPy rewrites what it is given, and meanings
are compared by high-precision evaluation at a fixed generic point.
"""

import hashlib

from harness.calc import tree_spec
from harness.lib import *  # noqa: F403
from harness.texts import head_name

KNOWN = ("Add", "Mul", "pow", "sin", "cos", "List")


class Undefined(Exception):
    pass


def supported(obj):
    """Built of integers, symbols, +, *, **, sin, cos, undefined functions, tuples only."""
    seen, stack = set(), [obj]
    while stack:
        o = stack.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        n = [c.__name__ for c in type(o).__mro__]
        if not (o.is_Add or o.is_Mul or o.is_Pow or o.is_Symbol or o.is_Integer or "Tuple" in n or "sin" in n or "cos" in n or "AppliedUndef" in n):
            return False
        stack.extend(o.args)
    return True


def spec_of(o, memo=None):
    """Spec of a supported SymPy object, as it is."""
    memo = {} if memo is None else memo
    if id(o) in memo:
        return memo[id(o)][0]
    n = [c.__name__ for c in type(o).__mro__]
    if o.is_Integer:
        r = I(o.p)
    elif o.is_Symbol:
        r = S(o.name)
    else:
        args = [spec_of(a, memo) for a in o.args]
        if o.is_Add:
            h = "Add"
        elif o.is_Mul:
            h = "Mul"
        elif o.is_Pow:
            h = "pow"
        elif "Tuple" in n:
            h = "List"
        elif "AppliedUndef" in n:
            h = o.func.__name__
        elif "sin" in n:
            h = "sin"
        elif "cos" in n:
            h = "cos"
        else:
            raise Undefined(type(o).__name__)
        r = App(F(h), *args)
    memo[id(o)] = (r, o)
    return r


# -- numeric meaning (replays) ----------------------------------------------


def _h(*key):
    d = hashlib.md5(repr(key).encode()).digest()
    return 1 + int.from_bytes(d[:4], "big") % 1000 / 997


class Point:
    """The first point is positive, the others are complex, in all quadrants."""

    def __init__(self, dps=60, which=0):
        import mpmath

        self.mp = mpmath.mp.clone()
        self.mp.dps = dps
        self.known = {}
        self.which = which

    def symbol(self, name):
        mp = self.mp
        if not self.which:
            return mp.mpf(_h("sym", name))
        re, im = (mp.mpf(_h(part, self.which, name)) - mp.mpf(1.5) for part in ("re", "im"))
        return mp.mpc(re * 3, im * 2)

    def fn(self, name, xs):
        mp = self.mp
        r = mp.mpf(_h("fn", name, len(xs)))
        for k, x in enumerate(self.flat(xs)):
            r = r + mp.mpf(_h("arg", name, k)) * mp.sin(x + k)
        return r

    def flat(self, xs):
        out = []
        for x in xs:
            if isinstance(x, tuple):
                out.append(self.mp.mpf(len(x)))
                out.extend(self.flat(x))
            else:
                out.append(x)
        return out

    def op(self, name, xs):
        mp = self.mp
        if name == "List":
            return tuple(xs)
        if name not in ("Add", "Mul") and any(abs(mp.im(x)) > 1000 for x in self.flat(xs)):
            raise Undefined("too large")
        if name in ("Add", "Mul", "pow", "sin", "cos") and any(isinstance(x, tuple) for x in xs):
            return self.fn(name, xs)
        if name == "Add":
            r = mp.mpf(0)
            for x in xs:
                r = r + x
            return r
        if name == "Mul":
            r = mp.mpf(1)
            for x in xs:
                r = r * x
            return r
        if name == "pow":
            if xs[0] == 0 and xs[1] == 0:
                return mp.mpf(1)
            if xs[0] == 0 and not mp.re(xs[1]) > 0:
                raise Undefined("0 to a negative power")
            if abs(xs[1]) > 400 or (xs[0] != 0 and abs(mp.log(abs(xs[0])) * xs[1]) > 1000):
                raise Undefined("too large")
            return mp.power(xs[0], xs[1])
        if name == "sin":
            return mp.sin(xs[0])
        if name == "cos":
            return mp.cos(xs[0])
        return self.fn(name, xs)

    def spec(self, s, memo):
        if id(s) in memo:
            return memo[id(s)][0]
        if type(s) is Leaf:
            if s.kind == "Integer":
                if abs(s.value) > 10**40:
                    raise Undefined("too large")
                r = self.mp.mpf(s.value)
            elif s.kind == "Symbol":
                r = self.symbol(s.value)
            else:
                r = self.mp.mpf(_h("atom", s.value))
        else:
            r = self.op(s.head.value, [self.spec(a, memo) for a in s.args])
        memo[id(s)] = (r, s)
        return r

    def sympy(self, o):
        if o not in self.known:
            self.known[o] = self._sympy(o)
        return self.known[o]

    def _sympy(self, o):
        mp = self.mp
        n = [c.__name__ for c in type(o).__mro__]
        if o.is_Rational:
            return mp.mpf(int(o.p)) / int(o.q)
        if o.is_Symbol:
            return self.symbol(o.name)
        if n[0] == "ImaginaryUnit":
            return mp.mpc(0, 1)
        if o.is_Add or o.is_Mul or o.is_Pow or "Tuple" in n or n[0] in ("sin", "cos"):
            h = "Add" if o.is_Add else "Mul" if o.is_Mul else "pow" if o.is_Pow else "List" if "Tuple" in n else n[0]
            if n[0] == "Exp1":
                raise Undefined("E")
            return self.op(h, [self.sympy(a) for a in o.args])
        if "AppliedUndef" in n:
            return self.fn(o.func.__name__, [self.sympy(a) for a in o.args])
        raise Undefined(n[0])

    def close(self, a, b, digits=25):
        if isinstance(a, tuple) or isinstance(b, tuple):
            return isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and all([self.close(p, q, digits) for p, q in zip(a, b)])
        return abs(a - b) <= self.mp.mpf(10) ** -digits * (abs(a) + abs(b) + 1)


def agree(s, obj):
    """The spec and the SymPy object have the same value at the generic points.

    Values that do not settle within 1600 digits count as agreeing.
    """
    return all([agree_at(s, obj, which) for which in range(3)])


def agree_at(s, obj, which):
    for dps in (60, 300, 1600):
        p, q = Point(dps, which), Point(dps + 40, which)
        try:
            a, a2, b, b2 = p.spec(s, {}), q.spec(s, {}), p.sympy(obj), q.sympy(obj)
        except Undefined:
            return True
        if q.close(a, a2, 35) and q.close(b, b2, 35):
            return q.close(a2, b2)
    return True


def same(E, a, b):
    """Formula: the specs mean the same (tuples entry by entry)."""
    ta = type(a) is App and head_name(E, a, ("List",))
    tb = type(b) is App and head_name(E, b, ("List",))
    if ta or tb:
        if not (ta and tb) or len(a.args) != len(b.args):
            return False
        return E.all([same(E, p, q) for p, q in zip(a.args, b.args)])
    return E.num_eq(den_spec(E, a), den_spec(E, b))


def sympy_means(E, obj, s, label, detail):
    """The SymPy object obj means the same as the spec s."""
    if E.symbolic:
        ok = supported(obj)
        E.check(label + ":kinds", ok, detail)
        E.check(label, same(E, spec_of(obj), s), detail)
        return
    E.check(label, agree(s, obj), detail)


def expr_means(E, W, e, obj, label, detail):
    """The Expr e means the same as the SymPy object obj."""
    s = tree_spec(W, e.rep)
    if E.symbolic:
        E.check(label, same(E, s, spec_of(obj)), detail)
        return
    E.check(label, agree(s, obj), detail)


def tuples_ok(E, s):
    """No tuple is an operand of a sum, product, power, sin or cos (SymPy refuses those)."""
    seen, stack = set(), [s]
    while stack:
        t = stack.pop()
        if type(t) is Leaf or id(t) in seen:
            continue
        seen.add(id(t))
        if head_name(E, t, KNOWN) in ("Add", "Mul", "pow", "sin", "cos"):
            if any([type(a) is App and head_name(E, a, ("List",)) for a in t.args]):
                return False
        stack.extend(t.args)
    return True


class Sympy:
    """Builds specs as SymPy objects directly."""

    def __init__(self, E):
        self.E = E
        self.sympy = E.mod("sympy")
        self.memo = {}

    def build(self, s):
        sy = self.sympy
        if id(s) in self.memo:
            return self.memo[id(s)][0]
        if type(s) is Leaf:
            r = sy.Integer(s.value) if s.kind == "Integer" else sy.Symbol(s.value)
        else:
            xs = [self.build(a) for a in s.args]
            h = head_name(self.E, s, KNOWN)
            if h is None:
                r = sy.Function(s.head.value)(*xs)
            else:
                r = {"Add": sy.Add, "Mul": sy.Mul, "pow": sy.Pow, "sin": sy.sin, "cos": sy.cos, "List": sy.Tuple}[h](*xs)
        self.memo[id(s)] = (r, s)
        return r
