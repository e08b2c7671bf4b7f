"""Denotations and derivatives on specs (shared by C10, C11, C13, C23)."""

from harness.lib import *  # noqa: F403


def tree_spec(W, t, memo=None):
    """The spec of a core Tree the package made (odd atoms keep their name)."""
    memo = {} if memo is None else memo
    out = {}
    stack = [(t, False)]
    while stack:
        n, done = stack.pop()
        if id(n) in out:
            continue
        if not n.children:
            k = W.kind_of(n)
            out[id(n)] = Leaf(k or "odd." + n.value.atom_type.name, n.value.value)
        elif done:
            out[id(n)] = App(*[out[id(c)] for c in n.children])
        else:
            stack.append((n, True))
            stack.extend((c, False) for c in n.children)
    return out[id(t)]


def is_true(E, c):
    return c is True or (c is not False and bool(c))


class Calc:
    """Meaning of expressions: which heads add and multiply, which atoms are 0, 1."""

    def __init__(self, E, add, mul, zero=None, one=None, distributive=(), rules=None, pow_exact=False):
        self.E = E
        self.add, self.mul, self.zero, self.one = add, mul, zero, one
        self.distributive = list(distributive)
        self.rules = rules or {}  # (head name, index) -> fn(arg specs) -> spec
        self.pow_exact = pow_exact

    def _is(self, s, t):
        return t is not None and is_true(self.E, same_spec(self.E, s, t))

    def head_is(self, h, t):
        if h is t:
            return True
        return self._is(h, t)

    def den(self, s, memo):
        """Value at an arbitrary point (symbols, other heads uninterpreted)."""
        E = self.E
        if id(s) in memo:
            return memo[id(s)][0]
        if self._is(s, self.zero):
            r = E.real_of_int(0)
        elif self._is(s, self.one):
            r = E.real_of_int(1)
        elif type(s) is Leaf:
            if s.kind == "Integer":
                r = E.real_of_int(s.value)
            else:
                r = E.ufs("val." + s.kind, [s.value])
        else:
            xs = [self.den(a, memo) for a in s.args]
            if self.head_is(s.head, self.add):
                r = E.real_of_int(0)
                for v in xs:
                    r = r + v
            elif self.head_is(s.head, self.mul):
                r = E.real_of_int(1)
                for v in xs:
                    r = r * v
            elif self.pow_exact and self._power(s) is not None:
                r = E.real_of_int(1)
                for _ in range(self._power(s)):
                    r = r * xs[0]
            else:
                r = E.uf(f"apply{len(xs)}", self.den(s.head, memo), *xs)
        memo[id(s)] = (r, s)
        return r

    def _power(self, s):
        """Exponent of a power with a literal natural exponent, else None."""
        h = s.head
        if type(h) is Leaf and h.kind == "Function" and not self.E.is_symbolic(h.value) and h.value == "pow":
            if len(s.args) == 2:
                return self._nat(s.args[1])
        return None

    def _nat(self, s):
        if type(s) is Leaf:
            if s.kind == "Integer" and not self.E.is_symbolic(s.value):
                return s.value if 0 <= s.value <= 8 else None
            return None
        if self.head_is(s.head, self.add) or self.head_is(s.head, self.mul):
            vs = [self._int(a) for a in s.args]
            if None in vs:
                return None
            r = 0 if self.head_is(s.head, self.add) else 1
            for v in vs:
                r = r + v if self.head_is(s.head, self.add) else r * v
            return r if 0 <= r <= 8 else None
        return None

    def _int(self, s):
        if type(s) is Leaf and s.kind == "Integer" and not self.E.is_symbolic(s.value):
            return s.value
        return None

    def involves(self, s, x, memo):
        if id(s) in memo:
            return memo[id(s)]
        if type(s) is Leaf:
            r = self._is(s, x)
        else:
            r = any([self.involves(a, x, memo) for a in s.args])
        memo[id(s)] = r
        return r

    def deriv(self, s, x, memo, den, inv):
        """Value of the derivative (forward rules), None where a rule is missing."""
        E = self.E
        if id(s) in memo:
            return memo[id(s)][0]
        z = E.real_of_int(0)
        if type(s) is Leaf:
            r = E.real_of_int(1) if self._is(s, x) else z
        elif not self.involves(s, x, inv):
            r = z
        elif self.head_is(s.head, self.add):
            r = z
            for a in s.args:
                r = r + self.deriv(a, x, memo, den, inv)
        elif self.head_is(s.head, self.mul):
            r = z
            for i in range(len(s.args)):
                t = E.real_of_int(1)
                for j, a in enumerate(s.args):
                    t = t * (self.deriv(a, x, memo, den, inv) if i == j else self.den(a, den))
                r = r + t
        else:
            r = z
            for i, a in enumerate(s.args):
                if self.involves(a, x, inv):
                    rule = self.rules.get((s.head.value, i))
                    if rule is None:
                        raise KeyError((s.head.value, i))
                    r = r + self.den(rule(s.args), den) * self.deriv(a, x, memo, den, inv)
        memo[id(s)] = (r, s)
        return r

    def same_derivative(self, got, s, x, label, detail=None, caches=None):
        """Check that spec ``got`` denotes the derivative of ``s`` (lists entry-wise)."""
        E = self.E
        caches = caches or ({}, {}, {})
        if type(s) is App and any(self.head_is(s.head, d) for d in self.distributive):
            ok = type(got) is App and len(got.args) == len(s.args)
            E.check(label + ":list", ok and is_true(E, same_spec(E, got.head, s.head)), detail or "")
            for g, a in zip(got.args, s.args):
                self.same_derivative(g, a, x, label, detail, caches)
            return
        memo, den, inv = caches
        want = self.deriv(s, x, memo, den, inv)
        E.check(label, E.num_eq(self.den(got, den), want), detail or "")
