"""Reading printed text back (shared by C16, C17, C18)."""

import ast

from harness.calc import is_true
from harness.lib import *  # noqa: F403


class Unreadable(Exception):
    pass


WORD = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789"


def lex(E, text, ops):
    """Tokens ("name", str), ("int", n), ("op", text); symbolic parts stay symbolic."""
    out = []
    word = []  # pieces of the current word

    def flush():
        if not word:
            return
        w = list(word)
        word.clear()
        if len(w) == 1 and w[0][0] == "int":
            n = w[0][1]
            if E.is_symbolic(n) and bool(n < 0):
                out.append(("op", "-"))
                n = -n
            out.append(("int", n))
        elif len(w) == 1 and w[0][0] == "name":
            out.append(w[0])
        elif all(k == "lit" for k, _ in w):
            t = "".join(v for _, v in w)
            if t.isdigit():
                out.append(("int", int(t)))
            elif t[0].isdigit():
                raise Unreadable(f"word {t!r}")
            else:
                out.append(("name", t))
        else:
            t = ""
            for k, v in w:
                t = t + (str(v) if k == "int" else v)
            out.append(("name", t))

    for kind, v in E.pieces(text):
        if kind != "lit":
            word.append((kind, v))
            continue
        i = 0
        while i < len(v):
            c = v[i]
            if c in WORD:
                word.append(("lit", c))
                i += 1
                continue
            flush()
            if c == " ":
                i += 1
                continue
            for op in ops:
                if v.startswith(op, i):
                    out.append(("op", op))
                    i += len(op)
                    break
            else:
                raise Unreadable(f"character {c!r}")
    flush()
    out.append(("op", "end"))
    return out


class Reader:
    """Recursive descent over tokens; ``tex`` for LaTeX."""

    def __init__(self, E, text, tex=False):
        self.E = E
        self.tex = tex
        self.times = "\\times" if tex else "*"
        ops = ["\\times", "\\sin", "\\cos", "^", "{", "}", "(", ")", ",", "+", "-"] if tex else ["**", "*", "(", ")", ",", "+", "-"]
        self.toks = lex(E, text, ops)
        self.pos = 0

    def peek(self, op):
        return self.toks[self.pos] == ("op", op) if self.toks[self.pos][0] == "op" else False

    def take(self, op):
        if self.peek(op):
            self.pos += 1
            return True
        return False

    def need(self, op):
        if not self.take(op):
            raise Unreadable(f"expected {op!r} at {self.pos} of {self.toks}")

    def read(self):
        n = self.sum()
        self.need("end")
        return n

    def sum(self):
        xs = [self.product()]
        while self.take("+"):
            xs.append(self.product())
        return xs[0] if len(xs) == 1 else ("add", xs)

    def product(self):
        xs = [self.unary()]
        while self.take(self.times):
            xs.append(self.unary())
        return xs[0] if len(xs) == 1 else ("mul", xs)

    def unary(self):
        if self.take("-"):
            n = self.unary()
            if n[0] == "int":
                return ("int", -n[1])
            return ("neg", n)
        return self.power()

    def power(self):
        b = self.primary()
        if self.tex:
            if self.take("^"):
                self.need("{")
                e = self.sum()
                self.need("}")
                if self.peek("^"):
                    raise Unreadable("double superscript")
                return ("pow", b, e)
            return b
        if self.take("**"):
            return ("pow", b, self.unary())
        return b

    def primary(self):
        k, v = self.toks[self.pos]
        if k == "int":
            self.pos += 1
            n = ("int", v)
        elif k == "name":
            self.pos += 1
            n = ("name", v)
        elif self.tex and v in ("\\sin", "\\cos"):
            self.pos += 1
            if not self.peek("("):
                raise Unreadable("function without a bracket")
            n = ("name", v[1:])
        elif self.take("("):
            n = ("group", self.sum())
            self.need(")")
        else:
            raise Unreadable(f"unexpected {v!r} in {self.toks}")
        while self.take("("):
            args = []
            if not self.take(")"):
                args.append(self.sum())
                while self.take(","):
                    args.append(self.sum())
                self.need(")")
            n = ("call", n, args)
        return n


def head_name(E, s, names):
    """Which of the names the head of s is, or None."""
    if type(s.head) is Leaf and s.head.kind == "Function":
        for n in names:
            if is_true(E, values_equal(E, "Function", s.head.value, n)):
                return n
    return None


def reads_as(E, n, s, low=False):
    """Formula: text read as n denotes spec s.

    ``low``: inside a head everything is written as calls.
    """
    if type(s) is Leaf:
        if s.kind == "Integer":
            return n[0] == "int" and n[1] == s.value
        return n[0] == "name" and values_equal(E, "Symbol", n[1], s.value)
    h = None if low else head_name(E, s, ("Add", "Mul", "pow"))
    if h in ("Add", "Mul"):
        if n[0] != "group":
            return False
        if len(s.args) == 1:
            return reads_as(E, n[1], s.args[0])
        kids = n[1]
        if kids[0] != ("add" if h == "Add" else "mul") or len(kids[1]) != len(s.args):
            return False
        return E.all([reads_as(E, k, a) for k, a in zip(kids[1], s.args)])
    if h == "pow" and len(s.args) == 2:
        if n[0] == "group":
            return reads_as(E, n[1], s)
        if n[0] != "pow":
            return False
        base = reads_as(E, n[1], s.args[0])
        if n[1][0] == "group":
            base = E.any([base, reads_as(E, n[1][1], s.args[0])])  # brackets that delimit the base
        return E.all([base, reads_as(E, n[2], s.args[1])])
    if n[0] != "call" or len(n[2]) != len(s.args):
        return False
    return E.all([reads_as(E, n[1], s.head, low=True)] + [reads_as(E, k, a, low) for k, a in zip(n[2], s.args)])


# --------------------------------------------------------------------------
# Python's own reader
# --------------------------------------------------------------------------


def python_reading(E, text):
    """(ast, {placeholder: value}): symbolic parts become placeholders."""
    names = {}
    out = []
    for kind, v in E.pieces(text):
        if kind == "lit":
            out.append(v)
        elif kind == "int":
            if E.is_symbolic(v) and bool(v < 0):
                out.append("-")
                v = -v
            p = f"T{len(names)}_"
            names[p] = ("int", v)
            out.append(p)
        else:
            p = f"T{len(names)}_"
            names[p] = (kind, v)
            out.append(p)
    return ast.parse("".join(out), mode="eval").body, names


def python_means(E, t, names, s, low=False):
    """Formula: a Python expression denotes spec s (sums and products are binary)."""
    neg = False
    if type(t) is ast.UnaryOp and type(t.op) is ast.USub and type(t.operand) in (ast.Constant, ast.Name):
        neg, t = True, t.operand
    v = None
    if type(t) is ast.Constant:
        v = ("int", t.value)
    elif type(t) is ast.Name:
        v = names.get(t.id, ("name", t.id))
    if type(s) is Leaf:
        if v is None:
            return False
        if s.kind == "Integer":
            return v[0] == "int" and (-v[1] if neg else v[1]) == s.value
        return v[0] == "name" and not neg and values_equal(E, "Symbol", v[1], s.value)
    if v is not None:
        h = None if low else head_name(E, s, ("Add", "Mul"))
        return h is not None and len(s.args) == 1 and python_means(E, t, names, s.args[0])
    h = None if low else head_name(E, s, ("Add", "Mul", "pow"))
    if h in ("Add", "Mul"):
        if len(s.args) == 1:
            return python_means(E, t, names, s.args[0])
        op = ast.Add if h == "Add" else ast.Mult
        cs = []
        for a in reversed(s.args[1:]):
            if type(t) is not ast.BinOp or type(t.op) is not op:
                return False
            cs.append(python_means(E, t.right, names, a))
            t = t.left
        cs.append(python_means(E, t, names, s.args[0]))
        return E.all(cs)
    if h == "pow" and len(s.args) == 2:
        if type(t) is not ast.BinOp or type(t.op) is not ast.Pow:
            return False
        return E.all([python_means(E, t.left, names, s.args[0]), python_means(E, t.right, names, s.args[1])])
    if type(t) is not ast.Call or len(t.args) != len(s.args) or t.keywords:
        return False
    return E.all([python_means(E, t.func, names, s.head, True)] + [python_means(E, k, names, a, low) for k, a in zip(t.args, s.args)])


# --------------------------------------------------------------------------
# repr of atoms and trees
# --------------------------------------------------------------------------


def literal(E, t, names):
    """(value, formula that the text is right) of an int or str literal, or None."""
    neg = False
    if type(t) is ast.UnaryOp and type(t.op) is ast.USub:
        neg, t = True, t.operand
    if type(t) is ast.Constant and type(t.value) is str:
        v, conds = "", []
        rest = t.value
        while True:
            m = [(rest.find(p), p) for p in names if p in rest]
            if not m:
                break
            at, p = min(m)
            w = names[p][1]
            conds.append(E.unescaped(w) if isinstance(w, str) else True)
            v = v + rest[:at] + w
            rest = rest[at + len(p):]
        return None if neg else (v + rest, E.all(conds) if conds else True)
    if type(t) is ast.Constant:
        return (-t.value if neg else t.value), True
    if type(t) is ast.Name and t.id in names and names[t.id][0] in ("int", "strlit"):
        v = names[t.id][1]
        return (-v if neg else v), True
    return None


class NotRepr(Exception):
    pass


def eval_repr_text(E, t, names, scope):
    """(object, formula): the value of the repr text, kinds in scope."""
    if type(t) is ast.Call and type(t.func) is ast.Name and not t.keywords:
        fn = scope.get(t.func.id)
        if fn is None:
            raise NotRepr(f"unknown name {t.func.id}")
        got = [eval_repr_text(E, a, names, scope) for a in t.args]
        return fn(*[g[0] for g in got]), E.all([g[1] for g in got])
    v = literal(E, t, names)
    if v is None:
        if type(t) in (ast.Tuple, ast.Name) and not names:
            return ast.literal_eval(t), True
        raise NotRepr(ast.dump(t))
    return v
