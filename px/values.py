"""Symbolic values.

The code under test is executed by CPython itself.  Its scalar inputs are the
proxies defined here; every operation on a proxy builds a Z3 term and every
truth test of a proxy asks the engine (and so the solver) which outcomes are
possible.

Domains:
  SymInt    Python int            -> unbounded Z3 Int
  SymStr    Python str            -> Z3 String (a str subclass whose text holds
                                     tokens naming the symbolic pieces)
  SymFloat  Python float          -> IEEE binary64 (Z3 FloatingPoint), libm
                                     functions are uninterpreted
  SymReal   exact number          -> Z3 Real, used by oracles and as the value
                                     domain of generic evaluators
"""

from __future__ import annotations

import builtins
import fractions
import re

import z3

F64 = z3.Float64()
RNE = z3.RNE()
BV64 = z3.BitVecSort(64)

_ENGINE = None


def engine():
    if _ENGINE is None:
        raise RuntimeError("no engine active")
    return _ENGINE


def set_engine(e):
    global _ENGINE
    _ENGINE = e


class PathControl(BaseException):
    """Base of the exceptions that steer a path (never caught by user code)."""


class Unsupported(PathControl):
    """The path left what the encoding can express: the run is inconclusive."""


class PathTimeout(PathControl):
    """The path took too long."""


class Pruned(PathControl):
    """The path was cut by an assumption."""


class SymBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return engine().branch(self.t)

    def __eq__(self, other):
        return SymBool(self.t == to_bool(other))

    def __ne__(self, other):
        return SymBool(self.t != to_bool(other))

    def __and__(self, other):
        return SymBool(z3.And(self.t, to_bool(other)))

    __rand__ = __and__

    def __or__(self, other):
        return SymBool(z3.Or(self.t, to_bool(other)))

    __ror__ = __or__

    def __invert__(self):
        return SymBool(z3.Not(self.t))

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return f"SymBool({self.t})"

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    @property
    def __class__(self):
        return bool


def to_bool(x):
    if type(x) is SymBool:
        return x.t
    return z3.BoolVal(bool(x))


def is_sym_scalar(x):
    t = type(x)
    return t in _SCALARS or (isinstance(x, str) and TOK in x)


def _num_pair(kind):
    return kind


# --------------------------------------------------------------------------
# ints
# --------------------------------------------------------------------------


class SymInt:
    __slots__ = ("t", "__weakref__")

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return int

    # helpers ------------------------------------------------------------
    @staticmethod
    def _t(o):
        if type(o) is SymInt:
            return o.t
        if type(o) is SymBool:
            return z3.If(o.t, z3.IntVal(1), z3.IntVal(0))
        if isinstance(o, builtins.int):
            return z3.IntVal(int(o))
        return None

    def _bin(self, o, f, rev=False):
        if type(o) in (SymFloat, SymReal):
            return NotImplemented
        if isinstance(o, builtins.float):
            a, b = int_to_float(self), lift_float(o)
            return f(b, a) if rev else f(a, b)
        u = self._t(o)
        if u is None:
            return NotImplemented
        return mk_int(f(u, self.t) if rev else f(self.t, u))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if isinstance(o, (str, list, tuple)):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b, True)

    def __neg__(self):
        return mk_int(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return mk_int(z3.If(self.t < 0, -self.t, self.t))

    @staticmethod
    def _floordiv(a, b):
        # Z3 div/mod are Euclidean; Python floors.
        if SymBool(b == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        q = a / b
        m = a % b
        return z3.If(z3.Or(b > 0, m == 0), q, q - 1)

    @staticmethod
    def _mod(a, b):
        if SymBool(b == 0):
            raise ZeroDivisionError("integer modulo by zero")
        m = a % b
        return z3.If(z3.Or(b > 0, m == 0), m, m + b)

    def __floordiv__(self, o):
        return self._bin(o, self._floordiv)

    def __rfloordiv__(self, o):
        return self._bin(o, self._floordiv, True)

    def __mod__(self, o):
        return self._bin(o, self._mod)

    def __rmod__(self, o):
        return self._bin(o, self._mod, True)

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        f = lift_float(o)
        return NotImplemented if f is None else lift_float(self) / f

    def __rtruediv__(self, o):
        f = lift_float(o)
        return NotImplemented if f is None else f / lift_float(self)

    def __pow__(self, o, mod=None):
        if not isinstance(o, (builtins.int, builtins.float)):
            return NotImplemented
        if type(o) is builtins.int and 0 <= o <= 8 and mod is None:
            r = z3.IntVal(1)
            for _ in range(o):
                r = r * self.t
            return mk_int(r)
        raise Unsupported("symbolic integer power")

    def __rpow__(self, o, mod=None):
        if not isinstance(o, (builtins.int, builtins.float)):
            return NotImplemented
        raise Unsupported("symbolic integer power")

    def _no_bits(self, *a):
        raise Unsupported("bit operation on a symbolic int")

    __and__ = __rand__ = __or__ = __ror__ = __xor__ = __rxor__ = _no_bits
    __lshift__ = __rlshift__ = __rshift__ = __rrshift__ = __invert__ = _no_bits

    def _cmp(self, o, f):
        if type(o) in (SymFloat, SymReal):
            return NotImplemented
        if isinstance(o, builtins.float):
            if o != o or o in (float("inf"), float("-inf")):
                return f(0.0, o)
            fr = fractions.Fraction(o)
            return mk_bool(f(z3.ToReal(self.t), z3.RealVal(str(fr))))
        u = self._t(o)
        if u is None:
            return NotImplemented
        return mk_bool(f(self.t, u))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return engine().branch(self.t != 0)

    def __index__(self):
        return engine().realize_int(self.t)

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __hash__(self):
        return hash(self.__index__())

    def is_integer(self):
        return True

    @property
    def real(self):
        return self

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def bit_length(self):
        return self.__index__().bit_length()

    def __str__(self):
        return str_of_int(self)

    __repr__ = __str__

    def __format__(self, spec):
        if spec in ("", "d"):
            return str_of_int(self)
        return format(self.__index__(), spec)


def mk_int(t):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SymInt(t)


def mk_bool(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


# --------------------------------------------------------------------------
# exact reals (oracles, generic evaluator values)
# --------------------------------------------------------------------------


class SymReal:
    __slots__ = ("t", "__weakref__")

    def __init__(self, t):
        self.t = t

    @staticmethod
    def _t(o):
        if type(o) is SymReal:
            return o.t
        if type(o) is SymInt:
            return z3.ToReal(o.t)
        if isinstance(o, (builtins.int, fractions.Fraction)):
            return z3.RealVal(str(fractions.Fraction(o)))
        if isinstance(o, builtins.float):
            return z3.RealVal(str(fractions.Fraction(o)))
        return None

    def _bin(self, o, f, rev=False):
        u = self._t(o)
        if u is None:
            return NotImplemented
        return SymReal(f(u, self.t) if rev else f(self.t, u))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._bin(o, lambda a, b: a * b, True)

    def __neg__(self):
        return SymReal(-self.t)

    def __pos__(self):
        return self

    def _cmp(self, o, f):
        u = self._t(o)
        if u is None:
            return NotImplemented
        return mk_bool(f(self.t, u))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return engine().branch(self.t != 0)

    def __hash__(self):
        raise Unsupported("hash of a symbolic real")

    def __repr__(self):
        return f"SymReal({self.t})"

    def __float__(self):
        raise Unsupported("float() of a symbolic real")


# --------------------------------------------------------------------------
# binary64 floats
# --------------------------------------------------------------------------


def _commute(a, b):
    """Fix the operand order of commutative IEEE operations."""
    return (a, b) if a.sexpr() <= b.sexpr() else (b, a)


def fp_add(a, b):
    a, b = _commute(a, b)
    return z3.fpAdd(RNE, a, b)


def fp_mul(a, b):
    one = z3.FPVal(1.0, F64)
    if a.eq(one):
        return b
    if b.eq(one):
        return a
    a, b = _commute(a, b)
    return z3.fpMul(RNE, a, b)


def pow_domain(a, b, zero, negative):
    """Raise outside the domain of pow, when the harness asked for that."""
    if not engine().strict_math:
        return
    z = z3.FPVal(0.0, F64)
    if SymBool(z3.And(z3.fpIsZero(a), z3.fpLT(b, z))):
        raise zero
    fin = [z3.Not(z3.Or(z3.fpIsNaN(t), z3.fpIsInf(t))) for t in (a, b)]
    whole = z3.fpEQ(b, z3.fpRoundToIntegral(RNE, b))
    if SymBool(z3.And(*fin, z3.fpLT(a, z), z3.Not(whole))):
        raise negative


_UF1 = {}


def fp_uf(name, n):
    key = (name, n)
    if key not in _UF1:
        _UF1[key] = z3.Function(f"libm.{name}.{n}", *([F64] * n), F64)
    return _UF1[key]


I2D = z3.Function("i2d", z3.IntSort(), F64)


def int_to_float(n):
    """float(int): correctly rounded; uninterpreted unless the int is fixed."""
    if isinstance(n, builtins.int) and type(n) is not SymInt:
        return builtins.float(n)
    v = engine().fixed_int(n.t)
    if v is not None:
        return builtins.float(v)
    engine().note_assumption("ints converted to float lie in the binary64 range")
    return SymFloat(I2D(n.t))


def lift_float(o):
    t = type(o)
    if t is SymFloat:
        return o
    if t is SymInt:
        r = int_to_float(o)
        return r if type(r) is SymFloat else SymFloat(z3.FPVal(r, F64))
    if t is SymBool:
        return lift_float(bool(o))
    if isinstance(o, (builtins.int, builtins.float)):
        return SymFloat(z3.FPVal(builtins.float(o), F64))
    return None


class SymFloat:
    __slots__ = ("t", "__weakref__")

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return float

    def _bin(self, o, f, rev=False):
        u = lift_float(o)
        if u is None:
            return NotImplemented
        return SymFloat(f(u.t, self.t) if rev else f(self.t, u.t))

    def __add__(self, o):
        return self._bin(o, fp_add)

    __radd__ = __add__

    def __mul__(self, o):
        return self._bin(o, fp_mul)

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: z3.fpSub(RNE, a, b))

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: z3.fpSub(RNE, a, b), True)

    @staticmethod
    def _div(a, b):
        if SymBool(z3.fpIsZero(b)):
            raise ZeroDivisionError("float division by zero")
        return z3.fpDiv(RNE, a, b)

    def __truediv__(self, o):
        return self._bin(o, self._div)

    def __rtruediv__(self, o):
        return self._bin(o, self._div, True)

    @staticmethod
    def _pow(a, b):
        pow_domain(a, b, ZeroDivisionError("zero to a negative power"), Unsupported("complex power"))
        return fp_uf("pow", 2)(a, b)

    def __pow__(self, o, mod=None):
        return self._bin(o, self._pow)

    def __rpow__(self, o, mod=None):
        return self._bin(o, self._pow, True)

    def __neg__(self):
        return SymFloat(z3.fpNeg(self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        return SymFloat(z3.fpAbs(self.t))

    def _cmp(self, o, f):
        u = lift_float(o)
        if u is None:
            return NotImplemented
        return mk_bool(f(self.t, u.t))

    def __eq__(self, o):
        return self._cmp(o, z3.fpEQ)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: z3.Not(z3.fpEQ(a, b)))

    def __lt__(self, o):
        return self._cmp(o, z3.fpLT)

    def __le__(self, o):
        return self._cmp(o, z3.fpLEQ)

    def __gt__(self, o):
        return self._cmp(o, z3.fpGT)

    def __ge__(self, o):
        return self._cmp(o, z3.fpGEQ)

    def __bool__(self):
        return engine().branch(z3.Not(z3.fpIsZero(self.t)))

    def __hash__(self):
        raise Unsupported("hash of a symbolic float")

    def __float__(self):
        raise Unsupported("native float() of a symbolic float")

    def __int__(self):
        raise Unsupported("int() of a symbolic float")

    def is_integer(self):
        raise Unsupported("is_integer of a symbolic float")

    def __str__(self):
        return SymStr(engine().opaque_token(("fpstr", self.t)))

    __repr__ = __str__

    def __format__(self, spec):
        return str(self)


# --------------------------------------------------------------------------
# strings
# --------------------------------------------------------------------------

TOK = "\ue000"
TOKEND = "\ue001"
TOKRE = re.compile(f"{TOK}([^{TOKEND}]*){TOKEND}")


def pieces(s):
    """Split text into ('lit', text) / ('tok', id) pieces."""
    out = []
    pos = 0
    raw = str.__str__(s) if type(s) is not str else s
    for m in TOKRE.finditer(raw):
        if m.start() > pos:
            out.append(("lit", raw[pos : m.start()]))
        out.append(("tok", m.group(1)))
        pos = m.end()
    if pos < len(raw):
        out.append(("lit", raw[pos:]))
    return out


def zstr(text):
    """Z3 string constant for literal text (z3.StringVal escapes non-ASCII)."""
    return z3.StringVal(text.replace("\\", "\\u{5c}"))


def str_term(s):
    ps = pieces(s)
    ts = []
    for kind, x in ps:
        ts.append(zstr(x) if kind == "lit" else engine().token_term(x))
    if not ts:
        return zstr("")
    if len(ts) == 1:
        return ts[0]
    return z3.Concat(*ts)


def plain(s):
    """The exact ``str`` with the same (token-bearing) text."""
    return "".join(x if k == "lit" else f"{TOK}{x}{TOKEND}" for k, x in pieces(s))


def wrap_str(s):
    if type(s) is str and TOK in s:
        return SymStr(s)
    return s


def _re_ident():
    letter = z3.Union(z3.Range("a", "z"), z3.Range("A", "Z"), z3.Re("_"))
    digit = z3.Range("0", "9")
    return z3.Concat(letter, z3.Star(z3.Union(letter, digit)))


class SymStr(str):
    """A str whose text contains tokens for symbolic pieces."""

    __slots__ = ()

    def _eq(self, o):
        if not isinstance(o, str):
            return NotImplemented
        a, b = plain(self), plain(o)
        if a == b:
            return z3.BoolVal(True)
        # cheap refutation/simplification: strip equal literal ends
        return str_term(self) == str_term(o)

    def __eq__(self, o):
        t = self._eq(o)
        return t if t is NotImplemented else mk_bool(t)

    def __ne__(self, o):
        t = self._eq(o)
        return t if t is NotImplemented else mk_bool(z3.Not(t))

    def __lt__(self, o):
        return mk_bool(str_term(self) < str_term(o))

    def __le__(self, o):
        return mk_bool(str_term(self) <= str_term(o))

    def __gt__(self, o):
        return mk_bool(str_term(o) < str_term(self))

    def __ge__(self, o):
        return mk_bool(str_term(o) <= str_term(self))

    def __hash__(self):
        raise Unsupported("native hash of a symbolic str")

    def __bool__(self):
        if any(k == "lit" for k, _ in pieces(self)):
            return True
        return engine().branch(str_term(self) != zstr(""))

    def __str__(self):
        return self

    def __repr__(self):
        return SymStr(engine().opaque_token(("repr", str_term(self))))

    def __format__(self, spec):
        if spec not in ("", "s"):
            raise Unsupported("format spec on a symbolic str")
        return self

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return SymStr(plain(self) + plain(o))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return SymStr(plain(o) + plain(self))

    def __mul__(self, n):
        return SymStr(plain(self) * n) if n > 0 else ""

    __rmul__ = __mul__

    def __len__(self):
        return engine().realize_int(z3.Length(str_term(self)))

    def __contains__(self, o):
        return engine().branch(z3.Contains(str_term(self), str_term(o)))

    def startswith(self, p, *a):
        if a:
            raise Unsupported("startswith with offsets")
        if isinstance(p, tuple):
            return mk_bool(z3.Or(*[z3.PrefixOf(str_term(q), str_term(self)) for q in p]))
        if type(p) is str and len(p) == 1:
            first = pieces(self)[0]
            if first[0] == "lit":
                return first[1][0] == p
            kind, t = engine().token_payload(first[1])
            if kind == "int" and p == "-":
                return mk_bool(t < 0)
        return mk_bool(z3.PrefixOf(str_term(p), str_term(self)))

    def endswith(self, p, *a):
        if a:
            raise Unsupported("endswith with offsets")
        if isinstance(p, tuple):
            return mk_bool(z3.Or(*[z3.SuffixOf(str_term(q), str_term(self)) for q in p]))
        return mk_bool(z3.SuffixOf(str_term(p), str_term(self)))

    def join(self, it):
        return wrap_str(plain(self).join(plain(x) for x in it))

    def isidentifier(self):
        return mk_bool(z3.InRe(str_term(self), _re_ident()))

    def isdigit(self):
        return mk_bool(z3.InRe(str_term(self), z3.Plus(z3.Range("0", "9"))))

    isdecimal = isnumeric = isdigit

    def isalpha(self):
        r = z3.Plus(z3.Union(z3.Range("a", "z"), z3.Range("A", "Z")))
        return mk_bool(z3.InRe(str_term(self), r))

    def isalnum(self):
        r = z3.Union(z3.Range("a", "z"), z3.Range("A", "Z"), z3.Range("0", "9"))
        return mk_bool(z3.InRe(str_term(self), z3.Plus(r)))

    def isascii(self):
        return True

    def replace(self, a, b, count=-1):
        # Only sound when the pattern cannot occur in a symbolic piece or
        # across a boundary; ask the solver.
        if count != -1:
            raise Unsupported("str.replace with count")
        if engine().branch(z3.Contains(str_term(self), str_term(a))):
            r = z3.Function("str.replace_all", *[z3.StringSort()] * 4)
            raise Unsupported("str.replace inside a symbolic piece")
        return self

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i == slice(None, None, None):
                return self
            raise Unsupported("slice of a symbolic str")
        n = z3.Length(str_term(self))
        if type(i) is SymInt:
            raise Unsupported("symbolic index")
        if i < 0:
            if engine().branch(n < -i):
                raise IndexError("string index out of range")
            t = z3.SubString(str_term(self), n + i, 1)
        else:
            if engine().branch(n <= i):
                raise IndexError("string index out of range")
            t = z3.SubString(str_term(self), i, 1)
        return SymStr(engine().string_token(t))

    def __iter__(self):
        raise Unsupported("iteration over a symbolic str")

    def encode(self, *a):
        raise Unsupported("encode of a symbolic str")


def _unsup(name):
    def f(self, *a, **k):
        raise Unsupported(f"str.{name} on a symbolic str")

    f.__name__ = name
    return f


for _n in (
    "split rsplit splitlines partition rpartition strip lstrip rstrip lower upper "
    "title capitalize casefold swapcase center ljust rjust zfill expandtabs "
    "translate find rfind index rindex count isspace isupper islower istitle "
    "isprintable removeprefix removesuffix __mod__ format format_map"
).split():
    setattr(SymStr, _n, _unsup(_n))


def str_of_int(n):
    """str(int) as text with a token for the digits (forks on the sign)."""
    if engine().branch(n.t < 0):
        return SymStr("-" + engine().int_token(-n.t))
    return SymStr(engine().int_token(n.t))


_SCALARS = frozenset({SymInt, SymBool, SymReal, SymFloat, SymStr})


def bears_symbol(x):
    """Does this dict/set key contain a symbolic scalar?"""
    t = type(x)
    if t in _SCALARS:
        return True
    if t is str:
        return TOK in x
    if t is tuple or t is frozenset:
        return any(bears_symbol(y) for y in x)
    return False


def keys_equal(a, b):
    """Key equality for containers; may fork through the solver."""
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta is tuple and tb is tuple:
        if len(a) != len(b):
            return False
        # cheap, fork-free refutation first
        pend = []
        for x, y in zip(a, b):
            if x is y:
                continue
            if bears_symbol(x) or bears_symbol(y):
                pend.append((x, y))
            elif not (x == y):
                return False
        return all(keys_equal(x, y) for x, y in pend)
    r = a == b
    return bool(r)
