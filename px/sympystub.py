"""An inert SymPy: constructors record what was built and evaluate nothing.

SymPy's automatic evaluation is value-preserving and out of scope; what is
decided is which SymPy constructors the conversion code applies to what.
"""

from __future__ import annotations

import types

from . import containers as C
from . import values as V


class _Meta(type):
    def __call__(cls, *args, **kw):
        new = cls.__dict__.get("_make") or getattr(cls, "_make")
        f = getattr(cls, "_make")
        return f(*args, **kw)


def _eq(a, b):
    return V.keys_equal(a, b)


class Basic(metaclass=_Meta):
    is_Add = is_Mul = is_Pow = is_Symbol = is_Integer = is_Rational = False
    is_Number = is_number = is_Float = is_Function = is_Atom = is_Matrix = False
    is_NumberSymbol = is_Boolean = is_Relational = is_Dummy = is_Wild = False
    is_commutative = True
    is_symbol = False

    @classmethod
    def _make(cls, *args, **kw):
        obj = object.__new__(cls)
        obj.args = tuple(sympify(a) for a in args)
        return obj

    @property
    def func(self):
        return type(self)

    def _key(self):
        return (type(self), self.args)

    def __hash__(self):
        return hash((type(self).__name__, len(self.args)))

    def __eq__(self, o):
        if self is o:
            return True
        if not isinstance(o, Basic):
            try:
                o = sympify(o)
            except TypeError:
                return NotImplemented
        if type(self) is not type(o):
            return False
        a, b = self._key()[1:], o._key()[1:]
        return _eq(tuple(a), tuple(b))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def has(self, *a):
        raise V.Unsupported("sympy .has")

    def __add__(self, o):
        return Add(self, sympify(o))

    def __radd__(self, o):
        return Add(sympify(o), self)

    def __mul__(self, o):
        return Mul(self, sympify(o))

    def __rmul__(self, o):
        return Mul(sympify(o), self)

    def __sub__(self, o):
        return Add(self, Mul(Integer(-1), sympify(o)))

    def __rsub__(self, o):
        return Add(sympify(o), Mul(Integer(-1), self))

    def __neg__(self):
        return Mul(Integer(-1), self)

    def __pow__(self, o):
        return Pow(self, sympify(o))

    def __rpow__(self, o):
        return Pow(sympify(o), self)

    def __truediv__(self, o):
        return Mul(self, Pow(sympify(o), Integer(-1)))

    def __rtruediv__(self, o):
        return Mul(sympify(o), Pow(self, Integer(-1)))

    def __repr__(self):
        return f"{type(self).__name__}(...)"


class Expr(Basic):
    pass


class AtomicExpr(Expr):
    is_Atom = True


class Add(Expr):
    is_Add = True

    @classmethod
    def _make(cls, *args, **kw):
        if not args:
            return Integer(0)
        if len(args) == 1:
            return sympify(args[0])
        return super()._make(*args)


class Mul(Expr):
    is_Mul = True

    @classmethod
    def _make(cls, *args, **kw):
        if not args:
            return Integer(1)
        if len(args) == 1:
            return sympify(args[0])
        return super()._make(*args)


class Pow(Expr):
    is_Pow = True

    @classmethod
    def _make(cls, b, e, evaluate=None):
        return super()._make(b, e)

    @property
    def base(self):
        return self.args[0]

    @property
    def exp(self):
        return self.args[1]

    def as_base_exp(self):
        return self.args


class Number(AtomicExpr):
    is_Number = is_number = True


class Rational(Number):
    is_Rational = True

    @classmethod
    def _make(cls, p, q=1):
        if q == 1:
            return Integer._make(p)
        obj = object.__new__(Rational)
        obj.args = ()
        obj.p, obj.q = p, q
        return obj

    def _key(self):
        return (type(self), self.p, self.q)


class Integer(Rational):
    is_Integer = True

    @classmethod
    def _make(cls, p):
        if isinstance(p, Integer):
            return p
        if not isinstance(p, int):
            raise TypeError("Argument of Integer should be of numeric type")
        obj = object.__new__(Integer)
        obj.args = ()
        obj.p, obj.q = p, 1
        return obj

    def __int__(self):
        return self.p if type(self.p) is int else self.p.__index__()

    __index__ = __int__


class Float(Number):
    is_Float = True

    @classmethod
    def _make(cls, x, *a):
        obj = object.__new__(Float)
        obj.args = ()
        obj.num = x
        return obj

    def _key(self):
        return (type(self), self.num)


class NumberSymbol(AtomicExpr):
    is_number = True
    is_NumberSymbol = True


class Pi(NumberSymbol):
    pass


class Symbol(AtomicExpr):
    is_Symbol = is_symbol = True

    @classmethod
    def _make(cls, name, **assumptions):
        if not isinstance(name, str):
            raise TypeError("name should be a string")
        obj = object.__new__(cls)
        obj.args = ()
        obj.name = name
        return obj

    def _key(self):
        return (type(self), self.name)

    def __str__(self):
        return self.name

    __repr__ = __str__


class Dummy(Symbol):
    is_Dummy = True


class Tuple(Basic):
    def __iter__(self):
        return iter(self.args)

    def __len__(self):
        return len(self.args)

    def __getitem__(self, i):
        return self.args[i]

    # SymPy's tuple() of an existing Tuple
    @classmethod
    def _make(cls, *args, **kw):
        return super()._make(*args)


class _FunctionMeta(_Meta):
    def __call__(cls, *args, **kw):
        if cls is Function:
            (name,) = args
            return UndefinedFunction(name)
        return super().__call__(*args, **kw)


class Function(Expr, metaclass=_FunctionMeta):
    is_Function = True

    @property
    def name(self):
        return type(self).__name__


class sin(Function):
    @classmethod
    def _make(cls, *args, **kw):
        if len(args) != 1:
            raise TypeError("sin takes exactly 1 argument")
        return super()._make(*args)


class cos(Function):
    @classmethod
    def _make(cls, *args, **kw):
        if len(args) != 1:
            raise TypeError("cos takes exactly 1 argument")
        return super()._make(*args)


class tan(Function):
    pass


class exp(Function):
    pass


class AppliedUndef(Function):
    @classmethod
    def _make(cls, fn, *args):
        obj = object.__new__(AppliedUndef)
        obj.args = tuple(sympify(a) for a in args)
        obj._fn = fn
        return obj

    @property
    def func(self):
        return self._fn

    @property
    def name(self):
        return self._fn.name

    def _key(self):
        return (type(self), self._fn.name, self.args)


class UndefinedFunction:
    def __init__(self, name):
        if isinstance(name, Symbol):
            name = name.name
        if not isinstance(name, str):
            raise TypeError("expecting a string or Symbol for name")
        self.name = name

    @property
    def __name__(self):
        return self.name

    def __call__(self, *args, **kw):
        return AppliedUndef(self, *args)

    def __eq__(self, o):
        if not isinstance(o, UndefinedFunction):
            return NotImplemented
        return V.keys_equal(self.name, o.name)

    def __hash__(self):
        return hash("UndefinedFunction")

    def __str__(self):
        return self.name

    __repr__ = __str__


def sympify(x, **kw):
    if isinstance(x, (Basic, UndefinedFunction, Matrix)):
        return x
    if isinstance(x, bool):
        raise V.Unsupported("sympify of a bool")
    if isinstance(x, int):
        return Integer(x)
    if isinstance(x, float):
        return Float(x)
    if isinstance(x, (tuple, list)):
        return Tuple(*x)
    if hasattr(x, "_sympy_"):
        return x._sympy_()
    raise TypeError(f"cannot sympify object of type {type(x)}")


class Matrix:
    is_Matrix = True

    def __init__(self, *args):
        if len(args) == 1 and isinstance(args[0], Matrix):
            self.rows, self.cols = args[0].rows, args[0].cols
            self._e = [list(r) for r in args[0]._e]
            self._ord = [(i, list(js)) for i, js in args[0]._order()]
            return
        if len(args) == 1:
            rows = [list(r) for r in args[0]]
            self.rows = len(rows)
            self.cols = len(rows[0]) if rows else 0
            self._e = [[sympify(x) for x in r] for r in rows]
            return
        r, c, *rest = args
        self.rows, self.cols = int(r), int(c)
        self._e = [[Integer(0)] * self.cols for _ in range(self.rows)]
        if rest:
            (x,) = rest
            if isinstance(x, dict):
                for (i, j), v in x.items():
                    self[i, j] = v
            elif callable(x):
                self._e = [
                    [sympify(x(i, j)) for j in range(self.cols)]
                    for i in range(self.rows)
                ]
            else:
                flat = [sympify(v) for v in x]
                if len(flat) != self.rows * self.cols:
                    raise ValueError("List length should be equal to rows*columns")
                for k, v in enumerate(flat):
                    self._e[k // self.cols][k % self.cols] = v

    @classmethod
    def zeros(cls, r, c=None):
        return cls(r, r if c is None else c)

    @property
    def shape(self):
        return (self.rows, self.cols)

    def _ij(self, ij):
        i, j = ij
        i = i + self.rows if i < 0 else i
        j = j + self.cols if j < 0 else j
        if not (0 <= i < self.rows and 0 <= j < self.cols):
            raise IndexError("Index out of range")
        return i, j

    def __getitem__(self, ij):
        if not isinstance(ij, tuple):
            if not 0 <= ij < self.rows * self.cols:
                raise IndexError("Index out of range")
            ij = divmod(ij, self.cols)
        i, j = self._ij(ij)
        return self._e[i][j]

    def __setitem__(self, ij, v):
        i, j = self._ij(ij)
        order = self._order()
        v = sympify(v)
        self._e[i][j] = v
        # SymPy keeps rows and the entries of a row in order of insertion
        row = next((r for r in order if r[0] == i), None)
        if v == Integer(0):
            if row is not None and j in row[1]:
                row[1].remove(j)
                if not row[1]:
                    order.remove(row)
        elif row is None:
            order.append((i, [j]))
        elif j not in row[1]:
            row[1].append(j)

    def _order(self):
        if "_ord" not in self.__dict__:
            self._ord = []
            for i, r in enumerate(self._e):
                js = [j for j, x in enumerate(r) if not (x == Integer(0))]
                if js:
                    self._ord.append((i, js))
        return self._ord

    def __iter__(self):
        return iter([x for r in self._e for x in r])

    def __len__(self):
        return self.rows * self.cols

    def tolist(self):
        return [list(r) for r in self._e]

    def flat(self):
        return list(self)

    def todok(self):
        d = C.VDict()
        for i, js in self._order():
            for j in js:
                d[i, j] = self._e[i][j]
        return d

    def copy(self):
        return type(self)(self)

    def as_mutable(self):
        return Matrix(self)

    def as_immutable(self):
        return Matrix(self)


def make(ctx):
    m = types.ModuleType("sympy")
    for c in (
        Basic, Expr, Add, Mul, Pow, Number, Rational, Integer, Float, Symbol, Dummy,
        Tuple, Function, sin, cos, tan, exp, Matrix,
    ):  # fmt: skip
        setattr(m, c.__name__, c)
    m.zeros = Matrix.zeros
    m.SparseMatrix = Matrix
    m.MutableDenseMatrix = m.ImmutableMatrix = m.MatrixBase = Matrix
    m.sympify = sympify
    m.pi = Pi()
    S = types.SimpleNamespace(
        Zero=Integer(0), One=Integer(1), NegativeOne=Integer(-1), Half=Rational(1, 2)
    )
    m.S = S
    core = types.ModuleType("sympy.core")
    fn = types.ModuleType("sympy.core.function")
    fn.AppliedUndef = AppliedUndef
    fn.UndefinedFunction = UndefinedFunction
    fn.Function = Function
    m.core = core
    core.function = fn
    m.Function = Function
    return {"sympy": m, "sympy.core": core, "sympy.core.function": fn}
