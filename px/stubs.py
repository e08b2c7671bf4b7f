"""Environment stubs handed to the code under test (see DESIGN.md, "Stubs").

Each stub states the documented contract of the real thing over symbolic
values and falls back to the real thing for concrete ones.
"""

from __future__ import annotations

import collections as _collections
import functools as _functools
import math as _math
import re as _re
import struct as _struct
import types
import weakref as _weakref

import z3

from . import containers as C
from . import values as V
from .loader import SymBits


def _is_sym(x):
    return type(x) in (V.SymInt, V.SymFloat, V.SymReal)


def _mod(name, base=None, **attrs):
    m = types.ModuleType(name)
    if base is not None:
        for k, v in vars(base).items():
            if k not in ("__name__", "__spec__", "__loader__", "__package__"):
                m.__dict__[k] = v
    m.__dict__.update(attrs)
    return m


# --------------------------------------------------------------------------
# math
# --------------------------------------------------------------------------


def real_uf(name, *args):
    ts = [V.SymReal._t(a) for a in args]
    f = z3.Function(f"uf.{name}.{len(ts)}", *([z3.RealSort()] * len(ts)), z3.RealSort())
    return V.SymReal(f(*ts))


def _libm(name):
    real = getattr(_math, name)

    def fn(*args):
        if not any(_is_sym(a) for a in args):
            return real(*args)
        V.engine().note_assumption(
            f"math.{name} is an uninterpreted total function (in-domain arguments)"
        )
        if any(type(a) is V.SymReal for a in args):
            return real_uf(name, *args)
        ts = [V.lift_float(a).t for a in args]
        if name == "pow":
            V.pow_domain(ts[0], ts[1], ValueError("math domain error"), ValueError("math domain error"))
        return V.SymFloat(V.fp_uf(name, len(ts))(*ts))

    fn.__name__ = name
    return fn


def _no_negative_zero(t):
    zero = z3.FPVal(0.0, V.F64)
    return z3.If(z3.fpIsZero(t), zero, t)


def m_fsum(it):
    """Correctly rounded sum, order-independent (math.fsum)."""
    xs = list(it)
    if not any(_is_sym(x) for x in xs):
        return _math.fsum(xs)
    if any(type(x) is V.SymReal for x in xs):
        r = V.SymReal(z3.RealVal(0))
        for x in xs:
            r = r + x
        return r
    V.engine().note_assumption("math.fsum: finite summands, no intermediate overflow")
    ts = [V.lift_float(x).t for x in xs]
    if len(ts) == 1:
        return V.SymFloat(_no_negative_zero(ts[0]))
    if len(ts) == 2:
        return V.SymFloat(_no_negative_zero(V.fp_add(*ts)))
    ts.sort(key=lambda t: t.sexpr())
    return V.SymFloat(V.fp_uf("fsum", len(ts))(*ts))


def m_prod(it, /, *, start=1):
    r = start
    for x in it:
        r = r * x
    return r


def _isfinite_like(name):
    real = getattr(_math, name)
    tests = {"isnan": z3.fpIsNaN, "isinf": z3.fpIsInf}

    def fn(x):
        if type(x) is V.SymFloat:
            if name == "isfinite":
                return V.mk_bool(z3.Not(z3.Or(z3.fpIsNaN(x.t), z3.fpIsInf(x.t))))
            return V.mk_bool(tests[name](x.t))
        if type(x) is V.SymInt:
            return name == "isfinite"
        return real(x)

    return fn


def make_math():
    m = _mod("math", _math)
    for n in (
        "sin cos tan asin acos atan sinh cosh tanh exp log log2 log10 sqrt pow "
        "atan2 expm1 log1p hypot fmod"
    ).split():
        setattr(m, n, _libm(n))
    m.fsum = m_fsum
    m.prod = m_prod
    for n in ("isnan", "isinf", "isfinite"):
        setattr(m, n, _isfinite_like(n))
    return m


# --------------------------------------------------------------------------
# struct
# --------------------------------------------------------------------------


class SymBytes:
    def __init__(self, bv):
        self.bv = bv  # little-endian integer value of the bytes

    def __len__(self):
        return self.bv.size() // 8


def _bswap(bv):
    n = bv.size() // 8
    return z3.simplify(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, bv) for i in range(n)]))


def _fmt(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    order = "<"
    if fmt[:1] in "<>=!@":
        order = {"<": "<", ">": ">", "=": "<", "!": ">", "@": "<"}[fmt[0]]
        fmt = fmt[1:]
    return order, fmt


F32 = z3.Float32()


def s_pack(fmt, *args):
    if not any(_is_sym(a) or isinstance(a, SymBits) for a in args):
        return _struct.pack(fmt, *args)
    order, codes = _fmt(fmt)
    if len(args) != 1 or len(codes) != 1:
        raise V.Unsupported(f"struct.pack {fmt}")
    (x,) = args
    if codes in "df" and not isinstance(x, SymBits):
        t = V.lift_float(x).t
        if codes == "f":
            t = z3.fpToFP(V.RNE, t, F32)
        bv = z3.fpToIEEEBV(t)
    elif codes in "Qq" and isinstance(x, SymBits):
        bv = x.t
    else:
        raise V.Unsupported(f"struct.pack {fmt}")
    return SymBytes(bv if order == "<" else _bswap(bv))


def s_unpack(fmt, data):
    if not isinstance(data, SymBytes):
        return _struct.unpack(fmt, data)
    order, codes = _fmt(fmt)
    bv = data.bv if order == "<" else _bswap(data.bv)
    size = {"d": 8, "Q": 8, "q": 8, "f": 4, "I": 4}.get(codes)
    if size is None:
        raise V.Unsupported(f"struct.unpack {fmt}")
    if size * 8 != bv.size():
        raise _struct.error(f"unpack requires a buffer of {size} bytes")
    if codes == "d":
        return (V.SymFloat(z3.fpBVToFP(bv, V.F64)),)
    if codes == "f":
        return (V.SymFloat(z3.fpToFP(V.RNE, z3.fpBVToFP(bv, F32), V.F64)),)
    if codes == "q":
        raise V.Unsupported("struct.unpack q")
    if codes == "I":
        return (SymBits(bv),)
    return (SymBits(bv),)


def make_struct():
    return _mod("struct", _struct, pack=s_pack, unpack=s_unpack)


# --------------------------------------------------------------------------
# re: refuse symbolic text
# --------------------------------------------------------------------------


def make_re():
    def guard(fn):
        @_functools.wraps(fn)
        def w(*a, **k):
            for x in a:
                if isinstance(x, str) and V.TOK in x:
                    raise V.Unsupported("regular expression on symbolic text")
            return fn(*a, **k)

        return w

    class P:
        def __init__(self, p):
            self._p = p

        def __getattr__(self, n):
            v = getattr(self._p, n)
            return guard(v) if callable(v) else v

    m = _mod("re", _re)
    for n in ("match", "search", "fullmatch", "sub", "subn", "split", "findall", "finditer"):
        setattr(m, n, guard(getattr(_re, n)))
    m.compile = lambda *a, **k: P(_re.compile(*a, **k))
    return m


# --------------------------------------------------------------------------
# assembly of the stub table
# --------------------------------------------------------------------------


class VDefaultDict(C.VDict):
    def __init__(self, factory=None, *a, **k):
        self.default_factory = factory
        super().__init__(*a, **k)

    def __missing__(self, key):
        if self.default_factory is None:
            raise KeyError(key)
        self[key] = v = self.default_factory()
        return v


class VCounter(C.VDict):
    def __init__(self, it=()):
        super().__init__()
        for x in it:
            self[x] = self.get(x, 0) + 1

    def __missing__(self, key):
        return 0


def make_collections():
    m = _mod("collections", _collections)
    m.OrderedDict = C.VDict
    m.defaultdict = VDefaultDict
    m.Counter = VCounter
    import collections.abc as abc

    m.abc = abc
    return m


def make(ctx):
    from . import llvmstub, sympystub

    weak = _mod("weakref", _weakref, WeakValueDictionary=C.VWeakDict)
    func = _mod(
        "functools",
        _functools,
        lru_cache=C.v_lru_cache,
        cache=lambda f: C.v_lru_cache(None)(f),
    )
    import collections.abc as abc

    table = {
        "math": make_math(),
        "struct": make_struct(),
        "re": make_re(),
        "weakref": weak,
        "functools": func,
        "collections": make_collections(),
        "collections.abc": abc,
    }
    table.update(llvmstub.make(ctx))
    table.update(sympystub.make(ctx))
    return table
