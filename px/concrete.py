"""Concrete engine: runs a harness against the real code with given inputs.

No z3, no instrumentation: the package is imported normally by the
repository's own interpreter.  Used to confirm counterexamples and to check
that sampled symbolic paths predict what the real code does.
"""

from __future__ import annotations

import hashlib
import importlib
import math
import random
import sys
from fractions import Fraction

PKG = "protosym"


class Abort(BaseException):
    pass


def _h(name, n):
    d = hashlib.md5(name.encode()).digest()
    return [Fraction(1 + d[i % 16] % 11, 1 + d[(i + 5) % 16] % 5) for i in range(n)]


def generic_uf(name, *args):
    """A fixed arbitrary function of the arguments, different for each name."""
    key = name + "/" + "/".join(str(Fraction(a)) for a in args)
    d = int.from_bytes(hashlib.md5(key.encode()).digest()[:6], "big")
    return Fraction(1 + d % 1000003, 1 + (d >> 24) % 7)


_GENERIC_FLOATS = [
    1e16, 1.0, -1e16, 0.1, 0.7, 1.3, 2.5, -0.3, 3.0, 0.2, 1e-3, 7.0, 0.9, 1.1
]  # fmt: skip


class ConcreteEngine:
    symbolic = False

    def __init__(self, inputs, variant="model", seed=1, tier="quick"):
        self.given = inputs
        self.variant = variant
        self.rng = random.Random(f"{variant}/{seed}")
        self.observations = []
        self.failures = []
        self.tier = tier
        self.ghost = {}
        self.nfloat = 0
        self.set_order_symbolic = False
        self.reached_labels = []

    # inputs
    def _get(self, name, default):
        v = self.given.get(name)
        return default if v is None else v[1]

    def choose(self, name, n):
        if n <= 0:
            raise Abort("empty choice")
        v = self._get(name, 0)
        if not 0 <= v < n:
            raise Abort("choice out of range")
        return v

    def boolean(self, name):
        return self.choose(name, 2) == 1

    def int(self, name, lo=None, hi=None):
        d = 0
        if lo is not None:
            d = max(d, lo)
        if hi is not None:
            d = min(d, hi)
        return self._get(name, d)

    def str(self, name, kind="any", maxlen=None, avoid=()):
        return self._get(name, "s_" + name)

    def real(self, name):
        if self.variant == "model":
            return Fraction(self._get(name, "1/1"))
        d = _h(f"{self.variant}/{name}", 1)[0]
        return d + Fraction(self.rng.randrange(1, 50), 7)

    def flt(self, name, finite=True):
        if self.variant == "model":
            return float.fromhex(self._get(name, "0x1.8p+0"))
        i = self.nfloat
        self.nfloat += 1
        if self.variant == "canon":
            return _GENERIC_FLOATS[i % len(_GENERIC_FLOATS)]
        if self.variant == "zero":
            return 0.0 if i % 2 == 0 else -0.0
        return self.rng.choice([1, -1]) * self.rng.random() * 10 ** self.rng.randrange(-2, 3)

    # assertions
    def assume(self, cond):
        if not cond:
            raise Abort("assumption")

    def note_assumption(self, text):
        pass

    def check(self, label, cond, detail=""):
        self.reached_labels.append(label)
        if not cond:
            d = detail() if callable(detail) else detail
            self.failures.append([label, str(d)])
            raise Abort("violated")
        return True

    def fail(self, label, detail=""):
        return self.check(label, False, detail)

    def observe(self, tag, value):
        self.observations.append([tag, render(value)])

    # calls
    def call(self, fn, *a, **k):
        try:
            return "ok", fn(*a, **k)
        except Abort:
            raise
        except Exception as e:  # noqa: BLE001
            return "exc", e

    def mod(self, name):
        return importlib.import_module(name)

    def renew(self):
        for k in [k for k in sys.modules if k == "protosym" or k.startswith("protosym.")]:
            del sys.modules[k]

    # arithmetic
    def uf(self, name, *args):
        return generic_uf(name, *args)

    def ufs(self, name, strs, *args):
        return generic_uf(name + "|" + "|".join(strs), *args)

    def num_eq(self, a, b):
        return Fraction(a) == Fraction(b)

    def flt_eq(self, a, b):
        a, b = float(a), float(b)
        if a != a or b != b:
            return a != a and b != b
        return a == b

    def flt_same(self, a, b):
        """Bitwise equality (distinguishes zero signs)."""
        a, b = float(a), float(b)
        if a != a and b != b:
            return True
        return self.flt_eq(a, b) and math.copysign(1, a) == math.copysign(1, b)

    def all(self, conds):
        return all(conds)

    def any(self, conds):
        return any(conds)

    def not_(self, c):
        return not c

    def ite(self, c, a, b):
        return a if c else b

    def iff(self, a, b):
        return bool(a) == bool(b)

    def real_of_int(self, n):
        return Fraction(n)

    def is_symbolic(self, x):
        return False

    def text(self, s):
        return s

    def unescaped(self, s):
        return repr(s) == f"'{s}'"

    def pieces(self, s):
        return [("lit", s)]

    # floating-point semantics used by oracles
    def f_of_int(self, n):
        return float(n)

    def domain_errors(self):
        pass

    def f_lib(self, name, *args):
        return getattr(math, name)(*args)

    def f_c(self, name, *args):
        """The C library function (no exceptions)."""
        import ctypes

        fn = getattr(ctypes.CDLL("libm.so.6"), name)
        fn.restype = ctypes.c_double
        fn.argtypes = [ctypes.c_double] * len(args)
        return fn(*args)

    def flt_near(self, a, b):
        """Bitwise equal, up to the rounding of compiled library functions."""
        a, b = float(a), float(b)
        return self.flt_same(a, b) or abs(a - b) <= 1e-9 * max(abs(a), abs(b))

    def f_fsum(self, xs):
        return math.fsum(xs)

    def close(self):
        pass


def render(v):
    if isinstance(v, bool) or v is None:
        return v
    if isinstance(v, str):
        return v
    if isinstance(v, (int, Fraction)):
        return ["n", str(Fraction(v))]
    if isinstance(v, float):
        return ["f", v.hex()]
    if isinstance(v, (list, tuple)):
        return [render(x) for x in v]
    return repr(v)


def purge():
    for k in [k for k in sys.modules if k == PKG or k.startswith(PKG + ".")]:
        del sys.modules[k]


def run(harness, params, inputs, variant, seed=1, tier="quick"):
    """Returns {'status': ok|abort|fail|error, ...}."""
    import traceback

    purge()
    limit = sys.getrecursionlimit()
    E = ConcreteEngine(inputs, variant, seed, tier)
    out = {"variant": variant}
    try:
        harness(E, **params)
        out["status"] = "ok"
    except Abort as e:
        out["status"] = "fail" if E.failures else "abort"
        out["why"] = str(e)
    except RecursionError as e:
        out["status"] = "error"
        out["failures"] = [["unexpected-exception:RecursionError", repr(e)]]
    except Exception as e:  # noqa: BLE001
        out["status"] = "error"
        out["failures"] = [
            [
                f"unexpected-exception:{type(e).__name__}",
                "".join(traceback.format_exception(e))[-2500:],
            ]
        ]
    finally:
        sys.setrecursionlimit(limit)
        sys.setprofile(None)
        sys.settrace(None)
    if out["status"] == "fail":
        out["failures"] = E.failures
    out["observations"] = E.observations
    return out
