"""Path-exploring symbolic execution engine.

A harness is a Python function ``h(E, **params)``.  The engine runs it again
and again under CPython; each run follows one path.  Whenever the code under
test (or the harness) tests a symbolic condition the solver decides which
outcomes are satisfiable with the path condition, and the alternatives not
taken are queued.  ``E.check`` asks the solver for values on the current path
that violate the assertion.
"""

from __future__ import annotations

import fractions
import struct
import sys
import time

import z3

from . import loader
from . import values as V
from .values import PathControl, PathTimeout, Pruned, Unsupported

QUERY_TIMEOUT_MS = 60_000


class Nondeterminism(Exception):
    pass


class Inconclusive(Exception):
    pass


class Stats:
    FIELDS = (
        "paths completed pruned branches forks queries unsat sat trivial "
        "obligations discharged choices"
    ).split()

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0
        self.labels = {}
        self.functions = set()
        self.assumptions = set()
        self.unsupported = {}

    def merge(self, o):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + getattr(o, f))
        self.solver_s += o.solver_s
        for k, v in o.labels.items():
            self.labels[k] = self.labels.get(k, 0) + v
        self.functions |= o.functions
        self.assumptions |= o.assumptions
        for k, v in o.unsupported.items():
            self.unsupported[k] = self.unsupported.get(k, 0) + v


class Address(int):
    """An id or hash: equal to itself only; any order when compared."""

    def __new__(cls, n, v):
        a = int.__new__(cls, v)
        a.n = n
        return a

    def _before(self, o):
        if not isinstance(o, Address) or int(self) == int(o) or self.n == o.n:
            return int(self) < int(o)
        eng = V.engine()
        if not eng.set_order_symbolic:
            return self.n < o.n
        # every order of the first addresses that are compared
        ranks = eng.ghost.setdefault("ranks", [])
        for n in (self.n, o.n):
            if n not in ranks:
                k = eng.choose(f"address.{len(ranks)}", len(ranks) + 1) if len(ranks) < 4 else 0
                ranks.insert(k, n)
        return ranks.index(self.n) < ranks.index(o.n)

    def __lt__(self, o):
        return self._before(o)

    def __gt__(self, o):
        return o._before(self) if isinstance(o, Address) else int(self) > int(o)

    def __le__(self, o):
        return not self.__gt__(o)

    def __ge__(self, o):
        return not self.__lt__(o)

    def __eq__(self, o):
        return int(self) == int(o) if isinstance(o, int) else NotImplemented

    def __ne__(self, o):
        return not self == o if isinstance(o, int) else NotImplemented

    def __hash__(self):
        return int.__hash__(self)


class Engine:
    symbolic = True

    def __init__(self, prefix=(), stats=None, tier="quick"):
        self.strict_math = False
        self.tier = tier
        self.prefix = list(prefix)
        self.pos = 0
        self.trail = []  # decisions taken on this path
        self.alts = []  # (index, alternative decision)
        self.stats = stats or Stats()
        self.solver = z3.Solver()
        self.solver.set("timeout", QUERY_TIMEOUT_MS)
        self.pc = []
        self.known = {}  # term id -> (term, bool) decided on this path
        self.inputs = {}  # name -> (kind, term or value)
        self.tokens = {}  # token id -> payload
        self.ntok = 0
        self.observations = []
        self.violations = []
        self.set_order_symbolic = False
        self.fixed_cache = {}
        self.ctx = None
        self.ghost = {}

    # -- solver -----------------------------------------------------------
    def _check(self, *extra):
        t0 = time.perf_counter()
        self.stats.queries += 1
        if extra:
            self.solver.push()
            for e in extra:
                self.solver.add(e)
            r = self.solver.check()
            self._model = self.solver.model() if r == z3.sat else None
            self.solver.pop()
        else:
            r = self.solver.check()
            self._model = self.solver.model() if r == z3.sat else None
        self.stats.solver_s += time.perf_counter() - t0
        if r == z3.unknown:
            raise Unsupported(f"solver answered unknown ({self.solver.reason_unknown()})")
        if r == z3.sat:
            self.stats.sat += 1
        else:
            self.stats.unsat += 1
        return r == z3.sat

    def add(self, t):
        self.pc.append(t)
        self.solver.add(t)

    # -- decisions ----------------------------------------------------------
    def branch(self, t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        neg = False
        if z3.is_not(t):
            t = t.arg(0)
            neg = True
        k = self.known.get(t.get_id())
        if k is not None:
            return k[1] != neg
        self.stats.branches += 1
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            if d[0] != "b":
                raise Nondeterminism(f"expected {d}, got branch {t}")
            out = d[1]
        else:
            yes = self._check(t)
            no = True if not yes else self._check(z3.Not(t))
            if yes and no:
                self.stats.forks += 1
                self.alts.append((self.pos, ("b", False)))
            out = yes
            if not yes and not no:
                raise Pruned("infeasible path")
        self.pos += 1
        self.trail.append(("b", out))
        self.known[t.get_id()] = (t, out)
        self.add(t if out else z3.Not(t))
        return out != neg

    def choose(self, name, n):
        """A fresh symbolic variable over 0..n-1; the path is split on it."""
        if n <= 0:
            raise Pruned("empty choice")
        if name in self.inputs:
            raise RuntimeError(f"duplicate input {name}")
        if n == 1:
            self.inputs[name] = ("choice", 0)
            return 0
        self.stats.choices += 1
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            if d[0] != "c" or d[2] != n:
                raise Nondeterminism(f"expected {d}, got choice {name}/{n}")
            out = d[1]
        else:
            out = 0
            for i in range(1, n):
                self.alts.append((self.pos, ("c", i, n)))
            self.stats.forks += n - 1
        self.pos += 1
        self.trail.append(("c", out, n))
        self.inputs[name] = ("choice", out)
        v = z3.Int(name)
        self.add(v == out)
        return out

    def realize_int(self, t):
        """Concretise an int term: fork on each feasible value (bounded)."""
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        for _ in range(24):
            if self.pos < len(self.prefix):
                d = self.prefix[self.pos]
                if d[0] != "r":
                    raise Nondeterminism(f"expected {d}, got realize {t}")
                v, out = d[1], d[2]
            else:
                if not self._check():
                    raise Pruned("infeasible path")
                v = self._model.eval(t, model_completion=True).as_long()
                out = True
                if self._check(t != v):
                    self.stats.forks += 1
                    self.alts.append((self.pos, ("r", v, False)))
            self.pos += 1
            self.trail.append(("r", v, out))
            self.add(t == v if out else t != v)
            if out:
                return v
        raise Unsupported("concretisation of an unbounded int")

    def fixed_int(self, t):
        """The value of t if the path condition determines it, else None."""
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        key = (t.get_id(), len(self.pc))
        if key in self.fixed_cache:
            return self.fixed_cache[key][1]
        v = None
        if self._check():
            c = self._model.eval(t, model_completion=True).as_long()
            if not self._check(t != c):
                v = c
        self.fixed_cache[key] = (t, v)
        return v

    # -- inputs ---------------------------------------------------------------
    def _declare(self, name, kind, term):
        if name in self.inputs:
            raise RuntimeError(f"duplicate input {name}")
        self.inputs[name] = (kind, term)

    def int(self, name, lo=None, hi=None):
        t = z3.Int(name)
        self._declare(name, "int", t)
        if lo is not None:
            self.add(t >= lo)
        if hi is not None:
            self.add(t <= hi)
        return V.SymInt(t)

    def str(self, name, kind="any", maxlen=None, avoid=()):
        t = z3.String(name)
        self._declare(name, "str", t)
        if kind == "ident":
            self.add(z3.InRe(t, V._re_ident()))
        elif kind == "printable":
            self.add(z3.InRe(t, z3.Star(z3.Range(" ", "~"))))
        else:
            self.add(z3.InRe(t, z3.Star(z3.Range("\x00", "\x7f"))))
        for a in avoid:
            self.add(t != V.zstr(a))
        if maxlen is not None:
            self.add(z3.Length(t) <= maxlen)
        return V.SymStr(self.string_token(t))

    def real(self, name):
        t = z3.Real(name)
        self._declare(name, "real", t)
        return V.SymReal(t)

    def flt(self, name, finite=True):
        t = z3.FP(name, V.F64)
        self._declare(name, "float", t)
        if finite:
            self.add(z3.Not(z3.Or(z3.fpIsNaN(t), z3.fpIsInf(t))))
        return V.SymFloat(t)

    def garbage(self, name):
        """An arbitrary binary64 value (uninitialised memory); not an input."""
        return V.SymFloat(z3.FP(name, V.F64))

    def boolean(self, name):
        return self.choose(name, 2) == 1

    # -- tokens -----------------------------------------------------------------
    def _token(self, payload):
        tid = str(self.ntok)
        self.ntok += 1
        self.tokens[tid] = payload
        return f"{V.TOK}{tid}{V.TOKEND}"

    def string_token(self, t):
        return self._intern_token(("str", t))

    def int_token(self, t):
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return str(t.as_long())
        return self._intern_token(("int", t))

    def opaque_token(self, payload):
        return self._intern_token(payload)

    def _intern_token(self, payload):
        for tid, p in self.tokens.items():
            if p[0] == payload[0] and p[1].eq(payload[1]):
                return f"{V.TOK}{tid}{V.TOKEND}"
        return self._token(payload)

    def token_term(self, tid):
        kind, t = self.tokens[tid]
        if kind == "str":
            return t
        if kind == "int":
            return z3.If(t < 0, z3.Concat(z3.StringVal("-"), z3.IntToStr(-t)), z3.IntToStr(t))
        if kind == "repr":
            return REPR(t)
        c = z3.String(f"opaque.{tid}")
        if kind == "hex":
            body = z3.Plus(z3.Union(z3.Range("0", "9"), z3.Range("a", "f")))
            self.add(z3.InRe(c, z3.Concat(z3.Re("0x"), body)))
        return c

    def token_payload(self, tid):
        return self.tokens[tid]

    # -- set iteration order --------------------------------------------------------
    def set_order(self, es):
        """An order of the elements: the first two iterations on a path take
        every order (of more than three elements: as listed, reversed, or any
        one of them first); later ones are as listed or all reversed."""
        es = list(es)
        if not self.set_order_symbolic:
            return es
        n = self.ghost.get("setorders", 0)
        self.ghost["setorders"] = n + 1
        if n >= 2:
            if "setmode" not in self.ghost:
                self.ghost["setmode"] = self.choose("setorder.rest", 2)
            return es[::-1] if self.ghost["setmode"] else es
        if len(es) > 3:
            k = self.choose(f"setorder.{n}", len(es) + 1)
            return es[::-1] if k == len(es) else [es[k], *es[:k], *es[k + 1 :]]
        out = []
        while len(es) > 1:
            out.append(es.pop(self.choose(f"setorder.{n}.{len(es)}", len(es))))
        return out + es

    def address(self, obj, what):
        """id() or hash() of an object whose order means nothing."""
        known = self.ghost.setdefault("addresses", [])
        for o, w, a in known:
            if o is obj and w == what:
                return a
        a = Address(len(known), id(obj) if what == "id" else hash(obj))
        known.append((obj, what, a))
        return a

    # -- assertions --------------------------------------------------------------------
    def assume(self, cond):
        t = V.to_bool(cond) if not isinstance(cond, z3.ExprRef) else cond
        t = z3.simplify(t)
        if z3.is_true(t):
            return
        if z3.is_false(t):
            raise Pruned("assumption")
        if self.pos >= len(self.prefix) and not self._check(t):
            raise Pruned("assumption")
        self.add(t)

    def note_assumption(self, text):
        self.stats.assumptions.add(text)

    def check(self, label, cond, detail=""):
        """Assert cond for every value on this path."""
        t = V.to_bool(cond) if not isinstance(cond, z3.ExprRef) else cond
        st = self.stats
        st.obligations += 1
        st.labels[label] = st.labels.get(label, 0) + 1
        t = z3.simplify(t)
        if z3.is_true(t):
            st.trivial += 1
            st.discharged += 1
            return True
        if not self._check(z3.Not(t)):
            st.discharged += 1
            return True
        inputs = self.model_inputs(self._model)
        try:
            text = str(detail() if callable(detail) else detail)
        except (V.PathControl, RecursionError) as e:
            text = f"(no description: {e})"
        self.violations.append({"label": label, "detail": text, "inputs": inputs})
        raise Pruned("violated")

    def fail(self, label, detail=""):
        return self.check(label, False, detail)

    def reached(self, label):
        """Reachability witness: the path condition itself must be satisfiable."""

    def model_inputs(self, m):
        out = {}
        for name, (kind, t) in self.inputs.items():
            out[name] = [kind, t if kind == "choice" else concretise(m, t)]
        return out

    def current_inputs(self):
        if not self._check():
            return None
        return self.model_inputs(self._model), self._model

    # -- calls into the code under test ----------------------------------------------
    def call(self, fn, *a, **k):
        """Run fn; return ('ok', value) or ('exc', exception)."""
        try:
            return "ok", fn(*a, **k)
        except PathControl:
            raise
        except Exception as e:  # noqa: BLE001
            return "exc", e

    def mod(self, name):
        if name in self.ctx.stubs:
            return self.ctx.stubs[name]
        return loader.load(name)

    def renew(self):
        """Forget the package; the next mod() imports it afresh."""
        loader.purge()

    def observe(self, tag, value):
        self.observations.append((tag, value))

    # -- arithmetic helpers shared with the concrete engine --------------------------
    def uf(self, name, *args):
        from .stubs import real_uf

        return real_uf(name, *args)

    def num_eq(self, a, b):
        ta, tb = V.SymReal._t(a), V.SymReal._t(b)
        d = z3.simplify(ta - tb, som=True)
        if z3.is_rational_value(d):
            return d.as_fraction() == 0
        return V.SymBool(ta == tb)

    def flt_eq(self, a, b):
        ta, tb = V.lift_float(a).t, V.lift_float(b).t
        if ta.eq(tb):
            return True
        return V.SymBool(z3.Or(ta == tb, z3.fpEQ(ta, tb)))

    def all(self, conds):
        ts = [V.to_bool(c) for c in conds]
        return V.mk_bool(z3.And(*ts)) if ts else True

    def any(self, conds):
        ts = [V.to_bool(c) for c in conds]
        return V.mk_bool(z3.Or(*ts)) if ts else False

    def not_(self, c):
        return V.mk_bool(z3.Not(V.to_bool(c)))

    def ite(self, c, a, b):
        """Value-level if-then-else on reals."""
        if type(c) is not V.SymBool:
            return a if c else b
        return V.SymReal(z3.If(c.t, V.SymReal._t(a), V.SymReal._t(b)))

    def iff(self, a, b):
        return V.mk_bool(V.to_bool(a) == V.to_bool(b))

    def ufs(self, name, strs, *args):
        """Uninterpreted function of some strings and reals."""
        ss = [V.str_term(s) for s in strs]
        ts = [V.SymReal._t(a) for a in args]
        f = z3.Function(
            f"ufs.{name}.{len(ss)}.{len(ts)}",
            *([z3.StringSort()] * len(ss)),
            *([z3.RealSort()] * len(ts)),
            z3.RealSort(),
        )
        return V.SymReal(f(*ss, *ts))

    def flt_same(self, a, b):
        ta, tb = V.lift_float(a).t, V.lift_float(b).t
        if ta.eq(tb):
            return True
        return V.mk_bool(ta == tb)

    # floating-point semantics used by oracles (independent of the stubs)
    def domain_errors(self):
        """Have pow fail outside its domain (off: results are arbitrary there)."""
        self.strict_math = True

    def f_of_int(self, n):
        return V.int_to_float(n)

    def f_lib(self, name, *args):
        if not any(V.is_sym_scalar(a) for a in args):
            import math

            return getattr(math, name)(*args)
        ts = [V.lift_float(a).t for a in args]
        if name == "pow":
            e = ValueError("math domain error")
            V.pow_domain(ts[0], ts[1], e, e)
        return V.SymFloat(V.fp_uf(name, len(ts))(*ts))

    def f_c(self, name, *args):
        """The C library function (no exceptions): the same as the compiler stub's."""
        from .llvmstub import libcall

        return libcall(name, list(args))

    def flt_near(self, a, b):
        return self.flt_same(a, b)

    def f_fsum(self, xs):
        from .stubs import m_fsum

        return m_fsum(xs)

    def close(self):
        pass

    def real_of_int(self, n):
        return V.SymReal(V.SymReal._t(n))

    def is_symbolic(self, x):
        return V.is_sym_scalar(x)

    def text(self, s):
        return V.plain(s)

    def unescaped(self, s):
        """Formula: repr of the string is just the string in quotes."""
        if not V.is_sym_scalar(s):
            return repr(s) == f"'{s}'"
        ok = z3.Union(z3.Range(" ", "&"), z3.Range("(", "["), z3.Range("]", "~"))
        return V.mk_bool(z3.InRe(V.str_term(s), z3.Star(ok)))

    def pieces(self, s):
        """Text as literal parts, symbolic names and symbolic ints."""
        out = []
        for k, x in V.pieces(s):
            if k == "lit":
                out.append(("lit", x))
                continue
            kind, t = self.tokens[x]
            if kind == "int":
                out.append(("int", V.mk_int(t)))
            elif kind == "repr":
                out.append(("strlit", V.wrap_str(self.string_token(t))))
            else:
                out.append(("name", V.wrap_str(f"{V.TOK}{x}{V.TOKEND}")))
        return out


REPR = z3.Function("repr", z3.StringSort(), z3.StringSort())


def concretise(m, t):
    v = m.eval(t, model_completion=True)
    s = t.sort()
    if s == z3.IntSort():
        return v.as_long()
    if s == z3.RealSort():
        if z3.is_algebraic_value(v):
            v = v.approx(20)
        f = v.as_fraction()
        return f"{f.numerator}/{f.denominator}"
    if s == z3.StringSort():
        return zstring(v)
    if s == V.F64:
        b = z3.simplify(z3.fpToIEEEBV(v))
        if z3.is_bv_value(b):
            return struct.unpack("<d", struct.pack("<Q", b.as_long()))[0].hex()
        return float("nan").hex()
    if s == z3.BoolSort():
        return z3.is_true(v)
    raise Unsupported(f"cannot concretise sort {s}")


def zstring(v):
    s = v.as_string()
    out = []
    i = 0
    while i < len(s):
        if s.startswith("\\u{", i):
            j = s.index("}", i)
            out.append(chr(int(s[i + 3 : j], 16)))
            i = j + 1
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


# --------------------------------------------------------------------------
# path runner
# --------------------------------------------------------------------------


def _profiler(found):
    src = loader.SRC

    def prof(frame, event, arg):
        if event == "call":
            co = frame.f_code
            if co.co_filename.startswith(src) and co.co_name not in (
                "<module>",
                "<genexpr>",
                "<listcomp>",
            ):
                rel = co.co_filename[len(src) + 1 :]
                found.add(f"{rel}:{co.co_qualname}")

    return prof


class PathResult:
    __slots__ = ("status", "alts", "trail", "violations", "sample", "detail", "model")


def run_path(harness, params, prefix, stats, tier, profile=False, want_sample=False):
    """Run one path; return a PathResult."""
    E = Engine(prefix, stats, tier)
    V.set_engine(E)
    E.ctx = loader.fresh(E)
    res = PathResult()
    res.sample = None
    res.detail = ""
    res.model = None
    old_limit = sys.getrecursionlimit()
    try:
        if profile:
            sys.setprofile(_profiler(stats.functions))
        try:
            harness(E, **params)
            res.status = "ok"
        finally:
            if profile:
                sys.setprofile(None)
    except Pruned:
        res.status = "pruned"
    except Unsupported as e:
        res.status = "unsupported"
        res.detail = str(e)
    except PathTimeout as e:
        res.status = "timeout"
        res.detail = "path took too long"
    except Nondeterminism as e:
        res.status = "nondet"
        res.detail = str(e)
    except Exception as e:  # escaped from the code under test or the harness
        import traceback

        res.detail = "".join(traceback.format_exception(e))[-3000:]
        res.status = "crash"
        try:
            if E._check():
                E.violations.append(
                    {
                        "label": f"unexpected-exception:{type(e).__name__}",
                        "detail": res.detail,
                        "inputs": E.model_inputs(E._model),
                    }
                )
        except Unsupported as u:
            res.status = "unsupported"
            res.detail = str(u) + " while handling " + res.detail
    finally:
        sys.setrecursionlimit(old_limit)
    if res.status in ("unsupported", "nondet", "timeout"):
        try:
            ci = E.current_inputs()
            if ci is not None:
                res.model = ci[0]
        except BaseException:  # noqa: BLE001
            res.model = None
    stats.paths += 1
    if res.status == "ok":
        stats.completed += 1
    elif res.status == "pruned":
        stats.pruned += 1
    elif res.status == "unsupported":
        stats.unsupported[res.detail] = stats.unsupported.get(res.detail, 0) + 1
    res.alts = [E.trail[:i] + [d] for i, d in E.alts]
    res.trail = E.trail
    res.violations = E.violations
    if want_sample and res.status == "ok":
        try:
            ci = E.current_inputs()
        except Unsupported:
            ci = None
        if ci is not None:
            inputs, m = ci
            res.sample = {
                "inputs": inputs,
                "observations": [
                    [tag, render(E, m, v)] for tag, v in E.observations
                ],
            }
    E.observations = []
    return res


def _has_uf(t, seen=None):
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and (
                t.num_args() > 0 or t.decl().name().startswith(("uf.", "ufs."))
            ):
                return True
            stack.extend(t.children())
    return False


def render(E, m, v):
    """Concrete, JSON-able rendering of an observed value under a model."""
    t = type(v)
    if t in (V.SymInt, V.SymReal, V.SymBool, V.SymFloat) and _has_uf(v.t):
        return "?"
    if t is V.SymInt or t is V.SymReal:
        r = concretise(m, v.t)
        return ["n", str(fractions.Fraction(r))]
    if t is V.SymBool:
        return concretise(m, v.t)
    if t is V.SymFloat:
        return ["f", concretise(m, v.t)]
    if isinstance(v, str):
        out = []
        for kind, x in V.pieces(v):
            if kind == "lit":
                out.append(x)
            else:
                k, term = E.tokens[x]
                if k == "str":
                    out.append(concretise(m, term))
                elif k == "int":
                    out.append(str(concretise(m, term)))
                else:
                    out.append("<?>")
        return "".join(out)
    if isinstance(v, bool) or v is None:
        return v
    if isinstance(v, (int, fractions.Fraction)):
        return ["n", str(fractions.Fraction(v))]
    if isinstance(v, float):
        return ["f", v.hex()]
    if isinstance(v, (list, tuple)):
        return [render(E, m, x) for x in v]
    return repr(v)
