"""Load /repo/src/protosym afresh from source, instrumented for the engine.

Nothing of the package is rewritten by hand: each module's current source is
parsed, dict/set displays and string building are routed to containers and
strings that accept symbolic values, and a module-private ``__builtins__``
supplies symbolic-aware versions of the built-in types and of the environment
modules (weakref, math, struct, functools, ctypes, numpy, llvmlite, sympy).
"""

from __future__ import annotations

import ast
import builtins
import collections.abc
import functools
import importlib
import importlib.abc
import importlib.util
import os
import re
import sys
import types

from . import containers as C
from . import values as V

REPO = os.environ.get("PX_REPO", "/repo")
SRC = os.path.join(REPO, "src")
PKG = "protosym"


# --------------------------------------------------------------------------
# source transformation
# --------------------------------------------------------------------------


def _name(n):
    return ast.Name(id=n, ctx=ast.Load())


class _Transform(ast.NodeTransformer):
    def visit_Dict(self, node):
        self.generic_visit(node)
        if any(k is None for k in node.keys):
            # {**a, k: v}: merge in order
            parts = []
            for k, v in zip(node.keys, node.values):
                if k is None:
                    parts.append(v)
                else:
                    pair = ast.Tuple(elts=[k, v], ctx=ast.Load())
                    parts.append(ast.List(elts=[pair], ctx=ast.Load()))
            return ast.Call(_name("__px_dictmerge__"), parts, [])
        pairs = [
            ast.Tuple(elts=[k, v], ctx=ast.Load())
            for k, v in zip(node.keys, node.values)
        ]
        return ast.Call(
            _name("__px_dict__"), [ast.List(elts=pairs, ctx=ast.Load())], []
        )

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.Call(
            _name("__px_set__"), [ast.List(elts=node.elts, ctx=ast.Load())], []
        )

    def visit_SetComp(self, node):
        self.generic_visit(node)
        lc = ast.ListComp(elt=node.elt, generators=node.generators)
        return ast.Call(_name("__px_set__"), [lc], [])

    def visit_DictComp(self, node):
        self.generic_visit(node)
        pair = ast.Tuple(elts=[node.key, node.value], ctx=ast.Load())
        lc = ast.ListComp(elt=pair, generators=node.generators)
        return ast.Call(_name("__px_dict__"), [lc], [])

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                spec = ast.Constant("")
                if v.format_spec is not None:
                    spec = self.visit_JoinedStr(v.format_spec)
                parts.append(
                    ast.Tuple(
                        elts=[val, ast.Constant(v.conversion), spec], ctx=ast.Load()
                    )
                )
        return ast.Call(_name("__px_fstr__"), parts, [])

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and node.attr in ("join", "format"):
            return ast.Call(
                _name("__px_strattr__"), [node.value, ast.Constant(node.attr)], []
            )
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and (
            isinstance(node.left, ast.Constant) and isinstance(node.left.value, str)
        ):
            return ast.Call(_name("__px_strmod__"), [node.left, node.right], [])
        return node

    # match: a chain of tests, so that classes and values may be symbolic-aware
    def visit_Match(self, node):
        self.generic_visit(node)
        subject = self._temp()
        orelse = []
        for case in reversed(node.cases):
            test = self._test(case.pattern, subject)
            if case.guard is not None:
                test = ast.BoolOp(ast.And(), [test, case.guard])
            orelse = [ast.If(test, case.body, orelse)]
        first = ast.Assign([ast.Name(id=subject, ctx=ast.Store())], node.subject)
        return [ast.copy_location(ast.fix_missing_locations(ast.copy_location(s, node)), node) for s in (first, *orelse)]

    temps = 0

    def _temp(self):
        self.temps += 1
        return f"__px_match_{self.temps}"

    def _bind(self, name, value):
        """Bind and be true."""
        named = ast.NamedExpr(ast.Name(id=name, ctx=ast.Store()), value)
        pair = ast.Tuple([named, ast.Constant(True)], ast.Load())
        return ast.Subscript(pair, ast.Constant(1), ast.Load())

    def _parts(self, helper, args, patterns):
        """The helper gives the parts, each to be tested, or None."""
        t = self._temp()
        call = ast.NamedExpr(ast.Name(id=t, ctx=ast.Store()), ast.Call(_name(helper), args, []))
        tests = [ast.Compare(call, [ast.IsNot()], [ast.Constant(None)])]
        for k, p in enumerate(patterns):
            s = self._temp()
            tests.append(self._bind(s, ast.Subscript(_name(t), ast.Constant(k), ast.Load())))
            tests.append(self._test(p, s))
        return ast.BoolOp(ast.And(), tests) if len(tests) > 1 else tests[0]

    def _test(self, p, s):
        if isinstance(p, ast.MatchValue):
            return ast.Compare(_name(s), [ast.Eq()], [p.value])
        if isinstance(p, ast.MatchSingleton):
            return ast.Compare(_name(s), [ast.Is()], [ast.Constant(p.value)])
        if isinstance(p, ast.MatchAs):
            bound = self._bind(p.name, _name(s)) if p.name else ast.Constant(True)
            if p.pattern is None:
                return bound
            return ast.BoolOp(ast.And(), [self._test(p.pattern, s), bound])
        if isinstance(p, ast.MatchOr):
            return ast.BoolOp(ast.Or(), [self._test(q, s) for q in p.patterns])
        if isinstance(p, ast.MatchStar):
            return self._bind(p.name, _name(s)) if p.name else ast.Constant(True)
        if isinstance(p, ast.MatchSequence):
            star = [k for k, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            at = ast.Constant(star[0] if star else None)
            return self._parts("__px_sequence__", [_name(s), ast.Constant(len(p.patterns)), at], p.patterns)
        if isinstance(p, ast.MatchMapping):
            rest = [] if p.rest is None else [ast.MatchAs(None, p.rest)]
            keys = ast.List(p.keys, ast.Load())
            return self._parts("__px_mapping__", [_name(s), keys, ast.Constant(bool(rest))], [*p.patterns, *rest])
        if isinstance(p, ast.MatchClass):
            args = [_name(s), p.cls, ast.Constant(len(p.patterns)), ast.Constant(tuple(p.kwd_attrs))]
            return self._parts("__px_class__", args, [*p.patterns, *p.kwd_patterns])
        raise NotImplementedError(type(p).__name__)

    # annotations are never evaluated (or harmless): leave them alone
    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node


@functools.lru_cache(maxsize=None)
def _code_for(path, mtime_ns, size):
    with open(path, "rb") as fh:
        tree = ast.parse(fh.read(), path)
    tree = _Transform().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, "exec", dont_inherit=True)


def code_for(path):
    st = os.stat(path)
    return _code_for(path, st.st_mtime_ns, st.st_size)


# --------------------------------------------------------------------------
# symbolic-aware built-ins
# --------------------------------------------------------------------------


class Shim:
    """A callable stand-in for a built-in type."""

    def __init__(self, real, fn, extra=()):
        self._real = real
        self._fn = fn
        self._inst = (real, *extra)
        self.__name__ = real.__name__
        self.__qualname__ = real.__qualname__
        self.__doc__ = real.__doc__

    def __call__(self, *a, **k):
        return self._fn(*a, **k)

    def __instancecheck__(self, x):
        return isinstance(x, self._inst)

    def __subclasscheck__(self, c):
        return c is self or issubclass(c, self._real)

    def __mro_entries__(self, bases):
        return (self._real,)

    def __getattr__(self, n):
        return getattr(self._real, n)

    def __getitem__(self, k):
        return self._real

    def __or__(self, o):
        return (self, o)

    def __ror__(self, o):
        return (o, self)

    def __eq__(self, o):
        return o is self or o is self._real

    def __hash__(self):
        return hash(self._real)

    def __repr__(self):
        return repr(self._real)


def _float(x=0.0):
    t = type(x)
    if t is V.SymFloat:
        return x
    if t is V.SymInt:
        return V.int_to_float(x)
    if t is V.SymReal:
        raise V.Unsupported("float() of a symbolic real")
    if t is V.SymBool:
        return float(bool(x))
    if isinstance(x, str) and V.TOK in x:
        raise V.Unsupported("float() of symbolic text")
    return float(x)


def _int(x=0, *a):
    t = type(x)
    if t is V.SymInt:
        return x
    if t in (V.SymFloat, V.SymReal):
        raise V.Unsupported("int() of a symbolic float")
    if isinstance(x, str) and V.TOK in x:
        raise V.Unsupported("int() of symbolic text")
    return int(x, *a)


def _bool(x=False):
    return bool(x)


def _len(x):
    if type(x) is V.SymStr:
        import z3

        return V.mk_int(z3.Length(V.str_term(x)))
    return len(x)


def _hash(x):
    h = hash(x)
    if V.engine().set_order_symbolic and type(x) is not int and "__hash__" not in _defined(type(x)):
        return V.engine().address(x, "hash")
    return h


def _defined(cls):
    return [k for c in cls.__mro__ if c is not object and getattr(c, "__module__", "").split(".")[0] == PKG for k in vars(c)]


def _id(x):
    if V.engine().set_order_symbolic:
        return V.engine().address(x, "id")
    return id(x)


def _type(*a):
    if len(a) != 1:
        return type(*a)
    x = a[0]
    t = type(x)
    if t is V.SymInt or t is int:
        return _SH["int"]
    if t is V.SymFloat or t is float:
        return _SH["float"]
    if t is V.SymStr:
        return str
    if t is V.SymBool:
        return bool
    return t


def _hex(x):
    if isinstance(x, SymBits):
        return V.SymStr(V.engine().opaque_token(("hex", x.t)))
    return hex(x)


def _ascii(x):
    return repr(x)


class SymBits:
    """A 64-bit pattern (result of struct.unpack)."""

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return int

    def __format__(self, spec):
        tok = V.engine().opaque_token(("hex", self.t))
        if spec in ("#x", "#018x", "#X"):
            return V.SymStr(tok)
        if spec in ("x", "016x", "X", "016X"):
            return V.SymStr(V.engine().opaque_token(("hexdigits", self.t)))
        raise V.Unsupported("format of symbolic bits")

    def __repr__(self):
        return V.SymStr(V.engine().opaque_token(("bitsdec", self.t)))

    __str__ = __repr__


_SH = {}
_SH["float"] = Shim(float, _float, (V.SymFloat,))
_SH["int"] = Shim(int, _int, (V.SymInt,))
_SH["type"] = Shim(type, _type)


def _isinstance(x, cls):
    """isinstance accepting shims nested in tuples."""
    if type(cls) is tuple:
        return any(_isinstance(x, c) for c in cls)
    return isinstance(x, cls)


# string helpers ------------------------------------------------------------


def _fstr(*parts):
    out = []
    for p in parts:
        if type(p) is not tuple:
            out.append(p)
            continue
        val, conv, spec = p
        if conv == 114:
            val = repr(val)
        elif conv == 115:
            val = str(val)
        elif conv == 97:
            val = ascii(val)
        s = format(val, spec) if type(spec) is str else format(val, V.plain(spec))
        out.append(V.plain(s))
    return V.wrap_str("".join(out))


class _StrMeth:
    __slots__ = ("s", "n")

    def __init__(self, s, n):
        self.s = s
        self.n = n

    def __call__(self, *a, **k):
        if self.n == "join":
            (it,) = a
            items = []
            for x in it:
                if not isinstance(x, str):
                    raise TypeError(
                        f"sequence item {len(items)}: expected str instance, "
                        f"{type(x).__name__} found"
                    )
                items.append(V.plain(x))
            return V.wrap_str(V.plain(self.s).join(items))
        if self.n == "format":
            return V.wrap_str(V.plain(self.s).format(*a, **k))
        raise AttributeError(self.n)


def _strattr(obj, name):
    if isinstance(obj, str):
        return _StrMeth(obj, name)
    if obj is str:
        return lambda s, *a, **k: _StrMeth(s, name)(*a, **k)
    return getattr(obj, name)


_CONVERSION = re.compile(r"%(?:\((?P<key>[^)]*)\))?(?P<spec>[-#0 +]*\d*(?:\.\d+)?)(?P<conv>[a-zA-Z])?")


def _strmod(fmt, args):
    """fmt % args; plain %s, %r, %d and %i keep symbolic values symbolic."""
    given = args.values() if isinstance(args, dict) else args
    given = given if isinstance(given, (tuple, type({}.values()))) else (given,)
    if not any(_symbolic(a) for a in given):
        return V.wrap_str(fmt % args)
    todo = list(args) if type(args) is tuple else [args]
    out = []
    pos = 0
    while pos < len(fmt):
        if fmt[pos] != "%":
            end = fmt.find("%", pos)
            end = len(fmt) if end < 0 else end
            out.append(fmt[pos:end])
            pos = end
            continue
        m = _CONVERSION.match(fmt, pos)
        if fmt.startswith("%%", pos):
            out.append("%")
            pos += 2
            continue
        conv, key, spec = m.group("conv"), m.group("key"), m.group("spec")
        if conv is None:
            raise ValueError("incomplete format")
        if key is not None:
            value = args[key]
        elif todo:
            value = todo.pop(0)
        else:
            raise TypeError("not enough arguments for format string")
        if spec == "" and conv in "sr":
            value = repr(value) if conv == "r" else str(value)
            out.append(V.plain(value))
        elif spec == "" and conv in "di" and type(value) in (V.SymInt, V.SymBool):
            out.append(V.plain(V.str_of_int(value) if type(value) is V.SymInt else format(int(value))))
        else:
            out.append(V.plain("%" + spec + conv) % (value,))
        pos = m.end()
    if todo and type(args) is tuple:
        raise TypeError("not all arguments converted during string formatting")
    return V.wrap_str("".join(out))


def _symbolic(x):
    return type(x) in (V.SymInt, V.SymBool, V.SymFloat, V.SymReal, V.SymStr)


def _dictmerge(*parts):
    d = C.VDict()
    for p in parts:
        d.update(p)
    return d


def _sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def _sum_fn(it, /, start=0):
    items = list(it)
    if any(type(x) in (V.SymInt, V.SymFloat, V.SymReal) for x in items):
        return _sum(items, start)
    return sum(items, start)


def _match_sequence(x, n, star):
    """Parts of a sequence pattern of n parts, or None."""
    if not isinstance(x, collections.abc.Sequence) or isinstance(x, (str, bytes, bytearray)):
        return None
    if star is None:
        return list(x) if len(x) == n else None
    if len(x) < n - 1:
        return None
    after = n - star - 1
    xs = list(x)
    end = len(xs) - after
    return [*xs[:star], xs[star:end], *xs[end:]]


def _match_mapping(x, keys, rest):
    if not isinstance(x, (C.VDict, collections.abc.Mapping)):
        return None
    out = []
    for k in keys:
        if k not in x:
            return None
        out.append(x[k])
    if rest:
        d = C.VDict(list(x.items()))
        for k in keys:
            del d[k]
        out.append(d)
    return out


_SELF_MATCHED = (bool, bytearray, bytes, dict, float, frozenset, int, list, set, str, tuple)


def _match_class(x, cls, n, names):
    if not _isinstance(x, cls):
        return None
    out = []
    if n:
        real = getattr(cls, "_real", cls)
        if n == 1 and (real in _SELF_MATCHED or cls in (C.VDict, C.VSet, C.VFrozenSet)):
            out.append(x)
        else:
            given = getattr(cls, "__match_args__", ())
            if n > len(given):
                raise TypeError(f"{cls.__name__}() accepts {len(given)} positional sub-patterns ({n} given)")
            names = (*given[:n], *names)
    for a in names:
        try:
            out.append(getattr(x, a))
        except AttributeError:
            return None
    return out


# --------------------------------------------------------------------------
# module finder
# --------------------------------------------------------------------------


class Context:
    """One instrumented load of the package (its stubs and built-ins)."""

    def __init__(self, engine):
        from . import stubs

        self.engine = engine
        self.stubs = stubs.make(self)
        b = dict(vars(builtins))
        b.update(
            {
                "dict": C.VDict,
                "set": C.VSet,
                "frozenset": C.VFrozenSet,
                "float": _SH["float"],
                "int": _SH["int"],
                "type": _SH["type"],
                "len": _len,
                "hash": _hash,
                "id": _id,
                "hex": _hex,
                "sum": _sum_fn,
                "isinstance": _isinstance,
                "__import__": self._import,
                "__px_dict__": C.VDict,
                "__px_dictmerge__": _dictmerge,
                "__px_set__": C.VSet,
                "__px_fstr__": _fstr,
                "__px_strattr__": _strattr,
                "__px_strmod__": _strmod,
                "__px_sequence__": _match_sequence,
                "__px_mapping__": _match_mapping,
                "__px_class__": _match_class,
            }
        )
        self.builtins = b

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0:
            root = name.partition(".")[0]
            if root == "rust_protosym":
                raise ImportError("No module named 'rust_protosym'")
            if root in self.stubs:
                if fromlist:
                    if name not in self.stubs:
                        raise ImportError(f"no stub for {name}")
                    return self.stubs[name]
                return self.stubs[root]
        return builtins.__import__(name, globals, locals, fromlist, level)


_CTX = None


class _Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        module.__dict__["__builtins__"] = _CTX.builtins
        module.__dict__["__file__"] = self.path
        exec(code_for(self.path), module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != PKG and not name.startswith(PKG + "."):
            return None
        rel = name.replace(".", "/")
        pkg = os.path.join(SRC, rel, "__init__.py")
        mod = os.path.join(SRC, rel + ".py")
        if os.path.exists(pkg):
            return importlib.util.spec_from_loader(
                name, _Loader(pkg), origin=pkg, is_package=True
            )
        if os.path.exists(mod):
            return importlib.util.spec_from_loader(name, _Loader(mod), origin=mod)
        return None


_FINDER = _Finder()


def purge():
    for k in [k for k in sys.modules if k == PKG or k.startswith(PKG + ".")]:
        del sys.modules[k]


def fresh(engine):
    """Forget every loaded module of the package; the next import is fresh."""
    global _CTX
    purge()
    if _FINDER not in sys.meta_path:
        sys.meta_path.insert(0, _FINDER)
    _CTX = Context(engine)
    return _CTX


def load(name):
    return importlib.import_module(name)
