"""Stand-ins for llvmlite, ctypes and numpy over symbolic doubles.

``parse_assembly`` parses the LLVM IR text the code under test produced (text
that may contain symbolic names and symbolic hexadecimal constants) and the
"compiled" function interprets it over IEEE binary64 terms.  What real LLVM
rejects (undefined or redefined values, malformed names, wrong instruction
shapes) raises RuntimeError as llvmlite does.  pow/sin/cos are uninterpreted.
Optimisation passes are taken to preserve IEEE semantics.
"""

from __future__ import annotations

import ctypes as _ctypes
import math as _math
import re
import types
import weakref

import z3

from . import values as V


class MemoryFault(Exception):
    """The compiled code touched memory it must not touch."""


# --------------------------------------------------------------------------
# IR text
# --------------------------------------------------------------------------

_WORD = re.compile(
    rf"""
    (?P<ws>[\s]+|;[^\n]*)
  | (?P<gname>@"[^"]*"|@[-a-zA-Z$._0-9]+)
  | (?P<lname>%"[^"]*"|%[-a-zA-Z$._0-9]+)
  | (?P<str>"[^"]*")
  | (?P<hexlit>0x[0-9A-Fa-f]+)
  | (?P<num>-?\d+\.\d*(?:[eE][-+]?\d+)?)
  | (?P<int>-?\d+)
  | (?P<label>[-a-zA-Z$._][-a-zA-Z$._0-9]*:)
  | (?P<word>[a-zA-Z_][a-zA-Z_0-9.]*)
  | (?P<attr>\#\d+|!\w*)
  | (?P<tok>-?0x{V.TOK}[^{V.TOKEND}]*{V.TOKEND}|-?{V.TOK}[^{V.TOKEND}]*{V.TOKEND})
  | (?P<punct>[(){{}},=*\[\]<>|])
    """,
    re.X,
)


class ParseError(RuntimeError):
    def __init__(self, msg):
        super().__init__("LLVM IR parsing error\n" + msg)


def _unescape(lit):
    """\\xx and \\\\ in quoted names."""
    out = []
    i = 0
    while i < len(lit):
        if lit[i] == "\\" and i + 1 < len(lit) and lit[i + 1] == "\\":
            out.append("\\")
            i += 2
        elif (
            lit[i] == "\\"
            and i + 2 < len(lit)
            and all(c in "0123456789abcdefABCDEF" for c in lit[i + 1 : i + 3])
        ):
            out.append(chr(int(lit[i + 1 : i + 3], 16)))
            i += 3
        else:
            out.append(lit[i])
            i += 1
    return "".join(out)


def _name(raw):
    """Text of a (possibly quoted, possibly symbolic) identifier after %/@."""
    if not raw.startswith('"'):
        return raw
    body = raw[1:-1]
    if V.TOK not in body:
        name = _unescape(body)
        if name == "" or "\0" in name:
            raise ParseError("invalid value name")
        return name
    # symbolic characters inside the quotes
    s = V.SymStr(body)
    e = V.engine()
    t = V.str_term(s)
    for bad in ('"', "\0"):
        if e.branch(z3.Contains(t, V.zstr(bad))):
            raise ParseError("character not allowed in a name")
    if e.branch(t == V.zstr("")):
        raise ParseError("expected a value name")
    if e.branch(z3.Contains(t, V.zstr("\\"))):
        hexd = z3.Union(z3.Range("0", "9"), z3.Range("a", "f"), z3.Range("A", "F"))
        esc = z3.Concat(z3.Re("\\"), z3.Union(z3.Re("\\"), z3.Concat(hexd, hexd)))
        any_ = z3.Star(z3.AllChar(z3.ReSort(z3.StringSort())))
        if e.branch(z3.InRe(t, z3.Concat(any_, esc, any_))):
            # the name LLVM sees differs from the text: some other name
            other = z3.String(f"llvm.unescaped.{len(e.tokens)}")
            return V.SymStr(e.string_token(other))
    return s


def _same(a, b):
    return V.keys_equal(a, b) if (V.bears_symbol(a) or V.bears_symbol(b)) else a == b


class _Names:
    def __init__(self):
        self.items = []

    def get(self, n):
        for k, v in self.items:
            if _same(k, n):
                return v
        return None

    def define(self, n, v):
        if self.get(n) is not None:
            raise ParseError("redefinition of a value")
        self.items.append((n, v))


class _Lex:
    def __init__(self, text):
        self.toks = []
        pos = 0
        while pos < len(text):
            m = _WORD.match(text, pos)
            if m is None:
                raise ParseError(f"unexpected text at {text[pos:pos+20]!r}")
            if m.lastgroup != "ws":
                self.toks.append((m.lastgroup, m.group()))
            pos = m.end()
        self.i = 0

    def peek(self, k=0):
        return self.toks[self.i + k] if self.i + k < len(self.toks) else ("eof", "")

    def next(self):
        t = self.peek()
        self.i += 1
        return t

    def accept(self, text):
        if self.peek()[1] == text:
            self.i += 1
            return True
        return False

    def expect(self, text):
        k, t = self.next()
        if t != text:
            raise ParseError(f"expected {text!r}, got {t!r}")


_SKIP_ATTR = {
    "nounwind", "noinline", "alwaysinline", "nocapture", "noalias", "readonly",
    "writeonly", "readnone", "noundef", "local_unnamed_addr", "unnamed_addr",
    "dso_local", "inbounds", "tail", "private", "internal", "external", "nonnull",
    "fastcc", "ccc", "willreturn", "nofree", "nosync", "speculatable",
}  # fmt: skip
_FAST = {"fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"}


class Module:
    def __init__(self, text):
        self.funcs = []
        self.decls = []
        self.parse(_Lex(text))
        self.triple = ""
        self.data_layout = ""
        self.name = "mod"

    def verify(self):
        return None

    # -- parser -----------------------------------------------------------------
    def parse(self, L):
        while L.peek()[0] != "eof":
            k, t = L.next()
            if t in ("target", "source_filename"):
                while L.peek()[0] != "str":
                    L.next()
                L.next()
            elif t == "attributes":
                while not L.accept("}"):
                    if L.peek()[0] == "eof":
                        raise ParseError("end of file")
                    L.next()
            elif t == "declare":
                ret, name, params = self.signature(L)
                if any(n == name for n, _ in self.decls):
                    raise ParseError("redefinition of function")
                if name.startswith("llvm."):
                    base = name.split(".")
                    if base[1] in ("pow", "sin", "cos", "sqrt", "exp", "log", "fabs") and (
                        ret != "double" or len(params) != (2 if base[1] == "pow" else 1)
                    ):
                        raise ParseError("intrinsic has incorrect argument type")
                self.decls.append((name, [p[0] for p in params]))
            elif t == "define":
                self.funcs.append(self.define(L))
            elif k in ("attr",):
                continue
            else:
                raise ParseError(f"expected top-level entity, got {t!r}")
        for f in self.funcs:
            self.check(f)

    def type(self, L):
        k, t = L.next()
        if t in ("double", "i32", "i64", "i8", "void", "float", "ptr", "i1"):
            while L.accept("*"):
                t += "*"
            return t
        raise ParseError(f"expected type, got {t!r}")

    def skip_attrs(self, L):
        while L.peek()[1] in _SKIP_ATTR or L.peek()[0] == "attr":
            L.next()

    def signature(self, L):
        self.skip_attrs(L)
        ret = self.type(L)
        k, t = L.next()
        if k != "gname":
            raise ParseError("expected function name")
        name = _name(t[1:])
        L.expect("(")
        params = []
        if not L.accept(")"):
            while True:
                ty = self.type(L)
                self.skip_attrs(L)
                pn = None
                if L.peek()[0] == "lname":
                    pn = L.next()[1][1:]
                params.append((ty, pn))
                if L.accept(")"):
                    break
                L.expect(",")
        self.skip_attrs(L)
        return ret, name, params

    def define(self, L):
        ret, name, params = self.signature(L)
        L.expect("{")
        names = _Names()
        args = []
        nxt = 0
        for ty, pn in params:
            if pn is None:
                pn = str(nxt)
                nxt += 1
            args.append((ty, len(args)))
            names.define(_name(pn), ("arg", len(args) - 1, ty))
        body = []
        if L.peek()[0] == "label":
            L.next()
        done = False
        while not L.accept("}"):
            if done:
                raise ParseError("instruction after terminator (single block expected)")
            done = self.instr(L, names, body, ret)
        if not done:
            raise ParseError("expected instruction: block has no terminator")
        return {"name": name, "ret": ret, "params": [p[0] for p in params], "body": body}

    def value(self, L, ty, names):
        k, t = L.next()
        if k == "lname":
            v = names.get(_name(t[1:]))
            if v is None:
                raise ParseError("use of undefined value")
            vty = v[2]
            if vty != ty and not (ty == "ptr" and vty.endswith("*")):
                raise ParseError(f"value of type {vty} where {ty} expected")
            return v
        if ty == "double":
            if k == "tok":
                return ("const", self.tokconst(t))
            if k == "hexlit":
                digits = t[2:]
                if len(digits) > 16:
                    raise ParseError("constant bigger than 64 bits")
                n = int(digits, 16)
                import struct

                return ("const", struct.unpack("<d", struct.pack("<Q", n))[0])
            if k == "num":
                return ("const", float(t))
            if k == "int":
                raise ParseError("integer constant must have integer type")
            raise ParseError(f"expected value, got {t!r}")
        if ty in ("i32", "i64"):
            if k == "int":
                return ("const", int(t))
            if k == "tok":
                raise V.Unsupported("symbolic integer constant in IR")
        raise ParseError(f"expected {ty} value, got {t!r}")

    def tokconst(self, t):
        neg = t.startswith("-")
        if neg:
            raise ParseError("expected value token")
        ox = t.startswith("0x")
        if ox:
            t = t[2:]
        kind, payload = V.engine().token_payload(t[1:-1])
        if kind == "hexdigits" and ox or kind == "hex" and not ox:
            bv = payload
            if bv.size() != 64:
                if bv.size() < 64:
                    bv = z3.ZeroExt(64 - bv.size(), bv)
                else:
                    raise ParseError("constant too wide")
            if bv.decl().kind() == z3.Z3_OP_FPA_TO_IEEE_BV:
                return V.SymFloat(bv.arg(0))
            return V.SymFloat(z3.fpBVToFP(bv, V.F64))
        if kind == "int":
            raise ParseError("integer constant must have integer type")
        if kind == "fpstr":
            # repr of a double: accepted by LLVM only for some values
            raise V.Unsupported("decimal text of a symbolic double in IR")
        raise V.Unsupported(f"{kind} text in IR")

    def flags(self, L):
        fl = False
        while L.peek()[1] in _FAST:
            L.next()
            fl = True
        return fl

    def callee(self, name):
        for n, tys in self.decls:
            if n == name:
                return tys
        raise ParseError(f"use of undefined value @{name}")

    def instr(self, L, names, body, ret):
        k, t = L.next()
        dest = None
        if k == "lname":
            dest = _name(t[1:])
            L.expect("=")
            k, t = L.next()
        while t in ("tail", "musttail", "notail"):
            k, t = L.next()
        res = None
        if t in ("fadd", "fmul", "fsub", "fdiv", "frem"):
            fast = self.flags(L)
            if self.type(L) != "double":
                raise ParseError("double expected")
            a = self.value(L, "double", names)
            L.expect(",")
            b = self.value(L, "double", names)
            res = ("bin", t + (".fast" if fast else ""), a, b)
            ty = "double"
        elif t == "fneg":
            self.flags(L)
            if self.type(L) != "double":
                raise ParseError("double expected")
            res = ("neg", self.value(L, "double", names))
            ty = "double"
        elif t == "call":
            fast = self.flags(L)
            self.skip_attrs(L)
            ty = self.type(L)
            k, g = L.next()
            if k != "gname":
                raise ParseError("expected callee")
            name = _name(g[1:])
            tys = self.callee(name)
            L.expect("(")
            args = []
            if not L.accept(")"):
                while True:
                    at = self.type(L)
                    args.append((at, self.value(L, at, names)))
                    if L.accept(")"):
                        break
                    L.expect(",")
            self.skip_attrs(L)
            if [a for a, _ in args] != tys:
                raise ParseError("call signature mismatch")
            res = ("call", name + (".fast" if fast else ""), [v for _, v in args])
        elif t == "getelementptr":
            self.skip_attrs(L)
            base = self.type(L)
            L.expect(",")
            pty = self.type(L)
            if pty not in (base + "*", "ptr"):
                raise ParseError("explicit pointee type doesn't match operand's pointee type")
            p = self.value(L, pty, names)
            L.expect(",")
            ity = self.type(L)
            i = self.value(L, ity, names)
            res = ("gep", p, i, base)
            ty = pty
        elif t == "store":
            vty = self.type(L)
            v = self.value(L, vty, names)
            L.expect(",")
            pty = self.type(L)
            p = self.value(L, pty, names)
            if L.accept(","):
                L.expect("align")
                L.next()
            if pty not in (vty + "*", "ptr"):
                raise ParseError("stored value and pointer type do not match")
            if dest is not None:
                raise ParseError("store has no result")
            body.append(("store", v, p))
            return False
        elif t == "load":
            ty = self.type(L)
            L.expect(",")
            pty = self.type(L)
            p = self.value(L, pty, names)
            if L.accept(","):
                L.expect("align")
                L.next()
            res = ("load", p)
        elif t == "ret":
            rty = self.type(L)
            if rty != ret:
                raise ParseError("value doesn't match function result type")
            body.append(("ret", None if rty == "void" else self.value(L, rty, names)))
            return True
        else:
            raise ParseError(f"expected instruction opcode, got {t!r}")
        idx = len(body)
        body.append(res)
        if dest is None and ty != "void":
            raise V.Unsupported("unnamed IR result")
        if dest is not None:
            names.define(dest, ("ins", idx, ty))
        return False

    def check(self, f):
        pass


def fop(op, a, b):
    if op == "fadd":
        return a + b
    if op == "fmul":
        return a * b
    if op == "fsub":
        return a - b
    fa, fb = V.lift_float(a).t, V.lift_float(b).t
    if op == "fdiv":
        return V.SymFloat(z3.fpDiv(V.RNE, fa, fb))
    return V.SymFloat(V.fp_uf("llvm." + op, 2)(fa, fb))


def libcall(name, args):
    base = name.split(".")
    fn = base[1] if base[0] == "llvm" else base[0]
    if fn == "fabs":
        return abs(args[0])
    if base[-1] == "fast":
        fn += ".fast"
    if any(type(a) is V.SymFloat for a in args):
        return V.SymFloat(V.fp_uf(fn, len(args))(*[V.lift_float(a).t for a in args]))
    try:
        return getattr(_math, fn)(*args)
    except (ValueError, OverflowError, ZeroDivisionError):
        return V.SymFloat(V.fp_uf(fn, len(args))(*[V.lift_float(a).t for a in args]))


class Pointer:
    def __init__(self, arr, off):
        self.arr = arr
        self.off = off


def interpret(fn, args):
    env = []

    def val(v):
        if v[0] == "const":
            return v[1]
        if v[0] == "arg":
            return args[v[1]]
        return env[v[1]]

    for ins in fn["body"]:
        r = None
        op = ins[0]
        if op == "bin":
            r = fop(ins[1], val(ins[2]), val(ins[3]))
        elif op == "neg":
            r = -val(ins[1])
        elif op == "call":
            r = libcall(ins[1], [val(v) for v in ins[2]])
        elif op == "gep":
            p, i = val(ins[1]), val(ins[2])
            if ins[3] != "double":
                raise V.Unsupported("getelementptr over a non-double element")
            r = Pointer(p.arr, p.off + i)
        elif op == "store":
            p = val(ins[2])
            if not 0 <= p.off < len(p.arr.cells):
                raise MemoryFault(f"store at element {p.off} of {len(p.arr.cells)}")
            p.arr.cells[p.off] = val(ins[1])
        elif op == "load":
            p = val(ins[1])
            if not 0 <= p.off < len(p.arr.cells):
                raise MemoryFault(f"load at element {p.off} of {len(p.arr.cells)}")
            r = p.arr.cells[p.off]
        elif op == "ret":
            return None if ins[1] is None else val(ins[1])
        env.append(r)
    raise RuntimeError("no terminator")


# --------------------------------------------------------------------------
# llvmlite.binding
# --------------------------------------------------------------------------

_CODE = {}  # address -> (weakref to engine, function, strong module)
_NEXT = [0x1000]


class Address(int):
    pass


class Engine:
    def __init__(self, mod):
        self.mod = mod
        self.final = False

    def finalize_object(self):
        self.final = True

    def run_static_constructors(self):
        pass

    def add_module(self, mod):
        self.mod = mod

    def get_function_address(self, name):
        for f in self.mod.funcs:
            if _same(f["name"], name):
                _NEXT[0] += 16
                _CODE[_NEXT[0]] = (weakref.ref(self), f)
                return _NEXT[0]
        return 0


class _Any:
    """An object on which every attribute and call is harmless."""

    def __init__(self):
        self.__dict__["_d"] = {}

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **k: _Any()

    def __setattr__(self, n, v):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def make_llvm():
    b = types.ModuleType("llvmlite.binding")
    for n in (
        "initialize initialize_native_target initialize_native_asmprinter "
        "initialize_all_targets initialize_all_asmprinters check_jit_execution "
        "load_library_permanently"
    ).split():
        setattr(b, n, lambda *a, **k: None)

    def parse_assembly(text, context=None):
        return Module(V.plain(text))

    b.parse_assembly = parse_assembly
    b.ModuleRef = Module
    b.create_pass_manager_builder = lambda *a, **k: _Any()
    b.PassManagerBuilder = lambda *a, **k: _Any()
    b.create_module_pass_manager = lambda *a, **k: _Any()
    b.ModulePassManager = lambda *a, **k: _Any()
    b.create_context = lambda *a, **k: _Any()
    b.Target = _Any()
    b.get_default_triple = lambda: "x86_64-unknown-linux-gnu"
    b.create_mcjit_compiler = lambda mod, tm: Engine(mod)
    root = types.ModuleType("llvmlite")
    root.binding = b
    root.__path__ = []
    return {"llvmlite": root, "llvmlite.binding": b}


# --------------------------------------------------------------------------
# ctypes
# --------------------------------------------------------------------------


class CType:
    def __init__(self, name, base=None):
        self.name = name
        self.base = base
        self.__name__ = name

    def __call__(self, x=0):
        return x

    def __repr__(self):
        return self.name


C_DOUBLE = CType("c_double")
_PTRS = {}


def POINTER(t):
    if t not in _PTRS:
        _PTRS[t] = CType(f"LP_{t}", t)
    return _PTRS[t]


def _to_c(t, x):
    if t is C_DOUBLE:
        if isinstance(x, bool):
            return float(x)
        f = V.lift_float(x)
        if f is None:
            raise _ctypes.ArgumentError(f"argument: TypeError: wrong type {type(x)}")
        return x if isinstance(x, float) else (V.int_to_float(x))
    if t.base is C_DOUBLE:
        if not isinstance(x, Pointer):
            raise _ctypes.ArgumentError("argument: TypeError: expected LP_c_double")
        return x
    if t.name == "c_void_p":
        return x
    raise V.Unsupported(f"ctypes argument type {t}")


def CFUNCTYPE(restype, *argtypes, **kw):
    def proto(addr):
        def cfunc(*args):
            if len(args) < len(argtypes):
                raise TypeError(
                    f"this function takes at least {len(argtypes)} arguments "
                    f"({len(args)} given)"
                )
            vals = [_to_c(t, x) for t, x in zip(argtypes, args)]
            if int(addr) == 0:
                raise MemoryFault("call of a null function pointer")
            eng, f = _CODE[int(addr)]
            if eng() is None:
                raise MemoryFault("call of compiled code that was already freed")
            if len(f["params"]) != len(vals):
                raise MemoryFault("call with a mismatched signature")
            for ty, v in zip(f["params"], vals):
                if (ty == "double") == isinstance(v, Pointer):
                    raise MemoryFault("call with a mismatched signature")
            r = interpret(f, vals)
            if restype is None:
                return None
            if r is None:
                return V.engine().garbage("void.return")
            return r

        cfunc.argtypes = argtypes
        cfunc.restype = restype
        return cfunc

    return proto


def make_ctypes():
    m = types.ModuleType("ctypes")
    for k, v in vars(_ctypes).items():
        if not k.startswith("__"):
            m.__dict__[k] = v
    m.c_double = C_DOUBLE
    m.c_void_p = CType("c_void_p")
    m.POINTER = POINTER
    m.CFUNCTYPE = CFUNCTYPE
    return {"ctypes": m}


# --------------------------------------------------------------------------
# numpy
# --------------------------------------------------------------------------


class _CT:
    def __init__(self, arr):
        self.arr = arr

    def data_as(self, t):
        return Pointer(self.arr, 0)

    @property
    def data(self):
        return Pointer(self.arr, 0)


class Array:
    def __init__(self, shape, cells, order="C"):
        self.shape = shape
        self.cells = cells
        self.order = order
        self.ndim = len(shape)
        self.size = len(cells)
        self.dtype = "float64"

    @property
    def ctypes(self):
        return _CT(self)

    def _off(self, ij):
        if not isinstance(ij, tuple):
            ij = (ij,)
        if len(ij) != len(self.shape):
            raise V.Unsupported("partial array index")
        ij = tuple(i + n if i < 0 else i for i, n in zip(ij, self.shape))
        for i, n in zip(ij, self.shape):
            if not 0 <= i < n:
                raise IndexError("index out of bounds")
        off = 0
        if self.order == "C":
            for i, n in zip(ij, self.shape):
                off = off * n + i
        else:
            for i, n in reversed(list(zip(ij, self.shape))):
                off = off * n + i
        return off

    def __getitem__(self, ij):
        return self.cells[self._off(ij)]

    def __setitem__(self, ij, v):
        self.cells[self._off(ij)] = v

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], tuple):
            shape = shape[0]
        n = 1
        for s in shape:
            n *= s
        if n != len(self.cells) or self.order != "C":
            raise V.Unsupported("reshape")
        return Array(tuple(shape), self.cells)

    def copy(self):
        return Array(self.shape, list(self.cells), self.order)

    def fill(self, v):
        self.cells[:] = [v] * len(self.cells)

    @property
    def T(self):
        if len(self.shape) != 2:
            raise V.Unsupported("transpose")
        return Array(self.shape[::-1], self.cells, "F" if self.order == "C" else "C")

    def tolist(self):
        if len(self.shape) == 1:
            return list(self.cells)
        return [
            [self[i, j] for j in range(self.shape[1])] for i in range(self.shape[0])
        ]


def _shape(s):
    return (int(s),) if isinstance(s, int) else tuple(s)


_GARB = [0]


def _mk(fill):
    def f(shape, dtype=None, order="C", **kw):
        shape = _shape(shape)
        n = 1
        for s in shape:
            n *= s
        name = getattr(dtype, "__name__", dtype)
        if name not in (None, "float64", "float", "double", "d"):
            raise V.Unsupported(f"numpy dtype {dtype}")
        cells = []
        for i in range(n):
            if fill is None:
                e = V.engine()
                k = e.ghost.get("garb", 0)
                e.ghost["garb"] = k + 1
                cells.append(e.garbage(f"garbage.{k}"))
            else:
                cells.append(fill)
        return Array(shape, cells, order)

    return f


def make_numpy():
    m = types.ModuleType("numpy")
    m.zeros = _mk(0.0)
    m.ones = _mk(1.0)
    m.empty = _mk(None)
    m.float64 = float
    m.double = float
    m.ndarray = Array

    def full(shape, v, dtype=None, order="C"):
        a = m.zeros(shape, dtype, order)
        a.fill(v)
        return a

    m.full = full
    m.zeros_like = lambda a: m.zeros(a.shape)
    m.ascontiguousarray = lambda a, dtype=None: a
    return {"numpy": m}


def make(ctx):
    t = {}
    t.update(make_llvm())
    t.update(make_ctypes())
    t.update(make_numpy())
    return t
