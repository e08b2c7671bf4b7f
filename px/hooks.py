"""Import the package with its shared state observable (no z3 here).

The modules of the package are compiled from their current source.  What
threads can share is replaced by equivalents that announce every operation to a
controller before they do it: the dicts behind weak dictionaries, module and
class level dicts, module globals and class attributes that functions rebind,
and locks.  The standard library's own ``weakref`` code runs unchanged on top.
Without a controller they behave as the originals.
"""

from __future__ import annotations

import ast
import importlib.abc
import importlib.machinery
import os
import sys
import threading
import weakref

REPO = os.environ.get("PX_REPO", "/repo")
SRC = os.path.join(REPO, "src")
PKG = "protosym"

controller = None  # set by the user of this module


class Unmodelled(Exception):
    """An operation the event model has no meaning for."""


_real_Lock, _real_RLock = threading.Lock, threading.RLock


def _absent(*_):
    raise AssertionError("not reached")


ALL = []  # every HookDict


class HookDict(dict):
    """A dict whose operations on single keys are events."""

    __slots__ = ("name", "__weakref__")

    def __init__(self, *a, name="dict", **k):
        super().__init__(*a, **k)
        self.name = name
        ALL.append(weakref.ref(self))

    def __hash__(self):
        return id(self)

    def __eq__(self, other):
        return self is other

    # each raw_* is one atomic step of the interpreter
    def __getitem__(self, key):
        if controller is None:
            return dict.__getitem__(self, key)
        return controller.read(self, key, lambda: dict.__getitem__(self, key))

    def get(self, key, default=None):
        if controller is None:
            return dict.get(self, key, default)
        try:
            return controller.read(self, key, lambda: dict.__getitem__(self, key))
        except KeyError:
            return default

    def __contains__(self, key):
        if controller is None:
            return dict.__contains__(self, key)
        try:
            controller.read(self, key, lambda: dict.__getitem__(self, key))
        except KeyError:
            return False
        return True

    def __setitem__(self, key, value):
        if controller is None:
            return dict.__setitem__(self, key, value)
        return controller.write(
            self, key, value, lambda: dict.__setitem__(self, key, value)
        )

    def setdefault(self, key, default=None):
        if controller is None:
            return dict.setdefault(self, key, default)
        return controller.setdefault(
            self, key, default, lambda: dict.setdefault(self, key, default)
        )

    def __delitem__(self, key):
        if controller is None:
            return dict.__delitem__(self, key)
        controller.pop(self, key, lambda: dict.pop(self, key))

    def pop(self, key, *default):
        if controller is None:
            return dict.pop(self, key, *default)
        try:
            return controller.pop(self, key, lambda: dict.pop(self, key))
        except KeyError:
            if default:
                return default[0]
            raise

    def _other(op):
        real = getattr(dict, op)

        def method(self, *a, **k):
            if controller is not None:
                return controller.other(self, op, lambda: real(self, *a, **k))
            return real(self, *a, **k)

        method.__name__ = op
        return method

    for _op in (
        "__iter__ __len__ __or__ __ior__ __ror__ __reversed__ __repr__ "
        "clear copy items keys popitem update values"
    ).split():
        locals()[_op] = _other(_op)
    del _op, _other

    def __bool__(self):
        return dict.__len__(self) > 0 if controller is None else len(self) > 0


class HookLock:
    """A lock whose acquisition and release are events."""

    def __init__(self, make, name):
        self.real = make()
        self.name = name

    def acquire(self, blocking=True, timeout=-1):
        if controller is None:
            return self.real.acquire(blocking, timeout)
        return controller.acquire(self, blocking, timeout)

    def release(self):
        if controller is None:
            return self.real.release()
        return controller.release(self)

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()

    def locked(self):
        if controller is not None:
            return controller.other(self, "locked", _absent)
        return self.real.locked()


class Cell:
    """Attributes of one object (a module or a class), as events."""

    def __init__(self, obj, name):
        self.obj = obj
        self.name = name

    def _get(self, key):
        if isinstance(self.obj, dict):
            try:
                return self.obj[key]
            except KeyError:
                raise NameError(f"name {key!r} is not defined") from None
        return getattr(self.obj, key)

    def _set(self, key, value):
        if isinstance(self.obj, dict):
            self.obj[key] = value
        else:
            setattr(self.obj, key, value)

    def __getitem__(self, key):
        if controller is None:
            return self._get(key)
        return controller.read(self, key, lambda: self._get(key))

    def __setitem__(self, key, value):
        if controller is None:
            return self._set(key, value)
        return controller.write(self, key, value, lambda: self._set(key, value))

    def __delitem__(self, key):
        if controller is not None:
            controller.other(self, "del", _absent)
        if isinstance(self.obj, dict):
            del self.obj[key]
        else:
            delattr(self.obj, key)


_cells = {}


def attr_cell(obj):
    """The cell of a class (or of any other object)."""
    key = id(obj)
    if key not in _cells:
        _cells[key] = Cell(obj, f"{getattr(obj, '__qualname__', type(obj).__name__)}")
    return _cells[key]


# --------------------------------------------------------------------------
# source: rebound globals and class attributes
# --------------------------------------------------------------------------


def _locals_of(fn):
    """Names that are local to a function (not those of nested functions)."""
    names, outer = set(), set()
    a = fn.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + [a.vararg, a.kwarg]:
        if x is not None:
            names.add(x.arg)

    def walk(node):
        for c in ast.iter_child_nodes(node):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                names.add(c.name)
                continue
            if isinstance(c, ast.Lambda):
                continue
            if isinstance(c, (ast.Global, ast.Nonlocal)):
                outer.update(c.names)
            elif isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                names.add(c.id)
            walk(c)

    walk(fn)
    return names - outer


class _Rewrite(ast.NodeTransformer):
    def __init__(self, tree):
        self.globals = set()
        self.attrs = set()
        self.classes = {n.name for n in ast.walk(tree) if isinstance(n, ast.ClassDef)}
        for fn in ast.walk(tree):
            if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            for n in ast.walk(fn):
                if isinstance(n, ast.Global):
                    self.globals.update(n.names)
                elif (
                    isinstance(n, ast.Attribute)
                    and isinstance(n.ctx, ast.Store)
                    and self.is_class(n.value)
                ):
                    self.attrs.add(n.attr)
        self.local = []  # stack of local names of the enclosing functions

    def is_class(self, node):
        if isinstance(node, ast.Name):
            return node.id == "cls" or node.id in self.classes
        return (
            isinstance(node, ast.Call)
            and isinstance(node.func, ast.Name)
            and node.func.id == "type"
        )

    def visit_FunctionDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        self.local.append(_locals_of(node))
        node.body = [self.visit(s) for s in node.body]
        self.local.pop()
        return node

    def visit_Name(self, node):
        if not self.local or node.id not in self.globals:
            return node
        if any(node.id in names for names in self.local):
            return node
        return ast.copy_location(
            ast.Subscript(
                value=ast.Name(id="__px_globals__", ctx=ast.Load()),
                slice=ast.Constant(node.id),
                ctx=node.ctx,
            ),
            node,
        )

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_Attribute(self, node):
        base = self.is_class(node.value)
        self.generic_visit(node)
        if not (self.local and base and node.attr in self.attrs):
            return node
        cell = ast.Call(
            func=ast.Name(id="__px_attrs__", ctx=ast.Load()), args=[node.value], keywords=[]
        )
        return ast.copy_location(
            ast.Subscript(value=cell, slice=ast.Constant(node.attr), ctx=node.ctx), node
        )


class _Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf-8") as fh:
            text = fh.read()
        tree = ast.parse(text, self.path)
        tree = ast.fix_missing_locations(_Rewrite(tree).visit(tree))
        d = module.__dict__
        d["__px_globals__"] = Cell(d, module.__name__)
        d["__px_attrs__"] = attr_cell
        exec(compile(tree, self.path, "exec", dont_inherit=True), d)
        observe(module)


def observe(module):
    """Replace the dicts a module keeps for itself."""
    name = module.__name__

    def each(ns, put, where):
        for k, v in list(ns.items()):
            if k.startswith("__"):
                continue
            if type(v) is dict:
                put(k, HookDict(v, name=f"{where}.{k}"))
            elif isinstance(v, (weakref.WeakValueDictionary, weakref.WeakKeyDictionary)):
                if isinstance(v.data, HookDict) and v.data.name == "weak":
                    v.data.name = f"{where}.{k}"
            elif isinstance(v, HookLock) and v.name == "lock":
                v.name = f"{where}.{k}"

    each(module.__dict__, module.__dict__.__setitem__, name)
    for c in list(module.__dict__.values()):
        if isinstance(c, type) and c.__module__ == name:
            each(dict(c.__dict__), lambda k, v, c=c: setattr(c, k, v), c.__qualname__)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname.split(".")[0] != PKG:
            return None
        base = os.path.join(SRC, *fullname.split("."))
        for p, pkg in ((os.path.join(base, "__init__.py"), True), (base + ".py", False)):
            if os.path.isfile(p):
                spec = importlib.machinery.ModuleSpec(
                    fullname, _Loader(p), origin=p, is_package=pkg
                )
                spec.has_location = True
                if pkg:
                    spec.submodule_search_locations = [base]
                return spec
        return None


def _weak(base):
    class Weak(base):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            self.data = HookDict(self.data, name="weak")

    Weak.__name__ = base.__name__
    Weak.__qualname__ = base.__qualname__
    return Weak


def _imports(name):
    """Does a module of the package import it when it is itself imported?"""
    for base, _, files in os.walk(os.path.join(SRC, PKG)):
        for f in files:
            if f.endswith(".py"):
                with open(os.path.join(base, f), encoding="utf-8") as fh:
                    try:
                        body = ast.parse(fh.read()).body
                    except SyntaxError:
                        continue
                for n in body:
                    if isinstance(n, ast.Import):
                        if any(a.name.split(".")[0] == name for a in n.names):
                            return True
                    elif isinstance(n, ast.ImportFrom) and not n.level:
                        if (n.module or "").split(".")[0] == name:
                            return True
    return False


def load():
    """Import the package from its source, everything shared being observable."""
    assert PKG not in sys.modules
    sys.dont_write_bytecode = True
    saved = (
        weakref.WeakValueDictionary,
        weakref.WeakKeyDictionary,
        threading.Lock,
        threading.RLock,
    )
    # what the package itself needs from outside must come unhooked
    for m in ("dataclasses", "functools", "typing", "collections", "numpy", "sympy"):
        if m not in ("numpy", "sympy") or _imports(m):
            try:
                __import__(m)
            except Exception:  # noqa: BLE001
                pass
    sys.meta_path.insert(0, _Finder())
    weakref.WeakValueDictionary = _weak(saved[0])
    weakref.WeakKeyDictionary = _weak(saved[1])
    threading.Lock = lambda: HookLock(saved[2], "lock")
    threading.RLock = lambda: HookLock(saved[3], "lock")
    try:
        import protosym.core.sym
        import protosym.simplecas
    finally:
        (
            weakref.WeakValueDictionary,
            weakref.WeakKeyDictionary,
            threading.Lock,
            threading.RLock,
        ) = saved
    return sys.modules[PKG]
