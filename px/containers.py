"""dict / set / WeakValueDictionary that accept symbolic keys.

Keys without symbolic scalars keep CPython's own hash/eq behaviour (they live
in a real dict).  A key that contains a symbolic scalar is compared with every
stored key through the solver, forking the path on the outcomes.
Iteration order is insertion order, except that VSet asks the engine for an
arbitrary order while ``engine().set_order_symbolic`` is on.
"""

from __future__ import annotations

import builtins
import weakref

from .values import bears_symbol, engine, keys_equal

_MISSING = object()


class _Entry:
    __slots__ = ("key", "value", "alive")

    def __init__(self, key, value):
        self.key = key
        self.value = value
        self.alive = True


class _Assoc:
    """Insertion-ordered association with symbolic-aware lookup."""

    __slots__ = ("conc", "syms", "order")

    def __init__(self):
        self.conc = {}  # concrete key -> entry
        self.syms = []  # entries with symbolic keys
        self.order = {}  # id(entry) -> entry, in insertion order

    def find(self, key):
        if not bears_symbol(key):
            e = self.conc.get(key)
            if e is not None:
                return e
            for e in list(self.syms):
                if e.alive and keys_equal(e.key, key):
                    return e
            return None
        builtins_conc = builtins.list(self.conc.values())
        for e in list(self.syms):
            if e.alive and e.key is key:
                return e
        for e in builtins_conc + builtins.list(self.syms):
            if e.alive and keys_equal(e.key, key):
                return e
        return None

    def insert(self, key, value):
        e = _Entry(key, value)
        if bears_symbol(key):
            self.syms.append(e)
        else:
            self.conc[key] = e
        self.order[id(e)] = e
        return e

    def remove(self, e):
        if not e.alive:
            return
        e.alive = False
        self.order.pop(id(e), None)
        for i, x in enumerate(self.syms):
            if x is e:
                del self.syms[i]
                return
        for k, x in builtins.list(self.conc.items()):
            if x is e:
                del self.conc[k]
                return

    def entries(self):
        return builtins.list(self.order.values())

    def clear(self):
        for e in self.entries():
            self.remove(e)


class _DictMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.dict)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.dict)


class _SetMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.set)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.set)


class _View:
    def __init__(self, d, kind):
        self.d = d
        self.kind = kind

    def __len__(self):
        return len(self.d)

    def __iter__(self):
        k = self.kind
        for e in self.d._a.entries():
            if not e.alive:
                raise RuntimeError("dictionary changed size during iteration")
            yield e.key if k == 0 else e.value if k == 1 else (e.key, e.value)

    def __reversed__(self):
        return iter(builtins.list(self)[::-1])

    def __contains__(self, x):
        if self.kind == 0:
            return x in self.d
        if self.kind == 1:
            return any(x == v for v in self)
        return x[0] in self.d and self.d[x[0]] == x[1]

    def __and__(self, o):
        return VSet(x for x in self if x in o)

    __rand__ = __and__

    def __or__(self, o):
        return VSet(self) | VSet(o)

    __ror__ = __or__

    def __sub__(self, o):
        return VSet(x for x in self if x not in o)

    def __eq__(self, o):
        return VSet(self) == VSet(o)

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    def __repr__(self):
        return repr(builtins.list(self))


class VDict(builtins.dict, metaclass=_DictMeta):
    def __init__(self, *args, **kw):
        self._a = _Assoc()
        self.update(*args, **kw)

    @classmethod
    def fromkeys(cls, it, value=None):
        d = cls()
        for k in it:
            d[k] = value
        return d

    def update(self, *args, **kw):
        if args:
            src = args[0]
            if isinstance(src, builtins.dict) or hasattr(src, "keys"):
                for k in src.keys():
                    self[k] = src[k]
            else:
                for k, v in src:
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def __setitem__(self, key, value):
        e = self._a.find(key)
        if e is None:
            self._a.insert(key, value)
        else:
            e.value = value

    def __getitem__(self, key):
        e = self._a.find(key)
        if e is None:
            m = getattr(type(self), "__missing__", None)
            if m is not None:
                return m(self, key)
            raise KeyError(key)
        return e.value

    def get(self, key, default=None):
        e = self._a.find(key)
        return default if e is None else e.value

    def setdefault(self, key, default=None):
        e = self._a.find(key)
        if e is None:
            self._a.insert(key, default)
            return default
        return e.value

    def pop(self, key, *default):
        e = self._a.find(key)
        if e is None:
            if default:
                return default[0]
            raise KeyError(key)
        self._a.remove(e)
        return e.value

    def popitem(self):
        es = self._a.entries()
        if not es:
            raise KeyError("popitem(): dictionary is empty")
        self._a.remove(es[-1])
        return es[-1].key, es[-1].value

    def __delitem__(self, key):
        e = self._a.find(key)
        if e is None:
            raise KeyError(key)
        self._a.remove(e)

    def __contains__(self, key):
        return self._a.find(key) is not None

    def __len__(self):
        return len(self._a.order)

    def __bool__(self):
        return len(self._a.order) > 0

    def __iter__(self):
        return iter(_View(self, 0))

    def __reversed__(self):
        return reversed(_View(self, 0))

    def keys(self):
        return _View(self, 0)

    def values(self):
        return _View(self, 1)

    def items(self):
        return _View(self, 2)

    def clear(self):
        self._a.clear()

    def copy(self):
        return type(self)(self)

    __copy__ = copy

    def __or__(self, o):
        d = type(self)(self)
        d.update(o)
        return d

    def __ror__(self, o):
        d = type(self)(o)
        d.update(self)
        return d

    def __ior__(self, o):
        self.update(o)
        return self

    def __eq__(self, o):
        if not isinstance(o, builtins.dict):
            return NotImplemented
        if len(self) != len(o):
            return False
        for k, v in self.items():
            if k not in o or not (o[k] == v):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __repr__(self):
        return "{" + ", ".join(f"{k!r}: {v!r}" for k, v in self.items()) + "}"


def _members(it):
    """Elements of an iterable (of a set: the order does not matter)."""
    if "_a" in getattr(it, "__dict__", ()):
        return [e.key for e in it._a.entries()]
    return builtins.list(it)


class VSet(builtins.set, metaclass=_SetMeta):
    def __init__(self, it=()):
        self._a = _Assoc()
        for x in _members(it):
            self.add(x)

    def add(self, x):
        if self._a.find(x) is None:
            self._a.insert(x, None)

    def discard(self, x):
        e = self._a.find(x)
        if e is not None:
            self._a.remove(e)

    def remove(self, x):
        e = self._a.find(x)
        if e is None:
            raise KeyError(x)
        self._a.remove(e)

    def pop(self):
        es = self._ordered()
        if not es:
            raise KeyError("pop from an empty set")
        self._a.remove(es[0])
        return es[0].key

    def clear(self):
        self._a.clear()

    def update(self, *others):
        for o in others:
            for x in _members(o):
                self.add(x)

    def __contains__(self, x):
        return self._a.find(x) is not None

    def __len__(self):
        return len(self._a.order)

    def __bool__(self):
        return len(self._a.order) > 0

    def _ordered(self):
        es = self._a.entries()
        if len(es) > 1:
            es = engine().set_order(es)
        return es

    def __iter__(self):
        for e in self._ordered():
            yield e.key

    def copy(self):
        return type(self)(e.key for e in self._a.entries())

    __copy__ = copy

    def _has(self, o, x):
        return x in o

    def union(self, *others):
        r = self.copy()
        r.update(*others)
        return r

    def intersection(self, *others):
        os = [o if isinstance(o, (builtins.set, builtins.dict)) else VSet(o) for o in others]
        return type(self)(
            e.key for e in self._a.entries() if all(e.key in o for o in os)
        )

    def difference(self, *others):
        os = [o if isinstance(o, (builtins.set, builtins.dict)) else VSet(o) for o in others]
        return type(self)(
            e.key for e in self._a.entries() if not any(e.key in o for o in os)
        )

    def symmetric_difference(self, o):
        o = VSet(o)
        return (self - o) | (o - self)

    def _chk(self, o):
        return isinstance(o, (builtins.set, builtins.frozenset, _View))

    def __or__(self, o):
        return self.union(o) if self._chk(o) else NotImplemented

    def __ror__(self, o):
        return VSet(o).union(self) if self._chk(o) else NotImplemented

    def __and__(self, o):
        return self.intersection(o) if self._chk(o) else NotImplemented

    def __rand__(self, o):
        return VSet(o).intersection(self) if self._chk(o) else NotImplemented

    def __sub__(self, o):
        return self.difference(o) if self._chk(o) else NotImplemented

    def __rsub__(self, o):
        return VSet(o).difference(self) if self._chk(o) else NotImplemented

    def __xor__(self, o):
        return self.symmetric_difference(o) if self._chk(o) else NotImplemented

    __rxor__ = __xor__

    def __ior__(self, o):
        self.update(o)
        return self

    def __iand__(self, o):
        for e in self._a.entries():
            if e.key not in o:
                self._a.remove(e)
        return self

    def __isub__(self, o):
        for x in builtins.list(o):
            self.discard(x)
        return self

    def intersection_update(self, *others):
        for o in others:
            self &= VSet(o)

    def difference_update(self, *others):
        for o in others:
            self -= VSet(o)

    def issubset(self, o):
        o = o if isinstance(o, (builtins.set, builtins.dict)) else VSet(o)
        return all(e.key in o for e in self._a.entries())

    def issuperset(self, o):
        return all(x in self for x in o)

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    def __le__(self, o):
        return self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __lt__(self, o):
        return len(self) < len(o) and self.issubset(o)

    def __gt__(self, o):
        return len(self) > len(o) and self.issuperset(o)

    def __eq__(self, o):
        if not isinstance(o, (builtins.set, builtins.frozenset)):
            return NotImplemented
        return len(self) == len(o) and all(x in self for x in o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __repr__(self):
        return "{" + ", ".join(repr(e.key) for e in self._a.entries()) + "}"


class VFrozenSet(VSet):
    """frozenset stand-in (immutable by convention)."""

    def __hash__(self):
        h = 0
        for e in self._a.entries():
            h ^= hash(e.key)
        return h


class VWeakDict:
    """weakref.WeakValueDictionary with symbolic keys.

    Values are held by real weak references, so CPython's own reference
    counting decides when an entry goes away; the entry (and its key) is
    dropped by the weakref callback, as in the standard library.
    """

    def __init__(self, other=(), /, **kw):
        self._a = _Assoc()
        self.update(other, **kw)

    def _live(self, e):
        return None if e is None else e.value()

    def _put(self, key, value):
        e = self._a.insert(key, None)
        a = self._a

        def gone(_, e=e, a=a):
            a.remove(e)

        e.value = weakref.ref(value, gone)
        return e

    def __getitem__(self, key):
        o = self._live(self._a.find(key))
        if o is None:
            raise KeyError(key)
        return o

    def get(self, key, default=None):
        o = self._live(self._a.find(key))
        return default if o is None else o

    def __contains__(self, key):
        return self._live(self._a.find(key)) is not None

    def __setitem__(self, key, value):
        e = self._a.find(key)
        if e is not None:
            old = e
            self._a.remove(old)
        self._put(key, value)

    def setdefault(self, key, default=None):
        e = self._a.find(key)
        o = self._live(e)
        if o is not None:
            return o
        if e is not None:
            self._a.remove(e)
        self._put(key, default)
        return default

    def __delitem__(self, key):
        e = self._a.find(key)
        if e is None:
            raise KeyError(key)
        self._a.remove(e)

    def pop(self, key, *default):
        e = self._a.find(key)
        o = self._live(e)
        if e is not None:
            self._a.remove(e)
        if o is None:
            if default:
                return default[0]
            raise KeyError(key)
        return o

    def update(self, other=(), /, **kw):
        items = other.items() if hasattr(other, "items") else other
        for k, v in items:
            self[k] = v
        for k, v in kw.items():
            self[k] = v

    def items(self):
        for e in self._a.entries():
            o = self._live(e)
            if o is not None:
                yield e.key, o

    def keys(self):
        for k, _ in self.items():
            yield k

    def values(self):
        for _, v in self.items():
            yield v

    __iter__ = keys

    def valuerefs(self):
        return [e.value for e in self._a.entries()]

    itervaluerefs = valuerefs

    def __len__(self):
        return sum(1 for _ in self.items())

    def clear(self):
        self._a.clear()

    def copy(self):
        return VWeakDict(self)

    def __repr__(self):
        return f"<WeakValueDictionary {len(self)}>"


def v_lru_cache(maxsize=128, typed=False):
    """functools.lru_cache with symbolic keys (same eviction rule)."""

    def deco(fn, maxsize=maxsize):
        store = VDict()

        def wrapper(*args, **kw):
            key = args + tuple(x for it in sorted(kw.items()) for x in it)
            if typed:
                key += tuple(type(a) for a in args)
            hit = store.get(key, _MISSING)
            if hit is not _MISSING:
                v = store.pop(key)
                store[key] = v
                return v
            v = fn(*args, **kw)
            if maxsize is None or maxsize > 0:
                store[key] = v
                if maxsize is not None and len(store) > maxsize:
                    del store[next(iter(store))]
            return v

        wrapper.cache_clear = store.clear
        wrapper.__wrapped__ = fn
        wrapper.__name__ = getattr(fn, "__name__", "cached")
        wrapper.__doc__ = getattr(fn, "__doc__", None)
        return _CachedFunction(wrapper)

    if callable(maxsize):
        fn, maxsize = maxsize, 128
        return deco(fn, 128)
    return deco


class _CachedFunction:
    def __init__(self, w):
        self._w = w
        self.cache_clear = w.cache_clear
        self.__wrapped__ = w.__wrapped__
        self.__name__ = w.__name__
        self.__doc__ = w.__doc__

    def __call__(self, *a, **k):
        return self._w(*a, **k)

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        import functools

        return functools.partial(self._w, obj)
