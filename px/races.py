"""All interleavings of concurrent constructions, decided by the solver.

1. Collect.  Each construction runs (real code, real weakref.py) alone, once
   for every combination of outcomes that its operations on shared state can
   have: the key is missing, its reference is dead, it holds the object from
   before, the thread's own object, or another thread's object.  This gives a
   tree of operations per thread; the code between two operations touches only
   what belongs to the thread.
2. Encode.  Every thread takes one path of its tree; every operation has a time
   (a symbolic integer); a read returns what the latest write before it left
   (or the symbolic initial content), locks are locations that must be free,
   and a store may drop a dead reference at any time.
3. Ask.  Different results, unfinished results, exceptions, or an existing
   object that is not returned: each unsatisfiable, or a schedule.
4. Replay the schedule on real threads (px/schedule.py); also replay schedules
   drawn from the encoding, and compare.
"""

from __future__ import annotations

import gc
import hashlib
import json
import os
import subprocess
import sys
import time
import types
import weakref

import z3

from harness import c02
from px import hooks
from px.schedule import referent, snapshot

ABSENT, DEAD = 0, 1
MAX_PATHS, MAX_EVENTS = 600, 40
IMMEDIATE = (type(None), bool, int, str, bytes, float)


class Loc:
    def __init__(self, index, store, key, name):
        self.index = index
        self.store = store
        self.key = key  # canonical
        self.name = name
        self.cell = isinstance(store, hooks.Cell)
        self.needs = None  # location whose object is part of the key
        self.donors = {}  # op -> Donor

    def __repr__(self):
        return self.name

    def mortal(self):
        """Does the store leave it to others to keep the initial object alive?"""
        d = next(iter(self.donors.values()), None)
        return not self.cell and d is not None and isinstance(d.init[0], weakref.ref)

    def references(self):
        return sys.getrefcount(next(iter(self.donors.values())).init[1])


class Donor:
    """Values other threads (or the past) may have left at a location."""

    __slots__ = ("init", "others", "dead", "ordinal")


class Event:
    __slots__ = ("kind", "loc", "outcome", "write", "subs")

    def __init__(self, kind, loc, outcome=None, write=None, subs=()):
        self.kind = kind  # read, write, rmw, acq, rel
        self.loc = loc
        self.outcome = outcome  # label of the value read
        self.write = write  # label of the value written, or None
        self.subs = subs  # (tuple label, index, label)

    def __repr__(self):
        return f"{self.kind} {self.loc} {self.outcome or ''} {'<- ' + str(self.write) if self.write else ''}"


class Path:
    __slots__ = ("decisions", "events", "result", "error", "problem", "late", "held")


class Collector:
    """Controller for the runs of step 1."""

    def __init__(self, setup, ops):
        self.setup = setup
        self.ops = ops
        self.settled = snapshot()
        self.locs = {}
        self.locks = {}
        self.lock_refs = []
        self.pins = []
        self.donor_roles = {}  # id of a donor object -> location
        self.runs = 0

    # ------------------------------------------------------------ locations

    def canon(self, key):
        if isinstance(key, tuple):
            return ("tuple", *[self.canon(k) for k in key])
        if isinstance(key, weakref.ref):
            return ("ref", self.canon(key()))
        loc = self.role.get(id(key)) or self.donor_roles.get(id(key))
        if loc is not None:
            return ("object at", loc)
        return ("is", type(key), key)

    def loc(self, store, key):
        c = (id(store), self.canon(key))
        try:
            hash(c)
        except TypeError:
            raise hooks.Unmodelled("unhashable key") from None
        if c not in self.locs:
            short = getattr(store, "name", "?").split(".")[-1]
            l = Loc(len(self.locs), store, c[1], f"{short}[{show(c[1])}]")
            l.needs = needs(c[1])
            self.locs[c] = l
            self.pins.append((store, key))
        return self.locs[c]

    def lock_loc(self, lock):
        if id(lock) not in self.locks:
            self.locks[id(lock)] = len(self.locks)
            self.lock_refs.append(lock)
        return self.locks[id(lock)]

    def known(self, store, key):
        if isinstance(store, hooks.Cell):
            return False
        try:
            return key in self.settled.get(id(store), ())
        except TypeError:
            raise hooks.Unmodelled("unhashable key") from None

    # ------------------------------------------------------------ labels

    def label(self, value, loc=None):
        obj = referent(value)
        if obj is None and isinstance(value, weakref.ref):
            raise hooks.Unmodelled("a dead reference is stored")
        if id(obj) in self.labels:
            return self.labels[id(obj)]
        if isinstance(obj, IMMEDIATE):
            return ("const", repr(obj))
        lab = ("own", self.n_own)
        self.n_own += 1
        self.labels[id(obj)] = lab
        self.hold.append(obj)
        self.own.append((lab, obj))
        if loc is not None and not loc.cell:
            self.role[id(obj)] = loc
        return lab

    def adopt(self, value, lab, loc):
        """A value that comes from elsewhere."""
        # (donors stay alive; no further reference may be made here)
        if lab[0] == "init" and not loc.cell and loc.index not in self.base:
            self.base[loc.index] = (loc, loc.references())
        obj = referent(value)
        if not isinstance(obj, IMMEDIATE):
            self.labels.setdefault(id(obj), lab)
            if not loc.cell:
                self.role.setdefault(id(obj), loc)
            if isinstance(obj, (tuple, list)):
                for i, x in enumerate(obj):
                    if not isinstance(x, IMMEDIATE):
                        self.labels.setdefault(id(x), ("sub", lab, i))

    def parts(self, value):
        """What a tuple that is stored holds."""
        obj = referent(value)
        out = []
        if isinstance(obj, (tuple, list)):
            lab = self.label(obj)
            for i, x in enumerate(obj):
                if not isinstance(x, IMMEDIATE):
                    out.append((lab, i, self.label(x)))
        return tuple(out)

    # ------------------------------------------------------------ outcomes

    def outcomes(self, loc):
        """What a read here may find: (label, value) pairs."""
        out = []
        seen = self.seen.setdefault(loc.index, [])
        if loc.cell:
            v = loc.store._get(loc.key[2])
            lab = self.label(v) if isinstance(v, IMMEDIATE) else ("init", loc.index)
            out.append((lab, v))
        else:
            out.append((("absent",), None))
            for op, d in loc.donors.items():
                if d.dead is not None:
                    out.append((("dead",), d.dead))
                    break
            for op, d in loc.donors.items():
                out.append((("init", loc.index), d.init[0]))
                break
        own = self.written.get(loc.index)
        if own is not None:
            out.append((own[0], own[1]))
        for lab, v in seen:
            out.append((lab, v))
        for op, d in loc.donors.items():
            mine = [lab for lab, _ in seen if lab[1] == op]
            if len(mine) < len(d.others) and len(seen) < 2:
                v = d.others[len(mine)][0]
                if isinstance(referent(v), IMMEDIATE):
                    out.append((("const", repr(v)), v))
                else:
                    out.append((("other", op, loc.index, len(self.decisions)), v))
        uniq = {}
        for lab, v in out:
            uniq.setdefault(lab, v)
        return list(uniq.items())

    def choose(self, loc):
        if self.missing:
            own = self.written.get(loc.index)
            if own is not None:
                return own
            if loc.cell:
                return self.outcomes(loc)[0]
            return ("absent",), None
        opts = self.outcomes(loc)
        k = self.plan[len(self.decisions)] if len(self.decisions) < len(self.plan) else 0
        self.decisions.append((k, len(opts)))
        lab, value = opts[k]
        if lab[0] == "other" and (lab, value) not in self.seen[loc.index]:
            self.seen[loc.index].append((lab, value))
        if lab[0] in ("init", "other"):
            self.adopt(value, lab, loc)
        return lab, value

    # ------------------------------------------------------------ operations

    def holding(self):
        """Locations whose initial object the thread itself refers to now."""
        return {i for i, (loc, n) in self.base.items() if loc.references() > n}

    def event(self, e):
        self.held.append(self.holding())
        self.events.append(e)
        if len(self.events) > MAX_EVENTS:
            raise hooks.Unmodelled("too many operations on shared state")
        self.shots.append({lab: shot(obj) for lab, obj in self.own})

    def read(self, store, key, do):
        if self.known(store, key):
            return do()
        loc = self.loc(store, key)
        lab, value = self.choose(loc)
        self.event(Event("read", loc, lab))
        if lab == ("absent",):
            raise KeyError(key)
        return value

    def put(self, loc, value):
        lab = self.label(value, loc)
        subs = self.parts(value)
        self.written[loc.index] = (lab, value)
        if all(l is not loc for l, _ in self.order):
            self.order.append((loc, value))
        return lab, subs

    def write(self, store, key, value, do):
        if self.known(store, key):
            raise hooks.Unmodelled("an entry that exists is written again")
        loc = self.loc(store, key)
        lab, subs = self.put(loc, value)
        self.event(Event("write", loc, None, lab, subs))

    def setdefault(self, store, key, value, do):
        if self.known(store, key):
            return do()
        loc = self.loc(store, key)
        lab, old = self.choose(loc)
        if lab == ("absent",):
            w, subs = self.put(loc, value)
            self.event(Event("rmw", loc, lab, w, subs))
            return value
        self.event(Event("rmw", loc, lab, None))
        return old

    def pop(self, store, key, do):
        if self.known(store, key):
            raise hooks.Unmodelled("an entry that exists is removed")
        loc = self.loc(store, key)
        lab, old = self.choose(loc)
        if lab == ("absent",):
            self.event(Event("rmw", loc, lab, None))
            raise KeyError(key)
        self.written.pop(loc.index, None)
        self.event(Event("rmw", loc, lab, ("absent",)))
        return old

    def other(self, store, op, do):
        if isinstance(store, hooks.HookDict) and store.name == "dict":
            return do()
        raise hooks.Unmodelled(f"{op} of {getattr(store, 'name', '?')}")

    def acquire(self, lock, blocking, timeout):
        if not blocking or timeout not in (-1, None):
            raise hooks.Unmodelled("a lock is taken without waiting")
        n = self.locked.get(id(lock), 0)
        self.locked[id(lock)] = n + 1
        if n == 0:
            self.event(Event("acq", self.lock_loc(lock)))
        return True

    def release(self, lock):
        n = self.locked.get(id(lock), 0)
        if n == 0:
            raise RuntimeError("release of a lock that is not held")
        self.locked[id(lock)] = n - 1
        if n == 1:
            self.event(Event("rel", self.lock_loc(lock)))

    # ------------------------------------------------------------ running

    def run(self, op, plan=None):
        """One run; plan None: nothing is there already."""
        self.missing = plan is None
        self.plan = plan or []
        self.decisions = []
        self.events, self.shots = [], []
        self.labels, self.role, self.hold, self.own = {}, {}, [], []
        self.n_own = 0
        self.seen, self.written, self.locked = {}, {}, {}
        self.order = []
        self.base, self.held = {}, []
        self.runs += 1
        p = Path()
        p.result = p.error = p.problem = None
        hooks.controller = self
        try:
            try:
                res = self.setup.ops[op]()
            finally:
                hooks.controller = None
        except hooks.Unmodelled:
            raise
        except Exception as e:  # noqa: BLE001
            p.error = f"{type(e).__name__}: {e}"
            # what the traceback holds must not stay alive
            e.__traceback__ = None
            res = None
        else:
            p.problem = self.setup.checks[op](res)
            p.result = self.label(res)
        if any(self.locked.values()) and p.error is None:
            p.error = "returns while it holds a lock"
        # references from the result (which is kept)
        self.held.append(self.holding())
        p.held = self.held
        p.decisions = list(self.decisions)
        p.events = self.events
        p.late = {}
        final = {lab: shot(obj) for lab, obj in self.own}
        for lab, want in final.items():
            for j, s in enumerate(self.shots):
                if lab in s and s[lab] != want:
                    p.late[lab] = j + 1  # finished only before the next operation
        self.value = res
        return p

    def forget(self):
        self.labels, self.role, self.hold, self.own = {}, {}, [], []
        self.written, self.order, self.seen = {}, [], {}
        self.value = None

    def donate(self, op, make=None):
        """Objects that others made: complete, made by the same code."""
        copies = []
        for _ in range(4):
            make()
            copies.append([(loc, value, referent(value)) for loc, value in self.order])
            self.forget()
        n = 0
        for k, (loc, value, obj) in enumerate(copies[0]):
            if op in loc.donors:
                continue
            d = Donor()
            d.ordinal = k
            d.init = (value, obj)
            d.others = [c[k][1:] for c in copies[1:3] if k < len(c)]
            d.dead = None
            loc.donors[op] = d
            n += 1
            if not loc.cell:
                for _, o in [d.init, *d.others]:
                    self.donor_roles[id(o)] = loc
        last = copies[3]
        del value, obj
        dead = [(loc, v) for loc, v, o in last if isinstance(v, weakref.ref)]
        copies[3] = last = None
        gc.collect()
        for loc, v in dead:
            if v() is None and loc.donors[op].dead is None:
                loc.donors[op].dead = v
        return n

    def explore(self):
        """All runs of every operation."""
        for op in self.ops:
            self.donate(op, lambda: self.run(op))
        for _ in range(4):
            trees, new = {}, 0
            for op in self.ops:
                paths = []
                stack = [[]]
                while stack:
                    plan = stack.pop()
                    p = self.run(op, plan)
                    paths.append(p)
                    for i in range(len(plan), len(p.decisions)):
                        head = [k for k, _ in p.decisions[:i]]
                        for alt in range(1, p.decisions[i][1]):
                            stack.append(head + [alt])
                    lacking = any(op not in loc.donors for loc, _ in self.order)
                    whole = [k for k, _ in p.decisions]
                    self.forget()
                    if lacking:
                        new += self.donate(op, lambda: self.run(op, whole))
                    if len(paths) > MAX_PATHS:
                        raise hooks.Unmodelled("too many paths")
                trees[op] = paths
            if not new:
                return trees
        raise hooks.Unmodelled("ever more locations")


def show(c):
    if c[0] == "tuple":
        return "(" + ", ".join(show(x) for x in c[1:]) + ")"
    if c[0] == "object at":
        return f"object at {c[1].name}"
    if c[0] == "ref":
        return show(c[1])
    return getattr(c[2], "__name__", None) or repr(c[2])


def needs(c):
    if c[0] == "object at":
        return c[1]
    if c[0] in ("tuple", "ref"):
        for x in c[1:]:
            n = needs(x) if isinstance(x, tuple) else None
            if n is not None:
                return n
    return None


def shot(obj):
    """The fields of an object as they are now."""
    out = {}
    for c in type(obj).__mro__:
        names = c.__dict__.get("__slots__", ())
        for n in (names,) if isinstance(names, str) else names:
            if n in ("__weakref__", "__dict__"):
                continue
            if n.startswith("__") and not n.endswith("__"):
                n = f"_{c.__name__.lstrip('_')}{n}"
            try:
                v = getattr(obj, n)
            except AttributeError:
                continue
            out[n] = v if isinstance(v, IMMEDIATE) else id(v)
    d = getattr(obj, "__dict__", None)
    if isinstance(d, dict):
        for n, v in d.items():
            out[n] = v if isinstance(v, IMMEDIATE) else id(v)
    return out


# --------------------------------------------------------------------------
# encoding
# --------------------------------------------------------------------------


class Slot:
    """The k-th operation of a thread, whichever path it takes."""

    def __init__(self, name):
        I, B = z3.Int, z3.Bool
        self.used = B(name + ".used")
        self.time = I(name + ".time")
        self.loc = I(name + ".loc")
        self.reads = B(name + ".reads")
        self.rval = I(name + ".rval")
        self.writes = B(name + ".writes")
        self.wval = I(name + ".wval")


class Encoding:
    def __init__(self, col, trees, ops, after):
        self.col = col
        self.ops = ops
        self.after = after
        self.s = z3.Solver()
        self.s.set("timeout", 120000)
        self.s.set("random_seed", 1)
        self.locs = list(col.locs.values())
        self.consts = {}
        self.trees = [trees[op] for op in ops]
        self.queries = {"sat": 0, "unsat": 0, "unknown": 0}
        self.solver_s = 0.0
        self.build()

    def const(self, r):
        return self.consts.setdefault(r, -10 - len(self.consts))

    def lock_index(self, n):
        return 100000 + n

    def build(self):
        s = self.s
        self.init = {l.index: z3.Int(f"init.{l.index}") for l in self.locs}
        self.sub = z3.Function("sub", z3.IntSort(), z3.IntSort(), z3.IntSort())
        self.slots, self.sel, self.ret = [], [], []
        self.res, self.err = [], []
        for l in self.locs:
            v = self.init[l.index]
            if l.cell:
                cur = l.store._get(l.key[2])
                s.add(v == (self.const(repr(cur)) if isinstance(cur, IMMEDIATE) else 10 + l.index))
                continue
            can = [ABSENT]
            if any(d.dead is not None for d in l.donors.values()):
                can.append(DEAD)
            if l.donors:
                can.append(10 + l.index)
            s.add(z3.Or([v == c for c in can]))
            if l.needs is not None:
                # the entry keeps the object in its key alive
                s.add(z3.Implies(v != ABSENT, self.init[l.needs.index] == 10 + l.needs.index))
        for t, paths in enumerate(self.trees):
            self.thread(t, paths)
        self.reaper = []
        for l in self.locs:
            if any(d.dead is not None for d in l.donors.values()):
                r = Slot(f"reap.{l.index}")
                s.add(r.loc == l.index, r.reads == r.used)
                s.add(r.writes == z3.And(r.used, r.rval == DEAD), r.wval == ABSENT)
                self.reaper.append((l, r))
        self.deaths = {}
        for l in self.locs:
            if l.mortal():
                r = Slot(f"die.{l.index}")
                s.add(r.loc == l.index, r.reads == r.used)
                s.add(r.writes == z3.And(r.used, r.rval == 10 + l.index), r.wval == DEAD)
                self.deaths[l.index] = r
                self.reaper.append((l, r))
                # nobody may refer to it then
                for m in self.locs:
                    if m.needs is l:
                        s.add(z3.Implies(r.writes, self.init[m.index] == ABSENT))
                for t, paths in enumerate(self.trees):
                    for i, p in enumerate(paths):
                        for k, held in enumerate(p.held):
                            if l.index not in held:
                                continue
                            span = [r.writes, self.sel[t] == i]
                            if k > 0:
                                span.append(self.slots[t][k - 1].time < r.time)
                            if k < len(p.events):
                                span.append(r.time < self.slots[t][k].time)
                            s.add(z3.Not(z3.And(span)))
        self.memory()
        n = len(self.ops)
        if self.after:
            # the last thread starts when the others are done
            for t in range(n - 1):
                s.add(self.slots[n - 1][0].time > self.ret[t])
                s.add(self.ret[n - 1] > self.ret[t])

    def thread(self, t, paths):
        s = self.s
        depth = max(len(p.events) for p in paths)
        slots = [Slot(f"t{t}.{k}") for k in range(max(depth, 1))]
        ret = z3.Int(f"t{t}.ret")
        res = z3.Int(f"t{t}.result")
        sel = z3.Int(f"t{t}.path")
        err = z3.Bool(f"t{t}.error")
        self.slots.append(slots)
        self.ret.append(ret)
        self.res.append(res)
        self.sel.append(sel)
        self.err.append(err)
        s.add(sel >= 0, sel < len(paths))
        for a, b in zip(slots, slots[1:]):
            s.add(a.time < b.time)
        s.add(slots[0].time > 0)
        for x in slots:
            s.add(ret > x.time)

        # a tree of operations: nodes by prefix of what happened
        def node(group, k, here):
            """Paths in the group agree on their first k operations."""
            ends = [i for i in group if len(paths[i].events) == k]
            more = [i for i in group if len(paths[i].events) > k]
            assert len(ends) <= 1 and not (ends and more), "operations differ between runs"
            if ends:
                i = ends[0]
                p = paths[i]
                s.add(here == (sel == i))
                for x in slots[k:]:
                    s.add(z3.Implies(here, z3.And(z3.Not(x.used), z3.Not(x.reads), z3.Not(x.writes))))
                s.add(z3.Implies(here, err == (p.error is not None)))
                if p.error is None:
                    s.add(z3.Implies(here, res == self.token(t, p, p.result)))
                return
            e0 = paths[more[0]].events[k]
            x = slots[k]
            target = self.lock_index(e0.loc) if e0.kind in ("acq", "rel") else e0.loc.index
            s.add(z3.Implies(here, z3.And(x.used, x.loc == target)))
            by = {}
            for i in more:
                e = paths[i].events[k]
                assert e.kind == e0.kind and e.loc is e0.loc or e.loc == e0.loc
                by.setdefault((e.outcome, e.write), []).append(i)
            kids = []
            for (outcome, write), sub in by.items():
                kid = z3.Bool(f"t{t}.n{k}.{sub[0]}")
                kids.append(kid)
                p = paths[sub[0]]
                e = p.events[k]
                s.add(z3.Implies(kid, here))
                if e.kind == "acq":
                    s.add(z3.Implies(kid, z3.And(x.reads, x.rval == 0, x.writes, x.wval == t + 1)))
                elif e.kind == "rel":
                    s.add(z3.Implies(kid, z3.And(z3.Not(x.reads), x.writes, x.wval == 0)))
                else:
                    s.add(z3.Implies(kid, x.reads == (outcome is not None)))
                    s.add(z3.Implies(kid, x.writes == (write is not None)))
                    if outcome is not None:
                        s.add(z3.Implies(kid, self.matches(t, p, k, x)))
                    if write is not None:
                        s.add(z3.Implies(kid, x.wval == self.token(t, p, write)))
                    for tup, i, lab in e.subs:
                        s.add(
                            z3.Implies(kid, self.sub(self.token(t, p, tup), i) == self.token(t, p, lab))
                        )
                node(sub, k + 1, kid)
            s.add(z3.Implies(here, z3.PbEq([(kid, 1) for kid in kids], 1)))

        root = z3.Bool(f"t{t}.root")
        s.add(root)
        node(list(range(len(paths))), 0, root)

    def token(self, t, p, lab):
        """The object a label stands for, on path p of thread t."""
        kind = lab[0]
        if kind == "absent":
            return z3.IntVal(ABSENT)
        if kind == "dead":
            return z3.IntVal(DEAD)
        if kind == "init":
            return z3.IntVal(10 + lab[1])
        if kind == "own":
            return z3.IntVal(1000 * (t + 1) + lab[1])
        if kind == "const":
            return z3.IntVal(self.const(lab[1]))
        if kind == "sub":
            return self.sub(self.token(t, p, lab[1]), lab[2])
        for k, e in enumerate(p.events):  # the read that first found it
            if e.outcome == lab:
                return self.slots[t][k].rval
        raise AssertionError(lab)

    def matches(self, t, p, k, x):
        lab = p.events[k].outcome
        if lab[0] != "other":
            return x.rval == self.token(t, p, lab)
        earlier = [
            (j, e) for j, e in enumerate(p.events[:k]) if e.outcome and e.outcome[0] == "other"
        ]
        same = [j for j, e in earlier if e.outcome == lab]
        if same:
            return x.rval == self.slots[t][same[0]].rval
        op = lab[1]
        who = [
            z3.And(x.rval >= 1000 * (u + 1), x.rval < 1000 * (u + 2))
            for u in range(len(self.ops))
            if u != t and self.ops[u] == op
        ]
        new = [
            x.rval != self.slots[t][j].rval for j, e in earlier if e.loc is p.events[k].loc
        ]
        return z3.And(z3.Or(who), *new) if who else z3.BoolVal(False)

    def memory(self):
        s = self.s
        every = [(t, x) for t, xs in enumerate(self.slots) for x in xs]
        every += [(None, r) for _, r in self.reaper]
        s.add([r.time > 0 for _, r in self.reaper])
        s.add(z3.Distinct([x.time for _, x in every]))
        for i, (t, r) in enumerate(every):
            rf = z3.Int(f"from.{i}")
            tau = z3.Int(f"from.{i}.time")
            init = z3.IntVal(0)
            for l in self.locs:
                init = z3.If(r.loc == l.index, self.init[l.index], init)
            none = z3.And(rf == -1, tau == -1, r.rval == init)
            alts = [none]
            for j, (u, w) in enumerate(every):
                if i == j:
                    continue
                before = z3.And(w.writes, w.loc == r.loc, w.time < r.time)
                s.add(z3.Implies(z3.And(r.reads, before), tau >= w.time))
                alts.append(z3.And(rf == j, before, tau == w.time, r.rval == w.wval))
            s.add(z3.Implies(r.reads, z3.Or(alts)))

    # ------------------------------------------------------------ questions

    def claims(self):
        """Name, formula for a violation."""
        n = len(self.ops)
        out = [("a construction fails", z3.Or(self.err))]
        same = []
        for a in range(n):
            for b in range(a):
                if self.ops[a] == self.ops[b]:
                    same.append(
                        z3.And(
                            z3.Not(self.err[a]), z3.Not(self.err[b]), self.res[a] != self.res[b]
                        )
                    )
        if same:
            out.append(("different objects", z3.Or(same)))
        late = []
        for u, paths in enumerate(self.trees):
            for i, p in enumerate(paths):
                for lab, j in p.late.items():
                    end = self.slots[u][j].time if j < len(p.events) else self.ret[u]
                    for a in range(n):
                        if a != u:
                            late.append(
                                z3.And(
                                    self.sel[u] == i,
                                    z3.Not(self.err[a]),
                                    self.res[a] == self.token(u, p, lab),
                                    self.ret[a] < end,
                                )
                            )
        out.append(("an unfinished object", z3.Or(late)))
        wrong = [
            self.sel[u] == i
            for u, paths in enumerate(self.trees)
            for i, p in enumerate(paths)
            if p.problem
        ]
        out.append(("not what was asked for", z3.Or(wrong)))
        existing = []
        for a, op in enumerate(self.ops):
            mine = [l for l in self.locs if op in l.donors and not l.cell]
            for l in mine:
                if any(m.needs is l for m in mine):
                    continue  # a part, not the result
                results = {p.result for p in self.trees[a] if p.error is None}
                if ("init", l.index) in results:
                    there = self.init[l.index] == 10 + l.index
                    if l.index in self.deaths:
                        there = z3.And(there, z3.Not(self.deaths[l.index].writes))
                    existing.append(z3.And(there, z3.Not(self.err[a]), self.res[a] != 10 + l.index))
        out.append(("an existing object is not returned", z3.Or(existing)))
        return out

    def ask(self, f, *more):
        t0 = time.perf_counter()
        self.s.push()
        self.s.add(f, *more)
        r = self.s.check()
        m = self.s.model() if r == z3.sat else None
        self.s.pop()
        self.solver_s += time.perf_counter() - t0
        self.queries[str(r)] += 1
        return str(r), m

    # ------------------------------------------------------------ schedules

    def schedule(self, m):
        def val(x):
            return m.eval(x, model_completion=True).as_long()

        def true(x):
            return z3.is_true(m.eval(x, model_completion=True))

        steps = []
        for t, xs in enumerate(self.slots):
            # where an object that others can see is not finished yet
            stop = {j - 1 for j in self.trees[t][val(self.sel[t])].late.values()}
            for k, x in enumerate(xs):
                if true(x.used):
                    steps.append((val(x.time), 0, f"{t}!" if k in stop else t))
            last = max([val(x.time) for x in xs if true(x.used)], default=0)
            steps.append((max(val(self.ret[t]), last), 1, f"r{t}"))
        for l, r in self.reaper:
            if true(r.used) and true(r.writes):
                op, d = next(iter(l.donors.items()))
                if r is not self.deaths.get(l.index):
                    if val(self.init[l.index]) == DEAD:
                        op, d = next((o, d) for o, d in l.donors.items() if d.dead is not None)
                    steps.append((val(r.time), 0, ["reap", op, d.ordinal]))
                else:
                    steps.append((val(r.time), 0, ["die", op, d.ordinal]))
        steps.sort(key=lambda x: (x[0], x[1]))
        init = []
        for l in self.locs:
            if l.cell:
                continue
            v = val(self.init[l.index])
            if v != ABSENT and l.donors:
                op, d = next(iter(l.donors.items()))
                if v == DEAD:
                    op, d = next((o, d) for o, d in l.donors.items() if d.dead is not None)
                init.append([op, d.ordinal, "dead" if v == DEAD else "alive"])
        tokens = {}
        part = []
        for t in range(len(self.ops)):
            if true(self.err[t]):
                part.append("exception")
            else:
                part.append(tokens.setdefault(val(self.res[t]), len(tokens)))
        return {
            "order": [x[2] for x in steps],
            "init": init,
            "partition": part,
            "paths": [val(x) for x in self.sel],
        }

    def describe(self, sch):
        out = []
        pos = [0] * len(self.ops)
        for st in sch["order"]:
            if isinstance(st, list):
                out.append(
                    "  the dead reference is dropped"
                    if st[0] == "reap"
                    else "  the last reference to the existing object is dropped"
                )
            elif isinstance(st, str) and st[0] == "r":
                out.append(f"  thread {st[1:]} returns")
            else:
                st = int(str(st).rstrip("!"))
                p = self.trees[st][sch["paths"][st]]
                e = p.events[pos[st]]
                pos[st] += 1
                out.append(f"  thread {st}: {e}")
        return "\n".join(out)


# --------------------------------------------------------------------------
# the check
# --------------------------------------------------------------------------


def real(jobs, timeout=420):
    from px.run import VENV_PY, VERIF, replay_env

    env = replay_env()
    env.pop("PYTHONPATH", None)
    try:
        p = subprocess.run(
            [VENV_PY, os.path.join(VERIF, "px", "schedule.py"), "-"],
            input=json.dumps({"jobs": jobs}),
            capture_output=True,
            text=True,
            env=env,
            cwd="/",
            timeout=timeout,
        )
        text, err = p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        text, err = (e.stdout or b"").decode(errors="replace"), "timed out"
    out = []
    for line in text.splitlines():
        try:
            out.append(json.loads(line))
        except ValueError:
            pass
    while len(out) < len(jobs):
        out.append({"error": f"the run ended early: {err[-600:]}"})
    return out


def scenario(args):
    """Steps 1 to 3 for one scenario; everything returned is plain data."""
    name, ops, tier = args
    out = {
        "setup": name,
        "threads": list(ops),
        "violations": [],
        "samples": [],
        "asked": [],
        "unmodelled": None,
        "functions": [],
    }
    t0 = time.time()
    try:
        setup = c02.SETUPS[name]()
        distinct = list(dict.fromkeys(ops))
        col = Collector(setup, distinct)
        codes = set()
        sys.setprofile(
            lambda f, ev, arg: codes.add(f.f_code) if ev == "call" else None
        )
        try:
            for op in distinct:
                col.run(op)
                col.forget()
        finally:
            sys.setprofile(None)
        out["functions"] = sorted(
            f"{os.path.relpath(c.co_filename, hooks.SRC)}:{c.co_qualname}"
            if c.co_filename.startswith(hooks.SRC)
            else f"weakref.py:{c.co_qualname}"
            for c in codes
            if c.co_filename.startswith(hooks.SRC) or c.co_filename == weakref.__file__
        )
        trees = col.explore()
        after = tuple(ops) + (ops[0],)
        enc = Encoding(col, trees, after, True)
        out["threads"] = list(after)
        out["paths"] = {op: len(trees[op]) for op in distinct}
        out["operations"] = sum(len(p.events) for ps in trees.values() for p in ps)
        out["runs"] = col.runs
        out["locations"] = [l.name for l in enc.locs]
        r, _ = enc.ask(z3.BoolVal(True))
        if r != "sat":
            raise hooks.Unmodelled(f"the encoding has no schedule ({r})")
        for what, f in enc.claims():
            r, m = enc.ask(f)
            out["asked"].append([what, r])
            if r == "sat":
                sch = enc.schedule(m)
                out["violations"].append(
                    {
                        "what": what,
                        "job": {
                            "setup": name,
                            "threads": list(after),
                            "init": sch["init"],
                            "order": sch["order"],
                        },
                        "text": enc.describe(sch),
                    }
                )
        # schedules in which different things happen, to compare
        blocked = []
        for _ in range(6 if tier == "quick" else 30):
            r, m = enc.ask(z3.BoolVal(True), *blocked)
            if r != "sat":
                break
            sch = enc.schedule(m)
            out["samples"].append(
                {
                    "job": {
                        "setup": name,
                        "threads": list(after),
                        "init": sch["init"],
                        "order": sch["order"],
                    },
                    "partition": sch["partition"],
                    "text": enc.describe(sch),
                }
            )
            blocked.append(
                z3.Or([x != v for x, v in zip(enc.sel[:-1], sch["paths"][:-1])])
            )
        out["queries"] = enc.queries
        out["solver_s"] = enc.solver_s
        out["assertions"] = len(enc.s.assertions())
    except hooks.Unmodelled as e:
        out["unmodelled"] = str(e)
    except AssertionError as e:
        out["unmodelled"] = f"assertion: {e}"
    out["wall"] = time.time() - t0
    return out


def _start():
    import signal

    signal.signal(signal.SIGINT, signal.SIG_IGN)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    hooks.load()


def _scenario(args):
    try:
        return scenario(args)
    except Exception as e:  # noqa: BLE001
        import traceback

        return {
            "setup": args[0],
            "threads": list(args[1]),
            "violations": [],
            "samples": [],
            "asked": [],
            "functions": [],
            "unmodelled": "".join(traceback.format_exception(e))[-1500:],
        }


def main(check, tier, seed, budget, args):
    from px.run import JOBS, STRICT, VENV_PY, VERIF, write_evidence
    import multiprocessing as mp

    t0 = time.time()
    todo = [
        (n, ops, tier)
        for n, ops, when in c02.SCENARIOS
        if (when == "quick" or tier == "thorough")
        and (not args.only or args.only == n)
    ]
    todo.sort(key=lambda x: -len(x[1]) - 2 * (x[0] in ("call", "plus", "symbol")))
    with mp.get_context("fork").Pool(JOBS, _start, maxtasksperchild=1) as pool:
        outs = pool.map(_scenario, todo, chunksize=1)
    notes, confirmed = [], None
    weak = False

    def confirm(job, res, what, text):
        nonlocal confirmed
        if confirmed is None:
            confirmed = {"job": job, "found": res["problems"], "what": what, "schedule": text}

    # counterexamples
    for o in outs:
        for v in o["violations"]:
            if confirmed is not None:
                break
            res = real([v["job"]])[0]
            if res.get("problems"):
                confirm(v["job"], res, v["what"], v["text"])
            else:
                weak = True
                notes.append(
                    f"UNCONFIRMED in {o['setup']} {o['threads']}: {v['what']}: {res}\n{v['text']}"
                )
    # comparison with real threads
    validated = mismatches = 0
    if confirmed is None:
        samples = [(o, s) for o in outs for s in o["samples"]]
        for (o, s), res in zip(samples, real([s["job"] for _, s in samples])):
            if res.get("problems"):
                confirm(s["job"], res, "found while comparing with real threads", s["text"])
                break
            if res.get("error") or res.get("odd") or res.get("partition") != s["partition"]:
                mismatches += 1
                weak = True
                if mismatches < 4:
                    notes.append(f"MISMATCH in {o['setup']} {o['threads']}: {res} {s['partition']}\n{s['text']}")
            else:
                validated += 1
    # real threads, stopped after each bytecode: is there shared state the
    # encoding does not know of?
    sweeps = 0
    if confirmed is None:
        jobs = []
        for n, ops, _ in todo:
            if len(ops) == 2:
                jobs.append(
                    {
                        "setup": n,
                        "threads": list(ops),
                        "seed": seed,
                        "seconds": 12 if tier == "quick" else 120,
                        "inits": [[], [[ops[0], 0, "dead"]], [[ops[0], 0, "alive"]]],
                        "twice": 20 if tier == "quick" else 4000,
                    }
                )
        from multiprocessing.pool import ThreadPool

        with ThreadPool(JOBS) as pool:
            for job, res in zip(jobs, pool.imap(lambda j: real([j])[0], jobs)):
                sweeps += res.get("runs", 0)
                if res.get("problems") and confirmed is None:
                    one = dict(job, stops=res["stops"], init=res["init"])
                    again = real([one])[0]
                    if again.get("problems"):
                        confirm(one, again, "found on real threads only", f"stops {res['stops']}")
                elif res.get("error"):
                    weak = True
                    notes.append(f"ERROR {res['error'][-800:]}")
    for o in outs:
        if o["unmodelled"]:
            weak = True
            notes.append(f"DEGRADED {o['setup']} {o['threads']}: {o['unmodelled'][-1500:]}")
        for what, r in o["asked"]:
            if r == "unknown":
                weak = True
                notes.append(f"INCONCLUSIVE {o['setup']} {o['threads']}: {what}")
    q = {k: sum(o.get("queries", {}).get(k, 0) for o in outs) for k in ("sat", "unsat", "unknown")}
    solver_s = sum(o.get("solver_s", 0) for o in outs)
    cov = {
        "states": sum(sum(o.get("paths", {}).values()) for o in outs),
        "transitions": sum(o.get("operations", 0) for o in outs),
        "traces_validated_against_impl": validated,
        "samples": [
            {"setup": o["setup"], "threads": o["threads"], "schedule": o["samples"][-1]["text"].splitlines()}
            for o in outs
            if o["samples"]
        ][:4]
        or [{"note": "no schedule"}],
        "exhaustive": confirmed is None and not weak,
        "states_are": "paths of the constructions (one per combination of outcomes of their operations on shared state)",
        "transitions_are": "operations on shared state on those paths",
        "functions_encoded": sorted({f for o in outs for f in o["functions"]}),
        "bounds": [
            "the stated threads build the stated expressions, one construction each; then one more construction. "
            "Every interleaving of their operations on stores, rebound globals and class attributes, and locks; "
            "each store entry initially missing, dead (dropped at any time) or alive."
        ],
        "outside_the_bounds": check.outside,
        "queries_discharged": {"solver_queries": sum(q.values()), **q},
        "solver_time_s": round(solver_s, 2),
        "bytecode_preemption_runs": sweeps,
        "unconfirmed_counterexamples": sum("UNCONFIRMED" in n for n in notes),
        "per_harness": [
            {
                "scenario": o["setup"],
                "threads": o["threads"],
                "paths": o.get("paths"),
                "locations": o.get("locations"),
                "asked": o["asked"],
                "assertions": o.get("assertions"),
                "solver_s": round(o.get("solver_s", 0), 2),
                "wall_s": round(o.get("wall", 0), 2),
                "undecided": o["unmodelled"],
            }
            for o in outs
        ],
    }
    wall = time.time() - t0
    write_evidence(check, tier, seed, cov, wall, 1 if confirmed else 0, check.assumptions)
    print(
        f"{check.pid} [{tier}] scenarios={len(outs)} paths={cov['states']} queries={sum(q.values())} "
        f"solver={solver_s:.1f}s validated={validated} sweeps={sweeps} wall={wall:.1f}s"
    )
    if args.v:
        for p in cov["per_harness"]:
            print("   ", json.dumps(p)[:600])
    if confirmed is not None:
        confirmed["property"] = check.pid
        confirmed["how"] = f"PX_REPO={hooks.REPO} {VENV_PY} {VERIF}/px/schedule.py <this file>"
        rec = dict(confirmed["job"])
        rec.update({k: v for k, v in confirmed.items() if k != "job"})
        text = json.dumps(rec, indent=1, sort_keys=True)
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{check.pid}-{hashlib.sha256(text.encode()).hexdigest()[:12]}.json")
        with open(path, "w") as fh:
            fh.write(text + "\n")
        print(f"  {confirmed['what']}: {confirmed['found'][:3]}\n{confirmed['schedule']}")
        print(f"VIOLATION property={check.pid} replay={path}")
        return 1
    for n in notes[:12]:
        print("  " + n)
    if weak:
        if STRICT:
            return 2
        print("  DEGRADED: not everything could be decided (see above); nothing explored breaks the property")
    return 0
