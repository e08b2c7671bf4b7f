"""Run threads of the real package under a given schedule (no z3 here).

    /opt/venv/bin/python px/schedule.py -  < jobs.json

A job names the constructions of each thread (harness/c02.py), what the stores
hold at the start, and the order in which the threads perform their operations
on shared state.  A "sweep" job instead stops one thread after each bytecode.
"""

from __future__ import annotations

import gc
import json
import os
import random
import sys
import threading
import time
import traceback
import weakref

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)

from harness import c02  # noqa: E402
from px import hooks  # noqa: E402

STEP_S = 5.0


class Recorder:
    """Real semantics; notes which keys are written, in order."""

    def __init__(self):
        self.locs = []  # (store, key)
        self.undo = []

    def _note(self, store, key):
        if not any(s is store and k == key for s, k in self.locs):
            self.locs.append((store, key))

    def read(self, store, key, do):
        return do()

    def write(self, store, key, value, do):
        if isinstance(store, hooks.Cell):
            self.undo.append((store, key, store._get(key)))
        self._note(store, key)
        return do()

    def setdefault(self, store, key, value, do):
        if not dict.__contains__(store, key):
            self._note(store, key)
        return do()

    def pop(self, store, key, do):
        return do()

    def other(self, store, op, do):
        return do()

    def acquire(self, lock, blocking, timeout):
        return lock.real.acquire(blocking, timeout)

    def release(self, lock):
        return lock.real.release()


class Baton:
    """One thread runs at a time; main decides which."""

    def __init__(self, build):
        self.build = build
        self.go = threading.Semaphore(0)
        self.back = threading.Semaphore(0)
        self.state = "new"
        self.result = None
        self.error = None
        self.events = 0
        self.held = {}
        self.thread = threading.Thread(target=self.run, daemon=True)

    def run(self):
        self.go.acquire()
        try:
            self.prepare()
            self.result = self.build()
        except BaseException as e:  # noqa: BLE001
            self.error = e
        finally:
            sys.settrace(None)
        self.state = "done"
        self.back.release()

    def prepare(self):
        pass

    def pause(self, why):
        """Called in the thread: hand over to main and wait for the next turn."""
        self.state = why
        self.back.release()
        self.go.acquire()
        self.state = "running"

    def resume(self):
        """Called in main: let the thread run to its next pause."""
        if self.state == "new":
            self.thread.start()
        self.state = "running"
        self.go.release()
        if not self.back.acquire(timeout=STEP_S):
            self.state = "stuck"
        return self.state


class Stepper:
    """Controller: every operation on shared state ends the thread's turn."""

    def __init__(self, settled):
        self.batons = {}
        self.settled = settled

    def me(self):
        return self.batons.get(threading.get_ident())

    def step(self, do):
        b = self.me()
        if b is None:
            return do()
        b.pause("before")
        try:
            return do()
        finally:
            b.events += 1
            b.pause("after")

    def known(self, store, key):
        try:
            return key in self.settled.get(id(store), ())
        except TypeError:
            return False

    def read(self, store, key, do):
        if self.known(store, key):
            return do()
        return self.step(do)

    def write(self, store, key, value, do):
        return self.step(do)

    def setdefault(self, store, key, value, do):
        if self.known(store, key):
            return do()
        return self.step(do)

    def pop(self, store, key, do):
        return self.step(do)

    def other(self, store, op, do):
        return do()

    def acquire(self, lock, blocking, timeout):
        b = self.me()
        if b is None:
            return lock.real.acquire(blocking, timeout)
        n = b.held.get(id(lock), 0)
        if n:
            b.held[id(lock)] = n + 1
            return lock.real.acquire(blocking, timeout)

        def take():
            while not lock.real.acquire(False):
                if not blocking:
                    return False
                b.pause("blocked")
            b.held[id(lock)] = 1
            return True

        return self.step(take)

    def release(self, lock):
        b = self.me()
        if b is None:
            return lock.real.release()
        n = b.held.get(id(lock), 1)
        b.held[id(lock)] = n - 1
        if n > 1:
            return lock.real.release()
        return self.step(lock.real.release)


class Sweeper(Stepper):
    """Controller: only a lock that is held ends a turn."""

    def step(self, do):
        return do()

    def read(self, store, key, do):
        return do()

    def setdefault(self, store, key, value, do):
        return do()


class Traced(Baton):
    """Pauses after a number of bytecodes of the package (or weakref)."""

    def __init__(self, build, stops):
        super().__init__(build)
        self.stops = list(stops)
        self.count = 0

    def prepare(self):
        if self.stops:
            sys.settrace(self.trace)

    def trace(self, frame, event, arg):
        if not self.stops:
            frame.f_trace_opcodes = False
            return None
        if event == "call":
            name = frame.f_code.co_filename
            if not (name.startswith(hooks.SRC) or name == weakref.__file__):
                return None
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
            return self.trace
        if event == "opcode":
            self.count += 1
            if self.stops and self.count == self.stops[0]:
                self.stops.pop(0)
                self.pause("stopped")
        return self.trace


def snapshot():
    out = {}
    for r in hooks.ALL:
        d = r()
        if d is not None:
            out[id(d)] = set(dict.keys(d))
    return out


def referent(v):
    return v() if isinstance(v, weakref.ref) else v


def prepare(setup, job):
    """Make what the stores hold at the start; what to keep, and what to find."""
    keep, expected, reapable = {}, {}, {}
    by_op = {}
    dying = {tuple(x) for x in job.get("order", ()) if isinstance(x, list)}
    for op, k, state in job.get("init", ()):
        by_op.setdefault(op, {})[k] = state
    for op, states in by_op.items():
        rec = Recorder()
        hooks.controller = rec
        try:
            obj = setup.ops[op]()
        finally:
            hooks.controller = None
        for cell, key, old in reversed(rec.undo):
            cell._set(key, old)
        whole = True
        for k, (store, key) in enumerate(rec.locs):
            if isinstance(store, hooks.Cell):
                continue
            state = states.get(k, "absent")
            v = dict.get(store, key)
            if state == "alive":
                keep[(op, k)] = referent(v)
                if ("die", op, k) in dying:
                    # without its callback: the store is told later ("reap")
                    dict.__setitem__(store, key, weakref.KeyedRef(referent(v), None, key))
                    reapable[(op, k)] = (store, key)
                    whole = False
                v = None
                continue
            whole = False
            if state == "dead":
                # as while its last reference is being dropped in another thread
                o = referent(v)
                dict.__setitem__(store, key, weakref.KeyedRef(o, None, key))
                reapable[(op, k)] = (store, key)
                o = None
            elif not isinstance(v, weakref.ref):
                dict.pop(store, key, None)
            v = None
        if whole:
            expected[op] = obj
        obj = None
        rec = None
    if by_op:
        gc.collect()
    return keep, expected, reapable


def judge(setup, job, batons, expected, when=None):
    """Problems with the results."""
    out = []
    first = {}
    for i, b in enumerate(batons):
        op = job["threads"][i]
        if b.error is not None:
            tb = "".join(traceback.format_exception(b.error))[-600:]
            out.append(["exception", f"thread {i} ({op}) raised {b.error!r}: {tb}"])
            continue
        if b.state != "done":
            out.append(["stuck", f"thread {i} ({op}) cannot go on: {b.state}"])
            continue
        p = setup.checks[op](b.result)
        if p:
            out.append(["content", f"thread {i} ({op}) got {p}"])
        if op in expected and b.result is not expected[op]:
            out.append(["existing", f"thread {i} ({op}) did not get the existing object"])
        if op in first and batons[first[op]].result is not b.result:
            out.append(
                ["identity", f"threads {first[op]} and {i} ({op}) got different objects"]
            )
        first.setdefault(op, i)
    return out


def run_schedule(job):
    setup = c02.SETUPS[job["setup"]]()
    settled = snapshot()
    keep, expected, reapable = prepare(setup, job)
    batons = [Baton(setup.ops[op]) for op in job["threads"]]
    ctl = Stepper(settled)
    problems, odd = [], []
    hooks.controller = ctl
    try:
        register(ctl, batons)
        for step in job["order"]:
            if isinstance(step, list):
                if step[0] == "die":
                    keep.pop((step[1], step[2]), None)
                    gc.collect()
                    continue
                store, key = reapable.get((step[1], step[2]), (None, None))
                if store is not None:
                    weakref._remove_dead_weakref(store, key)
                continue
            i = int(str(step).strip("r!"))
            b = batons[i]
            if str(step).startswith("r"):
                if b.state != "done":
                    b.resume()
                if b.state != "done":
                    odd.append(f"thread {i} did not end when expected: {b.state}")
                    continue
                if b.error is None:
                    # what the thread holds now, while others may be half way
                    p = setup.checks[job["threads"][i]](b.result)
                    if p:
                        problems.append(["unfinished", f"thread {i} received {p}"])
            else:
                if b.state == "done":
                    odd.append(f"thread {i} ended before it was expected to")
                    continue
                s = b.state
                if s in ("new", "after"):
                    s = b.resume()
                if s in ("before", "blocked"):
                    s = b.resume()
                if s != "after":
                    odd.append(f"thread {i} is {s} instead of past its next operation")
                elif not str(step).endswith("!"):
                    b.resume()
        for _ in range(400):
            live = [b for b in batons if b.state not in ("done", "stuck")]
            if not live:
                break
            for b in live:
                b.resume()
    finally:
        hooks.controller = None
    problems += judge(setup, job, batons, expected)
    ids = {}
    part = [
        "exception"
        if b.error is not None
        else ids.setdefault(id(b.result), len(ids))
        for b in batons
    ]
    init = [
        b.error is None and job["threads"][i] in expected and b.result is expected[job["threads"][i]]
        for i, b in enumerate(batons)
    ]
    return {"problems": problems, "odd": odd, "partition": part, "existing": init}


def register(ctl, batons):
    for b in batons:
        start = b.prepare

        def prepare(b=b, start=start):
            ctl.batons[threading.get_ident()] = b
            start()

        b.prepare = prepare


def run_traced(job, stops):
    """Two threads: run the first to a stop, the second, and so on."""
    setup = c02.SETUPS[job["setup"]]()
    keep, expected, reapable = prepare(setup, job)
    ops = job["threads"]
    batons = [Traced(setup.ops[ops[0]], stops[0]), Traced(setup.ops[ops[1]], stops[1])]
    ctl = Sweeper({})
    hooks.controller = ctl
    problems = []
    try:
        register(ctl, batons)
        seen = set()
        cur = 0
        for _ in range(60):
            live = [i for i, b in enumerate(batons) if b.state not in ("done", "stuck")]
            if not live:
                break
            if cur not in live:
                cur = live[0]
            b = batons[cur]
            b.resume()
            if b.state == "done" and b.error is None and cur not in seen:
                seen.add(cur)
                p = setup.checks[ops[cur]](b.result)
                if p:
                    problems.append(["unfinished", f"thread {cur} received {p}"])
            cur = 1 - cur
        after = Baton(setup.ops[ops[0]])
    finally:
        hooks.controller = None
    j = dict(job, threads=list(ops) + [ops[0]])
    after.resume()
    problems += judge(setup, j, batons + [after], expected)
    return problems, [b.count for b in batons], any(b.state == "stuck" for b in batons)


def run_sweep(job):
    rng = random.Random(job.get("seed", 1))
    t0 = time.time()
    limit = job.get("seconds", 20)
    runs = 0
    inits = job.get("inits") or [[]]
    # the interpreter starts tracing bytecodes with the second traced run
    run_traced(dict(job, init=inits[0]), [[1], []])
    for init in inits:
        j = dict(job, init=init)
        n = 1
        while n < 5000 and time.time() - t0 < limit:
            problems, counts, stuck = run_traced(j, [[n], []])
            runs += 1
            if problems:
                return {"problems": problems, "stops": [[n], []], "init": init, "runs": runs}
            if stuck or counts[0] < n:
                break
            n += 1
        top = n
        for _ in range(job.get("twice", 0)):
            if time.time() - t0 > limit:
                break
            a = sorted({rng.randint(1, top), rng.randint(1, top)})
            stops = [a, [rng.randint(1, top)]]
            problems, counts, stuck = run_traced(j, stops)
            runs += 1
            if problems:
                return {"problems": problems, "stops": stops, "init": init, "runs": runs}
            if stuck:
                break
    return {"problems": [], "runs": runs}


def main():
    hooks.load()
    src = sys.stdin.read() if sys.argv[1] == "-" else open(sys.argv[1]).read()
    data = json.loads(src)
    for job in data.get("jobs", [data]):
        try:
            if "order" in job:
                out = run_schedule(job)
            elif "stops" in job:
                run_traced(job, [[1], []])
                problems, _, _ = run_traced(job, job["stops"])
                out = {"problems": problems}
            else:
                out = run_sweep(job)
        except BaseException as e:  # noqa: BLE001
            out = {"error": "".join(traceback.format_exception(e))[-2000:]}
        print(json.dumps(out), flush=True)
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
