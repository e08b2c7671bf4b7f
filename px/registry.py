"""Which harnesses decide which property (no z3 here)."""

from __future__ import annotations

import importlib


class Task:
    """One bounded exploration: a harness with fixed parameters."""

    def __init__(self, fn, params, bound, expect=(), core=True, name=None):
        self.fn = fn
        self.name = name or fn.__name__
        self.params = params
        self.bound = bound
        self.expect = tuple(expect)
        self.core = core


class Check:
    def __init__(self, pid, module):
        self.pid = pid
        self.module = module
        self.quick = []
        self.thorough = []
        self.harnesses = {}
        self.custom = None  # custom decision procedure (C02)
        self.assumptions = []
        self.outside = []
        self.technique = ""
        self.level_note = ""

    def harness(self, fn):
        self.harnesses[fn.__name__] = fn
        return fn

    def add(self, fn, bound, quick=True, expect=(), core=True, **params):
        t = Task(fn, params, bound, expect, core)
        if quick:
            self.quick.append(t)
        self.thorough.append(t)

    def deep(self, fn, bound, expect=(), core=False, **params):
        self.add(fn, bound, quick=False, expect=expect, core=core, **params)


def load(pid):
    return importlib.import_module(f"harness.{pid.lower()}").CHECK


def find(pid, name):
    return load(pid).harnesses[name]
