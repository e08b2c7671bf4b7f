"""What compiled code computes (shared by C24, C25 and others)."""

import math

from harness.lib import *  # noqa: F403
from harness.texts import head_name

KNOWN = ("Add", "Mul", "pow", "sin", "cos")


def exact_pow(b, e):
    """No compiler has a faster way to this power (x**2 is x*x, 2**x is exp2(x))."""
    return b not in (0.0, 1.0, -1.0) and math.frexp(abs(b))[0] != 0.5 and b != 10.0 and e not in (0.0, 0.5, -0.5, 1.0, -1.0, 2.0, -2.0, 4.0)


class Machine:
    """Double-precision value of a spec, sums and products left to right."""

    def __init__(self, E, args, values):
        self.E = E
        self.args = list(args)  # argument specs, in order
        self.values = list(values)
        self.memo = {}
        self.bad = {}
        self.lib = False  # a power that a compiler may compute in its own way was used

    def arg(self, s):
        for a, v in zip(self.args, self.values):
            c = same_spec(self.E, a, s)
            if c is True or (c is not False and bool(c)):
                return v
        return None

    def refused(self, s):
        """Some part of s cannot be compiled."""
        if id(s) in self.bad:
            return self.bad[id(s)][0]
        if type(s) is Leaf:
            r = self.arg(s) is None and s.kind != "Integer"
        elif head_name(self.E, s, KNOWN) is None:
            r = True
        else:
            r = any([self.refused(a) for a in s.args])
        self.bad[id(s)] = (r, s)
        return r

    def value(self, s):
        E = self.E
        if id(s) in self.memo:
            return self.memo[id(s)][0]
        if type(s) is Leaf:
            r = self.arg(s)
            if r is None:
                r = E.f_of_int(s.value)
        else:
            xs = [self.value(a) for a in s.args]
            h = head_name(E, s, KNOWN)
            if h == "Add" or h == "Mul":
                if not xs:
                    r = 0.0 if h == "Add" else 1.0
                else:
                    r = xs[0]
                    for v in xs[1:]:
                        r = r + v if h == "Add" else r * v
            else:
                self.lib = self.lib or (h == "pow" and not E.symbolic and not exact_pow(*xs))
                r = E.f_c(h, *xs)
        self.memo[id(s)] = (r, s)
        return r

    def agrees(self, got, want):
        return (self.E.flt_near if self.lib else self.E.flt_same)(got, want)


def assembled(E, text, nargs, out=False):
    """The function that LLVM code as returned by to_llvm_ir defines."""
    llvm, ct = E.mod("llvmlite.binding"), E.mod("ctypes")
    llvm.initialize()
    llvm.initialize_native_target()
    llvm.initialize_native_asmprinter()
    mod = llvm.parse_assembly(text)
    machine = llvm.Target.from_default_triple().create_target_machine()
    eng = llvm.create_mcjit_compiler(mod, machine)
    eng.finalize_object()
    KEEP.append(eng)
    types = ([ct.POINTER(ct.c_double)] if out else []) + [ct.c_double] * nargs
    return ct.CFUNCTYPE(None if out else ct.c_double, *types)(eng.get_function_address("jit_func1"))


KEEP = []
