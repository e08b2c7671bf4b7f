From 2d72527e3c74ecf82eef08ca952a0feabda7768d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 01/12] fix: refuse Tree() without a head

Tree() made a malformed object with neither children nor value. copy.copy,
copy.deepcopy and pickle used it to build a second, non-canonical object
for an expression, and later copies overwrote earlier ones.
---
 src/protosym/core/tree.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/protosym/core/tree.py b/src/protosym/core/tree.py
index b89365a..effb957 100644
--- a/src/protosym/core/tree.py
+++ b/src/protosym/core/tree.py
@@ -121,6 +121,11 @@ class Tree:
         if previous is not None:
             return previous
 
+        if not children:
+            # Without this a generic copy (which calls ``Tree()`` and then sets
+            # the attributes) would make a second object for an expression.
+            raise TypeError("A Tree needs at least a head.")
+
         if not all(isinstance(child, Tree) for child in children):
             raise TypeError("All arguments should be Tree.")
 
-- 
2.43.0


From b8357f89d958364c60a85b20812de21c3a6db700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:16 +0000
Subject: [PATCH 02/12] fix: substitute an expression that is itself one of the
 arguments

SubsFunc returned the replacement of the last argument whenever the whole
expression was an argument, e.g. x.xreplace({x: y, y: x}) gave x. Rules like
diff[f(a, b), b] = a were affected in the same way.
---
 src/protosym/core/tree.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/protosym/core/tree.py b/src/protosym/core/tree.py
index effb957..ed6340b 100644
--- a/src/protosym/core/tree.py
+++ b/src/protosym/core/tree.py
@@ -459,6 +459,7 @@ class SubsFunc:
     nargs: int
     atoms: list[Tree]
     operations: list[list[int]]
+    result: int
 
     def __new__(cls, expr: Tree, args: list[Tree]) -> SubsFunc:
         # A topological sort but exluding the args because they will be
@@ -511,6 +512,8 @@ class SubsFunc:
         obj.nargs = num_args
         obj.atoms = atoms
         obj.operations = operations
+        # Usually the last operation but expr could itself be one of the args.
+        obj.result = indices[expr]
 
         return obj
 
@@ -527,7 +530,7 @@ class SubsFunc:
             children = [stack[i] for i in indices]
             stack.append(Tree(*children))
 
-        return stack[-1]
+        return stack[self.result]
 
 
 try:
-- 
2.43.0


From e69707fddca3b2c88d5c880449443640d959bac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:16 +0000
Subject: [PATCH 03/12] fix: use every supplied atom value in forward
 evaluation

A supplied value of None was ignored, unlike in eval_recursive.
---
 src/protosym/core/evaluate.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/protosym/core/evaluate.py b/src/protosym/core/evaluate.py
index a961cdd..4c5e731 100644
--- a/src/protosym/core/evaluate.py
+++ b/src/protosym/core/evaluate.py
@@ -172,9 +172,8 @@ class Evaluator(Generic[_T]):
 
         # Convert all atoms to _T
         for atom in graph.atoms:
-            value_get = values.get(atom)
-            if value_get is not None:
-                value = value_get
+            if atom in values:
+                value = values[atom]
             else:
                 value = self.eval_atom(atom)
             stack.append(value)
-- 
2.43.0


From 28863e98eabe8d5ed7244eea8a2b0d1827130289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:32 +0000
Subject: [PATCH 04/12] fix: bracket powers and negative integers as the base
 of a power

---
 src/protosym/simplecas/functions.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/protosym/simplecas/functions.py b/src/protosym/simplecas/functions.py
index 0cf083f..f956519 100644
--- a/src/protosym/simplecas/functions.py
+++ b/src/protosym/simplecas/functions.py
@@ -57,13 +57,28 @@ eval_f64[cos(a)] = f64_cos(a)
 #                                                                           #
 # ------------------------------------------------------------------------- #
 
+
+
+class _PowText(str):
+    """Text of a power, which needs brackets to be the base of a power."""
+
+    __slots__ = ()
+
+
+def _pow_base(base: str) -> str:
+    """Bracket the base of a power if ``**`` would bind it differently."""
+    if isinstance(base, _PowText) or base.startswith("-"):
+        return f"({base})"
+    return base
+
+
 repr_atom = AtomFunc[str](str)
 repr_call = HeadOp[str](lambda head, args: f'{head}({", ".join(args)})')
 str_from_int = PyFunc1[int, str](str)
 str_from_str = PyFunc1[str, str](str)
 repr_add = PyOpN[str](lambda args: f'({" + ".join(args)})')
 repr_mul = PyOpN[str](lambda args: f'({"*".join(args)})')
-repr_pow = PyOp2[str](lambda b, e: f"{b}**{e}")
+repr_pow = PyOp2[str](lambda b, e: _PowText(f"{_pow_base(b)}**{e}"))
 
 
 eval_repr[HeadRule(a, b)] = repr_call(a, b)
@@ -83,7 +98,7 @@ eval_repr[a**b] = repr_pow(a, b)
 
 latex_add = PyOpN(lambda args: f'({" + ".join(args)})')
 latex_mul = PyOpN(lambda args: "(" + r" \times ".join(args) + ")")
-latex_pow = PyOp2(lambda b, e: f"{b}^{{{e}}}")
+latex_pow = PyOp2(lambda b, e: _PowText(f"{_pow_base(b)}^{{{e}}}"))
 latex_sin = PyOp1(lambda a: rf"\sin({a})")
 latex_cos = PyOp1(lambda a: rf"\cos({a})")
 
-- 
2.43.0


From ef9fe74ca28ef340e523077e13965b3578c5da7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:32 +0000
Subject: [PATCH 05/12] fix: convert empty SymPy tuples and calls without
 arguments

---
 src/protosym/simplecas/sympy_conversions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protosym/simplecas/sympy_conversions.py b/src/protosym/simplecas/sympy_conversions.py
index e4a3289..edfd3d6 100644
--- a/src/protosym/simplecas/sympy_conversions.py
+++ b/src/protosym/simplecas/sympy_conversions.py
@@ -90,7 +90,7 @@ def _from_sympy_cache(expr: sympy.Basic, cache: dict[sympy.Basic, Expr]) -> Expr
     ret = cache.get(expr)
     if ret is not None:
         return ret
-    elif expr.args:
+    elif expr.args or isinstance(expr, (sympy.Tuple, AppliedUndef)):
         ret = _from_sympy_cache_args(expr, sympy, cache)
     elif isinstance(expr, sympy.Integer):
         ret = Integer(expr.p)  # pyright: ignore
-- 
2.43.0


From 9d243d59d7ddf27ad4f40fa10239ba75ae1ec177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:51 +0000
Subject: [PATCH 06/12] fix: give arguments with unusual names a generated name
 in LLVM code

---
 src/protosym/simplecas/lambdification.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/protosym/simplecas/lambdification.py b/src/protosym/simplecas/lambdification.py
index ea74f71..20b90ef 100644
--- a/src/protosym/simplecas/lambdification.py
+++ b/src/protosym/simplecas/lambdification.py
@@ -32,13 +32,27 @@ declare double    @llvm.cos.f64(double %Val)
 """
 
 
+def _argument_names(symargs: list[Tree]) -> dict[Tree, str]:
+    """LLVM names for the arguments, generated where the text is unsuitable."""
+    argnames: dict[Tree, str] = {}
+    used = {"_out"}
+    for n, arg in enumerate(symargs):
+        name = str(arg)
+        if not (name.isascii() and name.isidentifier()) or name in used:
+            # Neither an identifier nor the name of an instruction like ".0".
+            name = f"arg.{n}"
+        used.add(name)
+        argnames[arg] = f'%"{name}"'
+    return argnames
+
+
 def _to_llvm_f64(symargs: list[Tree], expression: Tree) -> str:
     """Code for LLVM IR function computing ``expression`` from ``symargs``."""
     expression = bin_expand(expression)
 
     graph = forward_graph(expression)
 
-    argnames = {s: f'%"{s}"' for s in symargs}
+    argnames = _argument_names(symargs)
 
     identifiers = []
     for a in graph.atoms:
@@ -154,7 +168,7 @@ def _to_llvm_f64_matrix(symargs: list[Tree], mat: Matrix) -> str:  # noqa [C901]
 
     graph = forward_graph(elements_graph)
 
-    argnames = {s: f'%"{s}"' for s in symargs}
+    argnames = _argument_names(symargs)
 
     identifiers = []
     for a in graph.atoms:
-- 
2.43.0


From bff944588b11aee0d6f58184aed9e164c29cbf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:21 +0000
Subject: [PATCH 07/12] fix: expand an empty sum or product to zero or one

---
 src/protosym/simplecas/expr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/protosym/simplecas/expr.py b/src/protosym/simplecas/expr.py
index dcfe686..9867459 100644
--- a/src/protosym/simplecas/expr.py
+++ b/src/protosym/simplecas/expr.py
@@ -557,8 +557,8 @@ Mul = Function("Mul")
 List = Function("List")
 
 bin_expand = Transformer()
-bin_expand.add_opn(Add.rep, lambda args: reduce(Add.rep, args))
-bin_expand.add_opn(Mul.rep, lambda args: reduce(Mul.rep, args))
+bin_expand.add_opn(Add.rep, lambda args: reduce(Add.rep, args) if args else zero.rep)
+bin_expand.add_opn(Mul.rep, lambda args: reduce(Mul.rep, args) if args else one.rep)
 
 #
 # An evaluator to count the size of an expression tree.
-- 
2.43.0


From f27c7e453d8229dab2d7003cefd6c3d74e42d191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:21 +0000
Subject: [PATCH 08/12] fix: make the lookup of expressions built by several
 threads atomic

---
 src/protosym/core/atom.py | 10 +++++++++-
 src/protosym/core/sym.py  |  5 +++--
 src/protosym/core/tree.py |  8 +++++---
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/protosym/core/atom.py b/src/protosym/core/atom.py
index 1cc69de..3f36acf 100644
--- a/src/protosym/core/atom.py
+++ b/src/protosym/core/atom.py
@@ -5,6 +5,7 @@ This module defines the :class:`AtomType` and :class:`Atom` types.
 
 from __future__ import annotations
 
+from threading import RLock as _RLock
 from typing import TYPE_CHECKING as _TYPE_CHECKING
 from typing import Any, cast
 from typing import Generic as _Generic
@@ -29,6 +30,12 @@ _T = _TypeVar("_T", bound=AnyValue, covariant=True)
 #
 _all_atoms: _WeakDict[Any, Any] = _WeakDict()
 
+#
+# WeakValueDictionary.setdefault is itself not atomic: hold this lock around it
+# so that threads creating the same expression all get the same object.
+#
+_store_lock = _RLock()
+
 
 class AtomType(_Generic[_T]):
     """Identifier to distinguish different kinds of atoms.
@@ -169,7 +176,8 @@ class Atom(_Generic[_T]):
         # here then we will make sure to retrieve the object created there or
         # otherwise force the other thread to accept the value we have created
         # here.
-        obj = _all_atoms.setdefault(key, obj)
+        with _store_lock:
+            obj = _all_atoms.setdefault(key, obj)
 
         return obj
 
diff --git a/src/protosym/core/sym.py b/src/protosym/core/sym.py
index 6253994..f2f926f 100644
--- a/src/protosym/core/sym.py
+++ b/src/protosym/core/sym.py
@@ -18,7 +18,7 @@ if _TYPE_CHECKING:
 
 from weakref import WeakValueDictionary as _WeakDict
 
-from protosym.core.atom import AtomType
+from protosym.core.atom import AtomType, _store_lock
 from protosym.core.differentiate import DiffProperties, diff_forward
 from protosym.core.evaluate import Evaluator
 from protosym.core.exceptions import BadRuleError
@@ -153,7 +153,8 @@ class Sym:
         obj = super().__new__(cls)
         obj.rep = tree_expr
 
-        obj = cls._all_expressions.setdefault(key, obj)
+        with _store_lock:
+            obj = cls._all_expressions.setdefault(key, obj)
 
         return obj
 
diff --git a/src/protosym/core/tree.py b/src/protosym/core/tree.py
index ed6340b..8139d3c 100644
--- a/src/protosym/core/tree.py
+++ b/src/protosym/core/tree.py
@@ -9,7 +9,7 @@ from dataclasses import dataclass
 from typing import TYPE_CHECKING as _TYPE_CHECKING
 from weakref import WeakValueDictionary as _WeakDict
 
-from protosym.core.atom import Atom, AtomType
+from protosym.core.atom import Atom, AtomType, _store_lock
 
 if _TYPE_CHECKING:
     from protosym.core.atom import AnyAtom
@@ -132,7 +132,8 @@ class Tree:
         obj = object.__new__(cls)
         obj.children = children
 
-        obj = _all_trees.setdefault(children, obj)
+        with _store_lock:
+            obj = _all_trees.setdefault(children, obj)
 
         return obj
 
@@ -150,7 +151,8 @@ class Tree:
         obj.value = value
         obj.children = ()
 
-        obj = _all_trees.setdefault(value, obj)
+        with _store_lock:
+            obj = _all_trees.setdefault(value, obj)
 
         return obj
 
-- 
2.43.0


From 8896058716729e10a1e14befdd9ee6bfbe739d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 09/12] fix: refuse a star-rule without a varargs function

---
 src/protosym/core/sym.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/protosym/core/sym.py b/src/protosym/core/sym.py
index f2f926f..e5d881a 100644
--- a/src/protosym/core/sym.py
+++ b/src/protosym/core/sym.py
@@ -573,6 +573,10 @@ class SymEvaluator(Generic[T_sym, T_val]):
         else:
             if not isinstance(call.op, PyOp):
                 raise BadRuleError("Rule for a head should by of type PyOp")
+            if not isinstance(call.op, PyOpN) and any(
+                arg.rep.children[:1] == (Star,) for arg in pattern.args
+            ):
+                raise BadRuleError("star-rule needs a varargs function.")
             self.add_op(pattern.head, call.op)
 
     def add_op(
-- 
2.43.0


From e40b7fdb3be03fd5e6eaec994e38fa5df4fb0526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:06 +0000
Subject: [PATCH 10/12] fix: print deeply nested heads without recursion

---
 src/protosym/core/tree.py | 51 ++++++++++++++++++++++++++++++---------
 1 file changed, 39 insertions(+), 12 deletions(-)

diff --git a/src/protosym/core/tree.py b/src/protosym/core/tree.py
index 8139d3c..e83b3ce 100644
--- a/src/protosym/core/tree.py
+++ b/src/protosym/core/tree.py
@@ -162,21 +162,48 @@ class Tree:
 
     def __repr__(self) -> str:
         """Show the verbose representaton."""
-        if self.children:
-            argstr = ", ".join(map(repr, self.children))
-            return f"Tree({argstr})"
-        else:
-            return f"Tr({self.value!r})"
+        # Use a stack rather than recursion so that there is no depth limit.
+        pieces: list[str] = []
+        stack: list[Tree | str] = [self]
+        while stack:
+            item = stack.pop()
+            if isinstance(item, str):
+                pieces.append(item)
+            elif item.children:
+                pieces.append("Tree(")
+                stack.append(")")
+                stack.extend(_separated(item.children)[::-1])
+            else:
+                pieces.append(f"Tr({item.value!r})")
+        return "".join(pieces)
 
     def __str__(self) -> str:
         """Show the pretty form."""
-        if self.children:
-            head = self.children[0]
-            args = self.children[1:]
-            argstr = ", ".join(map(str, args))
-            return f"{head}({argstr})"
-        else:
-            return str(self.value)
+        pieces: list[str] = []
+        stack: list[Tree | str] = [self]
+        while stack:
+            item = stack.pop()
+            if isinstance(item, str):
+                pieces.append(item)
+            elif item.children:
+                head = item.children[0]
+                args = item.children[1:]
+                stack.append(")")
+                stack.extend(_separated(args)[::-1])
+                stack.extend(["(", head])
+            else:
+                pieces.append(str(item.value))
+        return "".join(pieces)
+
+
+def _separated(args: tuple[Tree, ...]) -> list[Tree | str]:
+    """Arguments of a call with commas in between."""
+    separated: list[Tree | str] = []
+    for n, arg in enumerate(args):
+        if n > 0:
+            separated.append(", ")
+        separated.append(arg)
+    return separated
 
 
 # Convenient shorthand for creating atoms
-- 
2.43.0


From 295696bb804e444626c64d736c3df6930c2c82e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:40 +0000
Subject: [PATCH 11/12] fix: refuse a differentiation rule for an atom with
 TypeError

---
 src/protosym/core/sym.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/protosym/core/sym.py b/src/protosym/core/sym.py
index e5d881a..522776b 100644
--- a/src/protosym/core/sym.py
+++ b/src/protosym/core/sym.py
@@ -656,10 +656,10 @@ class SymDifferentiator(Generic[T_sym]):
         dexpr_r = dexpr.rep
         sym_r = sym.rep
 
-        head = expr_r.children[0]
         args_lhs = expr_r.children[1:]
         if args_lhs.count(sym_r) != 1:
-            raise TypeError("Multiple occurrences of wild symbol in pattern.")
+            raise TypeError("Wild symbol should occur once in the pattern.")
+        head = expr_r.children[0]
         index = args_lhs.index(sym_r)
 
         rhsfunc = SubsFunc(dexpr_r, list(args_lhs))
-- 
2.43.0


From 0aa14d3617dd8ba28902586b27912a0f71d2b7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:03 +0000
Subject: [PATCH 12/12] fix: apply a matrix operation to zero entries too

binop skipped its function wherever one of the two entries was zero, which
is right for addition only: A.binop(B, Mul) gave x, not x*0.
---
 src/protosym/simplecas/matrix.py | 34 +++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/protosym/simplecas/matrix.py b/src/protosym/simplecas/matrix.py
index 9dc7c5c..ab81463 100644
--- a/src/protosym/simplecas/matrix.py
+++ b/src/protosym/simplecas/matrix.py
@@ -3,7 +3,7 @@
 from __future__ import annotations
 
 from typing import TYPE_CHECKING as _TYPE_CHECKING
-from typing import Any, Sequence
+from typing import Any, Callable, Sequence
 
 from protosym.simplecas.expr import Add, Expr, List, expressify, zero
 
@@ -11,6 +11,15 @@ if _TYPE_CHECKING:
     from protosym.simplecas.expr import Expressifiable
 
 
+def _add_entries(a: Expr, b: Expr) -> Expr:
+    """Sum of two entries (an entry that is 0 is left out)."""
+    if a == zero:
+        return b
+    if b == zero:
+        return a
+    return Add(a, b)
+
+
 class Matrix:
     """Matrix of Expr."""
 
@@ -106,23 +115,20 @@ class Matrix:
         """Matrix addition A + B -> C."""
         if not isinstance(other, Matrix):
             return NotImplemented
-        return self.binop(other, Add)
+        return self.binop(other, _add_entries)
 
-    def binop(self, other: Matrix, func: Expr) -> Matrix:
+    def binop(self, other: Matrix, func: Callable[[Expr, Expr], Expr]) -> Matrix:
         """Elementwise binary operaton on two matrices."""
         if self.shape != other.shape:
             raise TypeError("Shape mismatch.")
-        new_elements = self.elements.copy()
-        new_entrymap = self.entrymap.copy()
-        for ij, n_other in other.entrymap.items():
-            if ij in new_entrymap:
-                self_ij = new_elements[new_entrymap[ij]]
-                other_ij = other.elements[n_other]
-                result = func(self_ij, other_ij)
-                new_elements[new_entrymap[ij]] = result
-            else:
-                new_entrymap[ij] = len(new_elements)
-                new_elements.append(other.elements[n_other])
+        new_elements: list[Expr] = []
+        new_entrymap: dict[tuple[int, int], int] = {}
+        for i in range(self.nrows):
+            for j in range(self.ncols):
+                result = func(self[i, j], other[i, j])
+                if result != zero:
+                    new_entrymap[(i, j)] = len(new_elements)
+                    new_elements.append(result)
         return self._new(self.nrows, self.ncols, new_elements, new_entrymap)
 
     def diff(self, sym: Expr) -> Matrix:
-- 
2.43.0

