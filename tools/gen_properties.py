"""Writes /verif/properties.jsonl (kept as a script so that edits stay valid JSON)."""
import json, os

P = []


def prop(id, title, statement, over, quant, why, files, mech, observe, state=()):
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over.split(), "text": quant},
            "why_tests_cant": why,
            "anchors": {
                "files": ["src/protosym/" + f for f in files],
                "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                "observe_at": observe,
                "hook_needed": None,
            },
        }
    )


prop("C01", "Structurally equal expressions are one object, unequal ones never are",
     "Building an atom, a tree or a Sym/Expr twice from equal parts returns the very same live object, however and in whatever order the two were built. Objects whose kind, value, head, argument list, argument order or Sym class differ are distinct and compare unequal; so ==, hash, set and dict membership agree with structure. No public operation, copying included, produces a second live object for the same expression.",
     "inputs histories", "all pairs of expressions (any atom kinds, any int/str values, any head/argument structure, any sharing) and any order of construction",
     "Tests compare a few named symbols and one or two compound expressions; equality must be right for every pair of values and shapes, including near misses (same name in two kinds, same children in another order, a prefix of the children).",
     ["core/atom.py", "core/tree.py", "core/sym.py"],
     [("Atom.__new__ store lookup keyed by kind and value", "core/atom.py"), ("Tree.__new__/Tree.atom store lookup keyed by children/atom", "core/tree.py"), ("Sym.__new__ store keyed by class and tree", "core/sym.py")],
     ["identity and ==/hash of atoms, trees and Expr"],
     [("_all_atoms", "live atoms by (kind, value)", "core/atom.py"), ("_all_trees", "live trees by atom or children", "core/tree.py"), ("Sym._all_expressions", "live Sym by (class, tree)", "core/sym.py")])
prop("C02", "Concurrent construction still yields a single object",
     "When several threads build the same expression at the same time, all of them receive the same object, in every interleaving of their steps. No interleaving makes a construction fail or return a partly initialised object.",
     "schedules", "every interleaving, at the granularity of single store operations, of threads that construct equal or different atoms, trees and Syms",
     "The tests are single threaded; a race needs a thread switch between the lookup and the insertion inside the store.",
     ["core/atom.py", "core/tree.py", "core/sym.py"],
     [("insertion into the store through setdefault after a failed lookup", "core/atom.py, core/tree.py, core/sym.py")],
     ["identity of the objects returned to each thread"])
prop("C03", "Expressions live exactly as long as they are used, and can be rebuilt",
     "An expression that nothing refers to any more is released together with the subexpressions only it used, so that building and dropping expressions does not accumulate objects. After any history of building, dropping and rebuilding, an expression built again is complete, correct and canonical, and expressions still in use are unaffected.",
     "histories", "all histories of building, dropping and rebuilding atoms, trees and Exprs with arbitrary values, up to the stated length",
     "No test drops an expression and rebuilds it, or looks at what stays alive; stale store entries only show after particular histories.",
     ["core/atom.py", "core/tree.py", "core/sym.py"],
     [("weak-valued stores", "core/atom.py, core/tree.py, core/sym.py")],
     ["weak references to expressions; identity and content after rebuilding"])
prop("C04", "Topological sort lists each needed subexpression once, children first",
     "topological_sort returns every distinct subexpression reachable from the expression exactly once, each one after all of its children, with the expression itself last; heads are followed only when requested, and excluded subexpressions are neither listed nor walked into. topological_split returns the same listing divided into atoms, compound expressions (both in order) and the set of heads of those compound expressions.",
     "inputs", "all expression graphs (any sharing, depth, arity, compound heads) and all exclusion sets within the stated size",
     "Tests sort a handful of fixed expressions; the order must be right for every shape of sharing.",
     ["core/tree.py"], [("stack walk with a seen set", "core/tree.py: topological_sort"), ("topological_split", "core/tree.py")],
     ["topological_sort and topological_split results"])
prop("C05", "The forward graph rebuilds the expression it was made from",
     "Running a forward graph (start with its atoms, then apply each listed head to the earlier results it indexes) reproduces the original expression as the last result. Every index points to an earlier result, atoms and operations hold each distinct subexpression exactly once, and the heads are exactly the heads of the operations.",
     "inputs", "all expression graphs within the stated size, whatever the values in the leaves",
     "The tests rebuild two or three fixed expressions.",
     ["core/tree.py"], [("index assignment over the topological split", "core/tree.py: forward_graph")],
     ["forward_graph(expr).atoms/.heads/.operations"])
prop("C06", "Evaluation is the bottom-up fold of the registered rules",
     "Evaluating an expression applies, to every compound subexpression, the rule of its head (or the generic operation rule) to the values of its arguments in order, and to every atom the value supplied for it (whatever that value is), else the rule of its kind, else the generic atom rule. Where no rule applies NoEvaluationRuleError is raised. The iterative and the recursive evaluation strategy always agree on the result.",
     "inputs programs", "all expressions, rule sets (star and list rules, generic fallbacks, missing rules) and supplied atom values within the stated size",
     "Tests evaluate a few expressions with float rules and never supply falsy values, or compare the two strategies on shared graphs.",
     ["core/evaluate.py", "core/sym.py"], [("forward evaluation over the forward graph", "core/evaluate.py: Evaluator.eval_forward"), ("recursive evaluation", "core/evaluate.py: Evaluator.eval_recursive")],
     ["Evaluator call results and exceptions"])
prop("C07", "Work grows with the number of distinct subexpressions, not tree size",
     "Evaluating, transforming, differentiating, substituting in, sorting or generating code for an expression does a bounded number of rule applications or emitted instructions per distinct subexpression, no matter how often subexpressions repeat. In particular a rule is called at most once per distinct subexpression in one evaluation.",
     "inputs", "all expression graphs within the stated size, including graphs whose tree form is exponentially larger",
     "Tests check results, not how much work was done; losing sharing still gives right answers on small inputs.",
     ["core/tree.py", "core/evaluate.py", "core/differentiate.py", "simplecas/lambdification.py"],
     [("seen set in topological_sort", "core/tree.py"), ("value stack indexed by distinct subexpression", "core/evaluate.py, core/differentiate.py")],
     ["number of rule calls, of emitted instructions and of graph operations"])
prop("C08", "Expression depth is not limited by the call stack",
     "Sorting, evaluating, transforming, differentiating, substituting in, counting, printing (str/repr of Expr) and generating code for an expression use an amount of call stack that does not depend on how deeply the expression is nested. Very deep expressions therefore never fail with a recursion error in these operations.",
     "inputs", "all expression shapes within the stated size, and nesting depth as a parameter",
     "A test that nests a few levels never reaches the recursion limit.",
     ["core/tree.py", "core/evaluate.py", "core/differentiate.py", "simplecas/expr.py", "simplecas/lambdification.py"],
     [("explicit stack instead of recursion", "core/tree.py: topological_sort"), ("iterative forward evaluation", "core/evaluate.py")],
     ["call-stack depth reached inside the package"])
prop("C09", "Substitution is simultaneous and exact",
     "Substituting replaces every occurrence of each listed subexpression (atom or compound, in head position too, and the whole expression itself) by its replacement, all at once: replacements are never rewritten again and an outer match wins over the matches inside it. Everything else is rebuilt unchanged, a substitution that matches nothing returns the same expression, and a prepared substitution function can be called again with other arguments. A wrong number of arguments is refused with TypeError.",
     "inputs", "all expressions, all tuples of distinct targets (overlapping, nested, absent, the expression itself) and all replacements within the stated size",
     "Tests substitute one or two symbols in fixed expressions.",
     ["core/tree.py", "simplecas/expr.py"], [("SubsFunc: dependency marking and index program", "core/tree.py"), ("Expr.xreplace / as_function", "simplecas/expr.py")],
     ["SubsFunc(...), Expr.xreplace, Expr.as_function results"])
prop("C10", "Forward differentiation follows the registered rules for every function",
     "For any set of elementary partial-derivative rules the derivative produced denotes, at every point, the sum over arguments of rule value times argument derivative, with sum and product rules for the add and mul heads, element-wise derivatives for distributive heads, one for the symbol itself and zero for anything that does not involve it. Differentiating repeatedly is differentiating the result again.",
     "inputs programs", "all expressions over heads of any arity with arbitrary (uninterpreted) functions, partial derivatives and values, within the stated size",
     "Tests differentiate about a dozen fixed expressions in sin, cos, + and *; a wrong term only shows for particular combinations of sharing, arity and argument position.",
     ["core/differentiate.py", "core/sym.py"], [("diff_forward", "core/differentiate.py"), ("product_rule_forward / chain_rule_forward", "core/differentiate.py")],
     ["value of the derivative expression at arbitrary points"])
prop("C11", "Expr.diff is the mathematical derivative for the built-in operations",
     "For every expression in numbers, symbols, +, -, *, /, ** with an exponent free of the variable, sin, cos and List, diff(sym) denotes the derivative with respect to sym, and diff(sym, n) the n-fold derivative (n = 0 returns the expression), wherever the expression and every step of the power rule are defined (so not at u = 0 for u**0). Other symbols are constants.",
     "inputs", "all expressions over the built-in operations within the stated size, all integer constants, all variable names and orders n",
     "Tests compare printed forms of a few derivatives.",
     ["simplecas/expr.py", "core/differentiate.py"], [("built-in diff rules", "simplecas/expr.py"), ("Expr.diff", "simplecas/expr.py")],
     ["value of Expr.diff results at arbitrary points"])
prop("C12", "Evaluator rules: malformed rules are refused, accepted rules are applied",
     "Registering a rule whose left side and right side do not fit (arguments differ in number, identity or order, or a star pattern without list function and vice versa, or a function wrapper of the wrong kind, or no symbolic call at all) raises BadRuleError and changes nothing. An accepted rule is used for exactly the head or atom kind it names, later rules for the same head replace earlier ones, and rules of one evaluator never affect another.",
     "programs inputs", "all combinations of pattern kind, function wrapper kind and argument tuples within the stated size, followed by evaluation of arbitrary expressions",
     "Tests try one example of each error.",
     ["core/sym.py"], [("SymEvaluator.__setitem__ validation", "core/sym.py")], ["exceptions from rule registration and later evaluation results"])
prop("C13", "Differentiation rules bind the right argument position and pattern variables",
     "A rule diff[f(a1..an), ai] = rhs makes the partial derivative of f by its i-th argument the right side with all pattern variables replaced by the actual arguments, for every arity, position and right side (also when the right side is one of the pattern variables or a constant). Patterns in which the variable does not occur exactly once and keys that are not a pair are refused with TypeError; rules for other positions, functions and differentiators are unaffected.",
     "programs inputs", "all arities, positions, right sides and rule sequences within the stated size",
     "Tests register three or four rules, all unary or binary.",
     ["core/sym.py", "core/differentiate.py"], [("SymDifferentiator.__setitem__", "core/sym.py"), ("DiffProperties rule tables", "core/differentiate.py")], ["derivatives computed after registration"])
prop("C14", "Operators build exactly the expression written, without rewriting it",
     "Every arithmetic operator on Expr, with an Expr or a Python int on either side, builds the expression its definition states (for instance x - y is x + (-1)*y and x / y is x * y**(-1)) with operands in written order, and never simplifies, flattens, reorders or evaluates. Ints become Integer atoms of the same value, Exprs are used as they are, and operands that cannot be converted are left to their own operators and otherwise refused (TypeError).",
     "inputs", "all operators, all operand expressions, all int values, both operand orders",
     "Tests check each operator once with fixed operands.",
     ["simplecas/expr.py"], [("expressify / operator methods", "simplecas/expr.py")], ["structure of the resulting Expr (head, args, atom values)"])
prop("C15", "eval_f64 computes the documented floating-point value",
     "eval_f64 returns what Python computes in double precision when each sum is the correctly rounded sum of its evaluated terms (math.fsum), each product is multiplied left to right, and powers, sin and cos are math.pow, math.sin and math.cos; integers convert as float() does and supplied symbol values are used as they are, zero and negative zero included. A symbol or function with no value or rule raises NoEvaluationRuleError.",
     "inputs", "all expressions within the stated size, all integer constants and all finite doubles supplied for symbols",
     "Tests evaluate a few expressions at a few points with tolerant comparison; rounding differences need particular values.",
     ["simplecas/functions.py", "simplecas/expr.py", "core/evaluate.py"], [("eval_f64 rules", "simplecas/functions.py")], ["Expr.eval_f64 results, to the last bit"])
prop("C16", "The printed form of an Expr reads back, as Python, to the same expression",
     "str and repr of an Expr, read with Python's own operator precedence and associativity, denote the same expression: sums, products, powers and calls group exactly as in the structure, operands appear in order, and integers and names appear as they are. Two different expressions made of identifiers and ints never print alike, given that each name denotes one symbol or one function, every head is a name or a call, and every sum and product has two or more terms.",
     "inputs", "all expressions over ints (negative ones included), identifier names, sums and products of two or more terms, powers and calls within the stated size",
     "Tests print a few expressions; nested powers and negative bases are not printed.",
     ["simplecas/functions.py"], [("eval_repr rules", "simplecas/functions.py")], ["str(expr), repr(expr)"])
prop("C17", "The LaTeX form groups exactly as the expression does",
     "The LaTeX output, read with the usual conventions (superscripts bind tighter than products, products tighter than sums, juxtaposed sin and cos apply to the bracketed argument), denotes the same expression and is well formed: no double superscript, braces and brackets balanced, every operand in order.",
     "inputs", "all expressions over ints, identifier names, sums and products of two or more terms, powers, sin, cos and other calls within the stated size",
     "Tests render six fixed expressions.",
     ["simplecas/functions.py"], [("eval_latex rules", "simplecas/functions.py")], ["Expr.eval_latex()"])
prop("C18", "Low-level repr and str show the structure faithfully",
     "repr of atoms, trees and Sym spells out kind, value and nesting completely, so that evaluating the text with the kinds in scope gives back the same object, and so different expressions have different repr. str prints head(arg, ...) with the arguments in order.",
     "inputs", "all trees within the stated size, any kind names and values, compound heads included",
     "Tests check two reprs.",
     ["core/atom.py", "core/tree.py", "core/sym.py"], [("Atom.__repr__, Tree.__repr__, Sym.__repr__", "core/*.py")], ["repr and str text"])
prop("C19", "Operation counts are exact",
     "count_ops_graph is the number of distinct subexpressions (heads not counted) and count_ops_tree is the number of subexpressions counted with multiplicity, exactly, for every sharing pattern and however large the tree form gets.",
     "inputs", "all expression graphs within the stated size; counts far beyond machine integers",
     "Tests count two fixed families.",
     ["simplecas/expr.py"], [("count_ops_tree evaluator, count_ops_graph via topological_sort", "simplecas/expr.py")], ["count_ops_tree(), count_ops_graph()"])
prop("C20", "bin_expand makes sums and products binary and left-associated, nothing else",
     "bin_expand turns every sum or product of n terms into left-associated binary ones over the same terms in the same order, at every depth, and leaves everything else as it is; a one-term sum or product becomes its term and an empty one becomes 0 or 1. The result has the same exact value as the original at every point, and expanding it again changes nothing.",
     "inputs", "all expressions within the stated size and arity (sums and products of no or one term included)",
     "One doctest expands one sum.",
     ["simplecas/expr.py", "core/evaluate.py"], [("bin_expand transformer", "simplecas/expr.py")], ["Expr.bin_expand() structure and value"])
prop("C21", "A Transformer changes exactly what its rules name",
     "A Transformer applies its rules bottom-up to every subexpression they name and rebuilds everything else unchanged; without an applicable rule the result is the identical object. Rules see already transformed arguments and their results are not transformed again.",
     "inputs programs", "all expressions and rule sets (head rules, atom rules, supplied values) within the stated size",
     "Tests run one rule on one expression.",
     ["core/evaluate.py"], [("Transformer generic rules", "core/evaluate.py")], ["Transformer call results"])
prop("C22", "A Matrix holds exactly the entries it was given",
     "M[i, j] and tolist() (a new list of separate rows) return the entry given for row i and column j (ints converted to Integer) for every placement of zero entries, and shape is the given shape. Indices outside the matrix raise IndexError, anything but a pair of ints raises TypeError, and input that is not a non-empty list of equally long lists is refused with TypeError.",
     "inputs", "all shapes within the stated size, all placements of zeros and repeated entries, all int indices",
     "Tests use 1x2 and 2x2 matrices.",
     ["simplecas/matrix.py"], [("sparse entry map", "simplecas/matrix.py")], ["Matrix indexing, tolist, shape, repr"],
     [("elements/entrymap", "non-zero entries and where they belong", "simplecas/matrix.py")])
prop("C23", "Matrix addition and differentiation are entry-wise and leave operands alone",
     "(A + B)[i, j] denotes A[i, j] + B[i, j] and M.diff(s)[i, j] denotes the derivative of M[i, j] for every pattern of zeros, also when results become zero or are added or differentiated again. Operands are unchanged, shapes that differ raise TypeError, and any binary operation through binop applies its function to left and right entry in that order.",
     "inputs histories", "all shapes and zero patterns within the stated size, entries arbitrary, chains of additions and derivatives",
     "Tests add and differentiate one or two 2x2 matrices.",
     ["simplecas/matrix.py"], [("Matrix.binop, Matrix.diff via elements_graph", "simplecas/matrix.py")], ["entries of the results and of the operands afterwards"])
prop("C24", "Compiled functions compute the same doubles as the expression",
     "lambdify(args, expr) returns a function that, for arguments given in the order of args, computes the expression in double precision with sums and products taken left to right and with exactly converted integer constants, bit for bit. It works for every choice of distinct symbol names (clashes with generated names included), ignores unused arguments, and stays valid as long as the function is held, whatever else is compiled; functions or symbols it cannot compile are refused with LLVMNotImplementedError, and an integer constant too large for a double raises an error rather than being compiled wrongly. to_llvm_ir(args) returns LLVM code for the same function.",
     "inputs programs histories", "all expressions within the stated size, all distinct symbol names, all argument orders, all finite double arguments and integer constants in the double range",
     "Tests compile six expressions in symbols x and y and compare with tolerance.",
     ["simplecas/lambdification.py"], [("LLVM IR generation", "simplecas/lambdification.py: _to_llvm_f64"), ("engines kept alive", "simplecas/lambdification.py: _compile_llvm")],
     ["results of the compiled function; generated LLVM IR"])
prop("C25", "Compiled matrix functions fill every entry and nothing else",
     "lambdify(args, M) returns a function giving a fresh array of M's shape whose [i, j] entry is the double value of M[i, j] (as for compiled expressions) and 0.0 for zero entries, for every zero pattern and entry order, including matrices obtained by addition, differentiation or conversion. It never writes outside the array. M.to_llvm_ir(args) returns the LLVM code that stores the entries.",
     "inputs", "all shapes and zero patterns within the stated size, all entry expressions, symbol names and finite double arguments",
     "Tests compile two 2x2 matrices.",
     ["simplecas/lambdification.py", "simplecas/matrix.py"], [("element stores by row and column", "simplecas/lambdification.py: _to_llvm_f64_matrix")], ["array returned by the compiled function"])
prop("C26", "SymPy conversion preserves the meaning of expressions in both directions",
     "to_sympy gives a SymPy expression with the same mathematical meaning, with symbols and undefined functions of the same names, and from_sympy gives back an Expr meaning the same as the given SymPy expression. Both handle every mix of integers, symbols, sums, products, powers, sin, cos, undefined functions and tuples, also when subexpressions repeat (undefined functions that share the name of a built-in operation excepted); other SymPy objects are refused with NotImplementedError.",
     "inputs", "all expressions within the stated size, all names and integer values",
     "Tests convert about a dozen fixed expressions.",
     ["simplecas/sympy_conversions.py"], [("eval_to_sympy rules", "simplecas/sympy_conversions.py"), ("_from_sympy_cache", "simplecas/sympy_conversions.py")], ["value of the converted expression"])
prop("C27", "SymPy matrix conversion preserves shape and every entry",
     "Matrix.to_sympy and Matrix.from_sympy give a matrix of the same shape whose entries mean the same, for every shape and zero pattern (all-zero matrices included).",
     "inputs", "all shapes and zero patterns within the stated size, arbitrary entries",
     "Tests convert one 2x2 matrix.",
     ["simplecas/sympy_conversions.py"], [("to_sympy_matrix / from_sympy_matrix", "simplecas/sympy_conversions.py")], ["entries and shape of converted matrices"])
prop("C28", "Operations have no side effects on expressions, arguments or later results",
     "No operation changes an existing expression, or the lists, dicts, sets and matrices passed to it, and no result shares mutable state with the library: modifying a returned list or array, or performing any other operations in between, never changes what a later operation returns. The same call on the same expression always gives the same result. (Registering a rule and naming a new function are meant to last.)",
     "histories inputs", "all sequences of operations up to the stated length over arbitrary expressions, with every returned container modified by the caller",
     "Each test performs one operation on fresh objects.",
     ["core/tree.py", "core/evaluate.py", "core/sym.py", "simplecas/expr.py", "simplecas/matrix.py"], [("immutable trees; results built afresh", "core/*.py, simplecas/*.py")], ["results of repeated operations; passed-in containers"])
prop("C29", "Results do not depend on hash or set iteration order",
     "Every result that a user can see (printed form, derivative, substitution, compiled code, counts, sort order, conversions) is the same whatever order sets iterate in, and so the same from run to run and for any hash seed.",
     "inputs schedules", "all iteration orders of every set the operations iterate, over all expressions within the stated size",
     "A test run sees one hash order.",
     ["core/tree.py", "core/differentiate.py", "core/evaluate.py", "simplecas/lambdification.py"], [("order comes from lists, sets are used for membership only", "core/tree.py")], ["all result values under permuted set orders"])
prop("C30", "Invalid input is refused with the documented error and leaves no trace",
     "Values that are not expressions, given where an expression is built or combined (arguments of functions, operators, trees and atoms, values to substitute, matrix entries, indices and operands, the expression to compile, keys and sides of rules), are refused with the documented exception (TypeError, ExpressifyError, NoEvaluationRuleError, BadRuleError, IndexError, LLVMNotImplementedError, NotImplementedError) rather than accepted or misread; so are expressions for which a rule, a value, a compiled form or a conversion is missing. After a refusal all valid operations give the same results as before.",
     "inputs histories", "all positions and kinds of invalid operands within the stated catalogue, with arbitrary valid operands around them",
     "Tests try one invalid operand per function.",
     ["core/tree.py", "core/sym.py", "simplecas/expr.py", "simplecas/matrix.py", "simplecas/lambdification.py"], [("isinstance guards", "core/tree.py, core/sym.py, simplecas/*.py")], ["exceptions raised; results of later valid operations"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as fh:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        fh.write(json.dumps(p) + "\n")
print(len(P))
