#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the text stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

prop("C01", "Any input ends in a result or a reported error, never a crash",
 "Whatever text is given to the interpreter, in whatever settings, every line ends with values printed or an error message: the process never panics, aborts or deadlocks, and a line whose computation is small ends promptly. After an error the session goes on accepting input normally. (Outside this: exhausting memory by asking for huge arrays, and the recorded stack finding of C17.)",
 ["inputs", "configurations", "histories"], "every input text (well-formed, malformed, truncated), every operator applied to every type and shape of operand including empty ones, every setting of base, origin, precision and format",
 "The tests run about 3,000 hand-written lines that are known to work or to fail in a known way; operand type x shape x setting combinations are unbounded.",
 ["run/run.go", "parse/parse.go", "scan/scan.go", "value/eval.go", "value/binary.go", "value/unary.go", "value/matrix.go"],
 [("recovery of value errors and floating-point errors at the line level", "run/run.go Run"), ("argument checks that raise value errors", "value/*.go Errorf calls"), ("scanner error tokens", "scan/scan.go errorf")],
 ["text session: output, error output, process state"])

prop("C02", "A line that fails leaves the rest of the session as it was",
 "When a line ends in an error, whatever it had not completed has no effect: variables (the last-value variable _ included), operators, settings and the meaning of every name are as they were, apart from assignments the line had already completed and random numbers it had already drawn; a line with a syntax error executes nothing. Every later line then behaves exactly as it would have if the failing statement had never been entered. A )get stops at its first error, keeping what the earlier lines of the file did.",
 ["histories", "inputs"], "every session history and every failing line (scan, parse, definition, run-time, at any call depth) inserted at any point of it",
 "Tests check the message of a failing line (exec_fail.ivy), not the state of the session afterwards; failures at every position of a history cannot be listed.",
 ["run/run.go", "exec/context.go", "exec/function.go", "parse/function.go", "parse/parse.go", "parse/special.go"],
 [("operator tables restored when a definition fails", "parse/function.go functionDefn"), ("call stack unwound when evaluation fails", "exec/function.go EvalUnary/EvalBinary"), ("tokens of a line read before it is parsed", "parse/parse.go readTokensToNewline")],
 ["later lines' output compared with a session that never saw the failing line"],
 state=[("Globals", "global variables", "exec/context.go"), ("UnaryFn, BinaryFn, Defs", "operator definitions", "exec/context.go"), ("stack, frameSizes", "call stack", "exec/context.go")])

prop("C03", "Integer, rational and complex-rational arithmetic is exact",
 "For all exact numbers of any size the arithmetic, comparison, bitwise, shift, logical, rounding and combinatorial operators return exactly the mathematical result, with no overflow, rounding or dependence on how large the operands are or on how they were computed; undefined cases (division by zero, integer-only operators on fractions, ordering of complex numbers) are errors. Results are in lowest terms and print exactly.",
 ["inputs"], "all pairs of exact operands of unbounded size (machine-word edges included) and all compositions of the operators",
 "Tests use a few hundred literal operands; the promotion logic between small integers, big integers, rationals and complex numbers has boundaries at many magnitudes and for every operator.",
 ["value/int.go", "value/bigint.go", "value/bigrat.go", "value/complex.go", "value/binary.go", "value/unary.go", "value/fac.go", "value/eval.go"],
 [("promotion to a common type", "value/binary.go whichType functions"), ("shrinking results to the smallest type", "value/*.go shrink"), ("overflow detection on small integers", "value/int.go maybeBig"), ("Euclidean quotient and remainder", "value/eval.go QuoRem")],
 ["values and printed text of expressions"])

prop("C04", "Scalar operators extend elementwise over vectors and matrices",
 "Every elementwise operator applied to arrays of equal shape, to a scalar or one-element array and any array, or to a vector and a matrix whose last dimension is the vector's length, gives the array whose elements are the operator applied to the corresponding elements, at every nesting level and size; operands whose shapes do not conform are an error, never a truncated or recycled result.",
 ["inputs"], "all elementwise operators, all shapes (empty, one-element, rank up to 4, hundreds of elements, nested) and all element types",
 "Tests show each operator on one or two small arrays; the broadcast rules differ by type pair and size (parallel paths start at a size the tests rarely reach).",
 ["value/eval.go", "value/vector.go", "value/matrix.go", "value/loop.go"],
 [("elementwise application and broadcasting", "value/eval.go unaryVectorOp, binaryVectorOp, unaryMatrixOp, binaryMatrixOp"), ("shape checks", "value/matrix.go sameShape, value/vector.go sameLength")],
 ["values of expressions"])

prop("C05", "Expressions group right to left and literals denote what they spell",
 "Any expression, however it is spaced, means the same as its fully parenthesized right-to-left grouping, where adjacent operands form one vector operand, indexing binds tighter than everything, and signs, slashes and letters belong to a number exactly when the documented rule says so (in input bases above 10 a word that begins with a digit letter reads as a number). Redundant parentheses, spaces, comments and semicolon or newline separation never change a result; text that is not a well-formed expression, malformed numbers included, is an error and none of its line is evaluated.",
 ["programs", "inputs"], "all expressions over operators (symbolic, word, reduction, product, each), operands (literals, strings, vectors, variables, indexed variables) and all spacings of them",
 "Tests parse fixed lines; the scanner decides from the neighbouring characters whether -, +, /, ., j, o and @ are part of a token, so combinations matter.",
 ["scan/scan.go", "parse/parse.go", "value/value.go", "value/expr.go"],
 [("right-recursive expression grammar", "parse/parse.go expr, operand, numberOrVector, index"), ("number and operator scanning by context", "scan/scan.go lexAny, acceptNumber, lexOperator")],
 ["values of expressions"])

prop("C06", "Evaluating an expression never changes a variable it does not assign",
 "Values are immutable: after any evaluation, successful or not, every variable that was not assigned holds the value it held before, whatever operators were applied to it, wherever copies of it are stored (other variables, elements of arrays, operator arguments, the predefined constants), and whichever copy is later changed by indexed assignment.",
 ["histories", "programs", "inputs"], "all histories of assignments, indexed assignments and operator applications over variables that share data, all value types and precisions",
 "Aliasing bugs need a particular operator applied to a value that is also held elsewhere; tests print the result of one expression at a time.",
 ["value/context.go", "value/assign.go", "value/index.go", "value/vector.go", "value/matrix.go", "value/persist/slice.go", "value/sin.go", "value/eval.go"],
 [("copy-on-write vectors", "value/persist/slice.go, value/vector.go edit/Publish"), ("pending edits flushed before a variable is read", "value/context.go Var.Value"), ("operators allocate their results", "value/unary.go unaryBigIntOp and relatives")],
 ["values of all variables before and after each line"],
 state=[("Var.edit", "a variable's pending indexed assignments", "value/context.go")])

prop("C07", "Indexing and indexed assignment touch exactly the selected elements",
 "For every array, index list (scalars, vectors, arrays, omitted axes, repeated indexes, several axes, nested selection) and origin, an index expression yields exactly the addressed elements in the shape of the indexes; an indexed assignment changes exactly those elements and nothing else; out-of-range or ill-shaped indexes are errors that change nothing.",
 ["inputs", "histories", "configurations"], "all arrays up to rank 4 with nested elements, all index lists, all origins, all sequences of indexed reads and writes",
 "Tests index small arrays mostly with origin 1; sequences of writes interleaved with reads exercise the deferred-edit path in ways single lines do not.",
 ["value/index.go", "value/assign.go", "value/context.go", "value/expr.go"],
 [("index evaluation and offset computation", "value/index.go"), ("assignment through an index", "value/assign.go, value/index.go")],
 ["values of expressions and of variables after assignments"])

prop("C08", "Structural operators rearrange exactly the elements their definition names",
 "Reshape, ravel, catenate, take, drop, rotate, reverse, transpose, select, expand, partition, split, mix, box, first, flatten, count, shape, index generation and where give exactly the array their documentation defines for every conforming operand: shape and each element, for every rank, nesting and fill type; non-conforming operands are errors.",
 ["inputs", "configurations"], "all arrays (rank 0-4, empty and long, numeric, char, mixed, nested), all left arguments (negative, zero, beyond the length), all origins",
 "Each operator has many cases by rank, sign, type and length; tests sample a few dozen each.",
 ["value/matrix.go", "value/vector.go", "value/binary.go", "value/unary.go", "value/eval.go"],
 [("structural operators on vectors", "value/vector.go"), ("structural operators on matrices", "value/matrix.go"), ("fill values", "value/eval.go fillValue")],
 ["values of expressions"])

prop("C09", "Reduce, scan, inner, outer and each equal their element-by-element expansion",
 "For every operator, built in or user defined, f/ and f\\ (and along the first axis), A f.g B, A o.f B, f@, @f and their combinations give exactly what applying the operator right to left, element by element, as written out in full would give, for every shape and length of exact values; the shortcuts taken for known operators are invisible, also when a user redefines such an operator.",
 ["inputs", "programs"], "all binary operators (associative or not, user-defined included), all array shapes including empty and one-element axes, both axes, lengths up to several hundred",
 "The evaluator uses different code for associative and other operators, for parallel and sequential sizes and by rank; tests use a few operators and short vectors.",
 ["value/eval.go", "exec/context.go"],
 [("Reduce, Scan, ReduceFirst, ScanFirst", "value/eval.go"), ("inner and outer product", "value/eval.go innerProduct, outerProduct"), ("each", "value/eval.go / exec/context.go")],
 ["values of expressions"])

prop("C10", "Sorting, searching and set operators agree with one total order",
 "There is one total order on all values, consistent with equality; up gives the stable permutation that sorts its operand and down one that sorts it descending; membership, index-of, unique, union, intersection and match give exactly what comparing elements pairwise would give, in order of first occurrence (union keeps its left operand as it is and appends the elements of the right that are not in it), for any mix of numbers, characters and nested arrays, any length and any origin.",
 ["inputs", "configurations"], "all vectors and matrices of mixed types with repetitions, short and hundreds of elements long, all origins",
 "Unstable sorting and binary search errors show only on long inputs with duplicates or mixed types.",
 ["value/sets.go", "value/vector.go", "value/matrix.go", "value/binary.go"],
 [("total order", "value/sets.go OrderedCompare"), ("grade", "value/vector.go grade, value/matrix.go grade"), ("sorted membership tests", "value/sets.go membership, unique, union, intersect; value/binary.go iota")],
 ["values of expressions"])

prop("C11", "Saved workspaces and shown definitions recreate what was saved",
 "Reading back a saved workspace in a fresh session recreates every variable with an equal value, every user-defined operator with equal behaviour and every saved setting (precision, limits on bits and digits, origin, prompt, format, bases), whatever bases and formats were in force when saving; saving again produces the same file. The text shown for a single variable or operator likewise recreates it when entered in base 10. (Outside this: the recorded findings on floating-point values and on redefined rho or box, operators that refer to deleted operators, and the constants e and pi.)",
 ["histories", "inputs", "configurations"], "all workspaces: variables of every type, shape and nesting, operators calling each other in any order (redefined, recursive, declared, used in reductions and products), all settings",
 "save.ivy saves one small workspace; the round trip must hold for every value and every definition order.",
 ["parse/save.go", "parse/special.go", "parse/function.go", "value/expr.go"],
 [("textual form of variables", "parse/save.go put"), ("definition order and declarations", "parse/save.go, exec/context.go Define/Defs"), ("program text of expressions", "value/expr.go ProgString")],
 ["file written by )save, output of )var X and )op X, state of a fresh session that reads them"])

prop("C12", "Results do not depend on parallel evaluation or scheduling",
 "Every expression gives the same value, the same printed text and the same error or success whether the evaluator runs it sequentially or splits it over any number of processors in any schedule, and evaluation is free of data races and deadlocks, for built-in and user-defined operators at every size.",
 ["schedules", "inputs", "configurations"], "all expressions at sizes on both sides of the parallelism threshold, all processor counts, all schedules the runtime produces",
 "The tests fix one threshold and look at results only; races and scheduling dependence show at particular sizes, operators and interleavings.",
 ["value/eval.go", "value/matrix.go", "value/binary.go", "config/config.go"],
 [("parallel loop and error hand-over", "value/eval.go pfor"), ("which operators may run in parallel", "value/eval.go safeBinary, safeUnary"), ("lock around the random source", "config/config.go LockRandom")],
 ["values and text with different processor counts; race detector reports"])

prop("C13", "Persistent slices behave as independent immutable sequences",
 "For every history of creating, editing, appending, resizing and publishing, each slice holds exactly the elements an ordinary copied array would hold, a published slice never changes afterwards whatever is done to editors or slices derived from it, and iteration and sub-ranges agree with element access at every length. Published slices can be read concurrently.",
 ["histories", "inputs"], "all operation histories over families of slices derived from each other, lengths across every tree-level boundary",
 "The tests drive random edits of a single slice; sharing bugs need several live versions and lengths at chunk and level boundaries.",
 ["value/persist/slice.go", "value/vector.go"],
 [("structure sharing with ownership marks", "value/persist/slice.go"), ("transient edit and publish", "value/persist/slice.go TransientSlice")],
 ["contents of every live slice after each operation"])

prop("C14", "Irrational functions are accurate to the set precision",
 "For every real or complex argument in its domain (of moderate size for exponentials and circular functions) and every precision setting, sqrt, power, exponential, logarithm, the trigonometric and hyperbolic functions and their inverses, phase, magnitude and the constants agree with the true value to within a few units in the last place of the set precision, relative to max(1,|result|), or to the result itself for real functions that are zero at zero, and allowing for the condition of the problem; complex inverse functions give a solution in the principal range; logarithms to an integer base of exact powers are exact; arguments outside the domain are errors.",
 ["inputs", "configurations"], "all arguments (tiny, huge, negative, exact and float, complex in every quadrant and on the axes) at precisions from 64 to 2000 bits",
 "Tests print 12 digits of a few dozen values at 256 bits; cancellation and bad range reduction show only at particular magnitudes.",
 ["value/sin.go", "value/asin.go", "value/sinh.go", "value/asinh.go", "value/log.go", "value/power.go", "value/sqrt.go", "value/const.go", "value/loop.go", "value/complex.go"],
 [("series with convergence control", "value/loop.go"), ("argument reduction", "value/sin.go, value/log.go, value/power.go"), ("constants at the current precision", "value/const.go")],
 ["values of expressions, compared with the same function at higher precision, with independent series, and through identities"])

prop("C15", "Numbers print and read back consistently in every base and format",
 "For every number and every input and output base, printed integers and rationals read back as the same number when the input base matches, and a literal in any base denotes the number its digits spell (numbers over 32 bits print in bases 0, 2, 8, 10 and 16 only, otherwise an error); with a format set by )format or given to text, printed numbers are what that format means for the exact value (to within one unit of the last place in e and g formats); by default floats print to 12 digits; columns of printed vectors and matrices are aligned and contain exactly the elements' texts in order.",
 ["inputs", "configurations"], "all numbers, all bases 0-16, all supported format verbs with flags, widths and precisions, all shapes",
 "Tests fix a few bases and formats; each verb has its own code per number type.",
 ["value/format.go", "value/int.go", "value/bigint.go", "value/bigrat.go", "value/bigfloat.go", "value/vector.go", "value/matrix.go", "value/value.go", "config/config.go"],
 [("formatted output per type", "value/format.go and Sprint methods"), ("number parsing in the input base", "value/value.go Parse, setIntString"), ("column layout", "value/vector.go, value/matrix.go Sprint")],
 ["printed output, values of literals"])

prop("C16", "User-defined operators scope, recurse, return and redefine as documented",
 "A call of a user-defined operator binds its arguments by value to fresh locals (destructuring nested argument lists), names assigned before they are read are local to the invocation and others are global, the first true condition or the last expression gives the result, and recursion, mutual recursion, redefinition, declaration and deletion take effect exactly as documented, wherever the operator is used. Built-in operators never pick up a user's redefinition internally, and calling an operator has no effect on the caller's variables other than through globals it assigns.",
 ["programs", "histories", "inputs"], "all operator definitions over locals, globals, conditionals and calls, all call histories including redefinition between calls",
 "Tests define a few dozen fixed operators; scoping depends on the order of reads and writes in the body and on the call history.",
 ["exec/function.go", "exec/context.go", "parse/function.go", "value/expr.go"],
 [("local and global resolution", "parse/function.go funcVars"), ("frames", "exec/context.go push, pop, Local"), ("conditional return", "exec/function.go, value/expr.go CondExpr")],
 ["values of calls and of globals afterwards, compared with a reference evaluator"])

prop("C17", "Resource limits stop runaway computation with an error",
 "An integer result of clearly more than the maximum number of bits (a limit of at least 64), for every operator and type path that computes one from integers or floats, and a call nesting deeper than the maximum stack, end in an error promptly instead of consuming memory or crashing, and results within the limits are unaffected by them; integers with more decimal digits than the digit limit print in floating-point form and others print exactly.",
 ["inputs", "configurations"], "all limits, all operators that grow integers, operand sizes on both sides of the limit, all recursive operators",
 "Tests check one or two overflows; each growing operator has its own check or lacks it.",
 ["value/bigint.go", "value/binary.go", "value/fac.go", "exec/function.go", "config/config.go"],
 [("size check before growing operations", "value/bigint.go mustFit"), ("call depth check", "exec/function.go"), ("digit limit when printing", "value/bigint.go Sprint")],
 ["error or value of expressions under generated limits"])

prop("C18", "Random operators are in range, distinct where promised, repeatable by seed",
 "For every positive bound, origin and seed, roll gives an integer among the first B integers in the origin's numbering (for bounds of 2**31 and more, see the recorded finding, among 0 to B), rand a float in [0,B), and A?B gives A distinct such integers, every outcome being possible; the same seed followed by the same lines gives the same values in every run, on arrays of any size.",
 ["inputs", "configurations", "histories", "schedules"], "all bounds (small, word-sized, huge), origins and seeds, scalars and arrays",
 "Tests avoid random output except for one seed; range and repeatability are statements about all seeds and sizes.",
 ["value/unary.go", "value/binary.go", "config/config.go", "value/eval.go"],
 [("roll, rand", "value/unary.go"), ("deal", "value/binary.go ?"), ("seeding", "config/config.go SetRandomSeed")],
 ["values of expressions"])

prop("C19", "Encode and decode are inverse to each other, for numbers and for times",
 "For all real radix vectors and values, encoding gives digits in range that decode back to the value modulo the product of the radices, decoding is polynomial evaluation (mixed radix included), both extend over arrays column by column, and a time (to the nanosecond, within several thousand years of now) encoded to its calendar vector in any time zone is the calendar time Go's library gives and decodes back to the same instant.",
 ["inputs", "configurations"], "all integer and rational radices and values, all shapes, all instants within the calendar's range, all time zones available",
 "Tests encode a dozen numbers and one or two dates.",
 ["value/binary.go", "value/eval.go", "value/sys.go"],
 [("encode and decode", "value/binary.go"), ("quotient and remainder", "value/eval.go QuoRem"), ("time conversion", "value/sys.go encodeTime, decodeTime")],
 ["values of expressions"])

prop("C20", "Characters, strings and code points convert without loss",
 "Every string literal in every quoting style denotes exactly the code points it spells; code and char are inverse on valid code points and reject others; printing, text and execution of program text carry every character through unchanged; malformed literals are errors.",
 ["inputs"], "all Unicode strings, all escape forms and quoting styles, all integers as code points",
 "Tests use a few short ASCII strings and escapes.",
 ["value/char.go", "scan/scan.go", "parse/parse.go", "value/unary.go", "value/sys.go"],
 [("string literal decoding", "value/char.go ParseString, unquote"), ("char validation", "value/char.go validate"), ("ivy and text operators", "value/unary.go text, ivy")],
 ["values of literals, printed output"])

prop("C21", "Every way of running ivy gives the same answers",
 "The same program gives the same output (apart from the blank lines and prompts of interactive input and the spacing between values of one line), the same errors up to where that way stops, the same exit status and the same final state whether it is run by the command on one or several files, by -e, -i or -f, on standard input, through )get, or through the embedding and mobile interfaces, whole or line by line; command-line settings act like the corresponding commands; independent sessions of equal precision do not affect each other, and a mobile reset gives a fresh session.",
 ["programs", "configurations", "histories"], "all programs and all splits of them over calls, all flag settings, all interleavings of independent sessions",
 "ivy_test runs the in-process interface; the command, )get and mobile paths are covered by single examples.",
 ["ivy.go", "run/run.go", "mobile/mobile.go", "parse/special.go", "exec/context.go"],
 [("main program flags and file handling", "ivy.go"), ("shared run loop", "run/run.go"), ("mobile wrapper", "mobile/mobile.go"), (")get", "parse/special.go")],
 ["standard output, error output and exit status of the command; return values of the embedding calls"])

prop("C22", "Matrix inverse and division are exact",
 "For every invertible square matrix of exact numbers, real or complex, the inverse multiplied by the matrix on either side is exactly the identity, and division solves the linear system exactly; singular and non-square matrices are errors. Vector inverse and projection satisfy their documented formulas exactly.",
 ["inputs"], "all square exact matrices up to moderate size, including ones with zeros on the diagonal, permutations, singular and nearly singular ones, all vectors",
 "Tests invert a handful of small matrices.",
 ["value/matrix.go", "value/vector.go", "value/binary.go"],
 [("elimination", "value/matrix.go inverse"), ("vector inverse", "value/vector.go inverse"), ("mdiv", "value/binary.go mdiv")],
 ["values of expressions"])

prop("C23", "Settings commands set what they report and nothing else",
 "Each special command with a legal argument changes exactly its setting, which the command without argument then reports and sys and later evaluation reflect; an illegal argument, or too many, is an error that changes nothing; commands read and print numbers in base 10 whatever bases are in force, and go to the session's own output. (Any special command gives e and pi their constant values again.)",
 ["histories", "configurations", "inputs"], "all sequences of special commands with legal and illegal arguments, in every state of the other settings",
 "Tests issue a few commands each; interactions of settings and error cases are unbounded.",
 ["parse/special.go", "config/config.go", "value/sys.go"],
 [("command parsing in base 10", "parse/special.go special"), ("settings", "config/config.go")],
 ["output of commands, sys values, behaviour of evaluation"])

prop("C24", "Floating-point arithmetic rounds once and compares exactly",
 "At every precision, for finite floats of any size and floats meeting integers, rationals and complex numbers (an exact operand is first rounded to the set precision): + - * and / give the exact mathematical result rounded once, to nearest, to the set precision (each part, for sums of complex numbers; within a few units in the last place of the result's size for complex products and quotients); comparisons, min, max, logical operators, sgn, abs, negation, floor and ceil give exactly the mathematical answer; mod lies between 0 and the modulus and is congruent to within rounding; a float result that is a small integer is that integer.",
 ["inputs", "configurations"], "all precisions, all pairs of floats, or of a float and an exact number, of any magnitude, including nearly equal and opposite ones, and values made at another precision",
 "Tests use a few literals at the default precision, printed to 12 digits, which hides rounding and wrong branches.",
 ["value/binary.go", "value/unary.go", "value/bigfloat.go", "value/complex.go", "value/eval.go"],
 [("float cases of the elementwise operators", "value/binary.go, value/unary.go"), ("promotion to float", "value/int.go, bigint.go, bigrat.go toType"), ("shrinking", "value/bigfloat.go shrink")],
 ["values of expressions"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
