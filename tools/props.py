#!/usr/bin/env python3
"""Source of properties.jsonl (kept here so that long lines stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

p("P01", "Integer and rational arithmetic is exact at every magnitude",
  "For all integers and rationals, + - * / ** (integer exponent), unary - + / abs sgn floor ceil, max, min, the six comparisons, the bitwise, shift and logical operators, ! (factorial and combinations) give the mathematically exact result, whatever the internal representation of the operands and the result. The result of an exact operation is as usable as the same number typed as a literal (it prints, compares, indexes and combines identically). a!0 is 1. Operations that are mathematically undefined (division by zero, bit operations on fractions, negative shift counts) report an error.",
  ["inputs"], "every operator and every pair of operands from a domain that straddles each representation boundary (32-bit, 63/64-bit, word multiples), zero, signs, and rationals with shared and coprime denominators",
  "the golden files sample a few hundred operand pairs; overflow detection, sign and shrink paths are per pair of representation and magnitude",
  ["value/binary.go","value/unary.go","value/int.go","value/bigint.go","value/bigrat.go","value/power.go","value/fac.go"],
  [("representation promotion and shrinking","value/int.go maybeBig, value/bigint.go shrink, value/bigrat.go shrink"),("type dispatch","value/eval.go")])
p("P02", "div/mod are Euclidean, idiv/imod truncate, and quotient*y+remainder == x",
  "For all integers x and nonzero y of any size (and vectors of them) q = x div y is an integer and r = x mod y satisfies x == r + q*y with 0 <= r < abs y; idiv and imod satisfy the same identity with truncation toward zero and the remainder taking the sign of x. mod also accepts rationals (the r above with q an integer) and x mod 0 is x; div, idiv and imod reject rationals and a zero divisor with an error. encode and decode, which are built on them, remain mutual inverses for mixed radices.",
  ["inputs"], "all four operators, every sign combination, all operand pairs of the boundary domain",
  "quorem_test.go samples; sign correction is per sign/type combination",
  ["value/binary.go","value/eval.go","value/bigint.go"],
  [("QuoRem","value/eval.go QuoRem"),("Euclidean correction","value/binary.go div, mod")])
p("P03", "Evaluating an expression never changes any value it did not assign",
  "Values are immutable: evaluating any expression leaves every variable, every alias or element taken from a variable, and every constant inside a user-defined operator exactly as it was, except for the variables and elements explicitly assigned by the program. Assignment copies: after y = x, or taking y from part of x or building x from y, an indexed assignment to one is never visible through the other.",
  ["programs","histories"], "all operators and index forms on all operand pairs of an alphabet covering every type and shape, and all short histories of assignment, aliasing, sharing and indexed assignment",
  "tests compare the printed result of one expression; they do not look at the operands again, and sharing (copy-on-write, spare capacity of slices) is only visible along a multi-step history",
  ["value/assign.go","value/index.go","value/vector.go","value/matrix.go","value/eval.go","value/context.go","value/persist/slice.go"],
  [("copy-on-write editors","value/context.go Var.editor/Value"),("shared big.* operands","value/eval.go"),("shared shapes","value/matrix.go")])
p("P04", "Persistent slices: old versions never change, new versions read back exactly",
  "For every history of Append, Set, Resize (shrink, or grow followed by writing the new elements), Persist and Transient, each slice and transient reads back (Len, At, All, Slice) exactly like an ordinary Go slice subjected to the same operations, and a slice obtained from Persist (or the slice a Transient was derived from) is never changed by any later operation on any transient. Out-of-range accesses panic.",
  ["histories"], "all operation sequences up to a depth with sizes straddling chunk (16), 16^2 and 16^3 boundaries, with branching (several transients derived from the same slice)",
  "slice_test.go runs one random walk; aliasing bugs need a specific Persist/fork/Resize order at a chunk boundary",
  ["value/persist/slice.go"], [("ownership ids and copy-on-write","value/persist/slice.go wleaf, wnode, writeTail, Persist")])
p("P05", "Concurrent Set/At/Len on distinct indexes of a transient slice is safe",
  "When several goroutines concurrently Set distinct indexes of one TransientSlice, and call Len or At on indexes nobody is writing, then under every interleaving no write is lost, every At sees the value it must, and slices persisted before or sharing structure with it are unaffected. There are no data races in this usage.",
  ["schedules"], "all interleavings of 2-3 goroutines at synchronization operations up to a preemption bound, over tail/leaf/inode sharing configurations",
  "the outcome depends on the interleaving of compare-and-swap and copy; a test samples a few schedules",
  ["value/persist/slice.go","value/eval.go"], [("CAS of leaves and nodes","value/persist/slice.go wleaf, wnode, id"),("tail copy","value/persist/slice.go writeTail")])
p("P06", "Results and errors do not depend on how evaluation is parallelised",
  "Element-wise operations, products, scans, transposes, each and searches over arrays give the same value, or fail with the same error (that of the first failing element in order), regardless of how the interpreter splits the work among goroutines and how those are scheduled, and regardless of the number of processors. The elements are evaluated exactly once each, in isolation: user-defined operators and the random generator behave as in a sequential left-to-right or right-to-left evaluation. (When an indexed assignment names an element twice, the last value wins.)",
  ["schedules","configurations"], "all partitions of the work (processor counts) and all interleavings up to a preemption bound of small parallel evaluations, for every parallelised construct, including ones where some elements fail",
  "tests run one machine configuration and whatever schedule happens",
  ["value/eval.go","value/matrix.go","value/vector.go","value/index.go"], [("pfor","value/eval.go pfor"),("lazily grown tables","value/index.go newIota, value/vector.go blanks")])
p("P07", "One precedence level, right-to-left grouping, vectors bind as one operand",
  "Every expression groups strictly right to left: a unary operator applies to everything on its right, a binary operator to the single operand immediately on its left and everything on its right, adjacent constants, variables, strings and parenthesized items form one vector operand, and an index binds to the identifier immediately before it, or, after a constant or a parenthesized item, to the whole vector operand ending there. 1/3 and 1j2 without spaces are single numbers, with spaces they are operations; adding redundant parentheses around any right argument does not change the value. In every input base, a word that consists of digits of that base (with at most one j between them) and is not an operator is a number, every other word is a name or operator, and neither depends on a sign, slash or operator written against it. Text that does not match the grammar is rejected with an error, never silently reinterpreted or truncated.",
  ["programs","inputs"], "all token sequences up to a length over an alphabet with one token of every lexical class",
  "golden tests pin hand-picked expressions; the grammar has to agree on every token sequence",
  ["parse/parse.go","scan/scan.go","value/expr.go"], [("recursive descent","parse/parse.go expr, operand, numberOrVector, index"),("number tokens","scan/scan.go")])
p("P08", "The printed definition of an operator is that operator",
  "For every user-defined operator, the text shown by )op (and written by )save), fed back to ivy with decimal input (whatever the base settings in force when it was printed, and with the operators it refers to defined), defines an operator with the same name, arity and argument pattern that behaves identically on all arguments, and printing that one gives the same text again.",
  ["programs"], "all operator bodies built from a grammar with every expression node type, nested to a depth, single- and multi-line, all argument patterns",
  "tests show a few listings; faithfulness of printing is per nesting of node types",
  ["exec/function.go","value/expr.go","parse/parse.go","parse/function.go"], [("ProgString","value/expr.go, parse/parse.go"),("listing","exec/function.go Function.String")])
p("P09", ")save then )get restores the session",
  "For every session state (variables of every type, shape and nesting, operators in any order of definition and mutual dependency, and the numeric settings base, origin, prompt, format, maxbits, maxdigits, prec), )save followed by )get of that file in a fresh session reports no error and restores every variable to a value with the same contents, shape and display (floating-point values are saved as decimal text and come back as numbers equal to them within the precision), every operator to the same text and behaviour, and the same settings. )save leaves the saving session unchanged, and saving the restored session writes the same file. )var lists exactly the global variables, and )var name shows a statement that, executed with decimal input, gives the variable that value again. (Operators named rho or box, which the file itself uses, are not covered; the random seed, maxstack and time zone are not saved; e and pi are constants, which every special command sets again.)",
  ["histories","configurations","programs"], "all variable values of an alphabet covering every type and shape, all operator dependency orders, all settings, in combination",
  "save is tested on one small example; each value type, base and definition order has its own writing code",
  ["parse/save.go","parse/special.go"], [("writer","parse/save.go save, put"),("reader","parse/special.go runFromFile")])
p("P10", "Any input line yields a value or an error message and the session goes on",
  "For every sequence of input lines (short of those whose results exhaust memory), each line terminates with results or with an error report; it never crashes the interpreter, and after an error evaluation of subsequent lines behaves exactly as if the failed expression's remaining effects had not happened: variables, operators, settings, the call stack and )get nesting keep the values they had when the error occurred. A failed line never changes the value of a variable it had not yet assigned.",
  ["inputs","programs","fault_sequences"], "every operator applied to every pair of an alphabet of odd values (empty, zero-dimension, nested, char, complex, huge), all short token sequences, and errors raised at every point of nested calls",
  "tests pin particular error messages; crashes hide in type/shape combinations nobody wrote down",
  ["run/run.go","value/error handling in value/*.go","exec/context.go","exec/function.go","parse/special.go"], [("recover","run/run.go Run"),("frame pop on error","exec/function.go EvalUnary/EvalBinary")])
p("P11", "Defining or deleting an operator is all-or-nothing",
  "A definition either succeeds and takes effect for all later calls (including through operators that already call it), or fails with an error and leaves the previous definition of that name, all other operators, the list of operators and all variables unchanged. opdelete removes exactly the named arity, after which the built-in of that name, if any, is visible again; a name is never both a nonzero variable and an operator.",
  ["histories"], "all sequences of define, redefine, failing define, declare, delete, assign and call up to a depth over colliding names of both arities",
  "needs a failed definition at a particular point in a history followed by a use of unrelated state",
  ["parse/function.go","exec/context.go"], [("install and rollback","parse/function.go functionDefn"),("Define/Undefine","exec/context.go")])
p("P12", "Operator calls: fresh locals, defined global rule, recursion, early return",
  "In an operator body a name assigned before it is read, in evaluation order (right to left within a statement, also within a vector), is local to that invocation and a name read first is global; the targets of a simultaneous assignment are assigned from right to left; locals start undefined in every invocation, are never visible to callers, callees or later calls, and recursion to any permitted depth keeps one set per invocation. Formal argument patterns destructure their argument exactly (same length required), arguments are evaluated right operand first, and ':' returns from the operator if and only if its left side is nonzero, evaluating nothing after it. A user-defined operator named like a built-in replaces it where that name is written and changes the result of no other built-in operator.",
  ["programs","histories"], "all operator bodies up to a few statements over assignment/read/conditional/call statements, all argument patterns, all call sequences",
  "which names are local depends on the whole body; frame reuse depends on the call history",
  ["parse/function.go","exec/context.go","exec/function.go","value/expr.go","value/assign.go"], [("local analysis","parse/function.go funcVars"),("frames","exec/context.go push, pop, Local")])
p("P13", "Numbers printed in any output base read back as the same number",
  "For every integer and rational and every pairing of output base (0 and 2..16) with the matching input base, the printed form, read back under that input base, denotes the same number (integers too large for a machine word print only in bases 0, 2, 8, 10 and 16 and are an error otherwise). Constants are read with exactly the value their digits denote in the input base: integers and rationals in every base, decimals and exponents in bases 0 and 10, complex tokens made of those. Floating-point values print, by default and under %.Nf, %.Ne and %.Ng formats, a decimal form correctly rounded to the digits requested (for binary exponents up to 10000 in magnitude).",
  ["inputs","configurations"], "all boundary numbers x all bases x all literal spellings up to a length",
  "tests sample base 16 and a few values",
  ["value/value.go","value/bigint.go","value/bigrat.go","value/int.go","value/format.go","scan/scan.go","config/config.go"], [("Sprint per type","value/*.go"),("Parse","value/value.go Parse"),("digit scanning","scan/scan.go")])
p("P14", "Structural operators move elements exactly as defined, for every shape",
  "rho, ravel, count, rot, flip, transp (both arities), take, drop, catenate on either axis, sel, fill, part, split, mix, box, first, flatten and iota rearrange, select or pad elements exactly as their definitions say for every shape (including empty, unit and high-rank ones) and every operand allowed, giving a result of the defined shape and otherwise an error. Their inverse laws hold (rot rot x is x, flip flip x is x, transp transp x is x, mix split x is x, x[iota] identities, (n take x),(n drop x) is x). (n rot of a one-element vector may be that element; the padding of nested arrays by fill is not specified.)",
  ["inputs"], "all arrays up to a rank and extent bound with distinct elements, all left operands in small ranges",
  "shape arithmetic bugs appear at specific extents and ranks that examples miss",
  ["value/matrix.go","value/vector.go","value/binary.go","value/unary.go"], [("per-operator index arithmetic","value/matrix.go"),("vector forms","value/vector.go, value/binary.go")])
p("P15", "Search, set and ordering operators agree with one total order and equality",
  "in, iota (index of), unique, union, intersect, where, up, down, === and !== give exactly the results defined by element equality and by one total order on values, for every mix of representations of equal numbers, characters and nested values, independent of operand size (so of the internal search strategy). up is a stable sorting permutation of the elements of a vector or the rows of a matrix, down is up reversed; an item not found has index origin-1; the set operators reject matrices.",
  ["inputs"], "all vectors up to a length over an alphabet with mixed types and equal values, including sizes beyond every internal algorithm switch",
  "order_test.go samples the order; binary-search vs linear paths and mixed types are not enumerated",
  ["value/sets.go","value/eval.go","value/vector.go","value/matrix.go","value/binary.go"], [("order","value/sets.go OrderedCompare"),("membership","value/vector.go, value/eval.go")])
p("P16", "Reduce, scan, products and each equal their defining expansions",
  "f/ f/% f\\ f\\% A f.g B, A o.f B, f@ and @f give exactly the value of the expression obtained by writing out the applications of f (and g) element by element in right-associative order, for every operator f (built-in or user-defined, associative or not), every shape and every nonempty axis length.",
  ["inputs","programs"], "all built-in scalar operators and several user-defined ones, over all small shapes and lengths including empty and one",
  "shortcuts for associative operators and parallel paths depend on operator, length and shape",
  ["value/eval.go","exec/context.go"], [("Reduce/Scan/Product/Each","value/eval.go")])
p("P17", "Indexing and indexed assignment address exactly the named elements",
  "For every array, every combination of index expressions (scalars, vectors, matrices, empty slots, fewer indexes than dimensions) and every origin, indexing yields the elements and shape defined by the outer product of the index lists, and indexed assignment changes exactly those elements, to the scalar or conforming value given, and nothing else. An index outside the array, of the wrong type or count, is an error and changes nothing.",
  ["inputs","configurations"], "all index tuples over all small shapes, both directions (read and write), origins 0..2",
  "offset and shape computation is per rank and per mixture of index forms",
  ["value/index.go","value/assign.go"], [("index evaluation","value/index.go")])
p("P18", "maxbits, maxdigits and maxstack bound exactly what they say",
  "With )maxbits n (n at least 64) no operation on integers, and no floor or ceil of a float, ever produces an integer of more than n bits: it reports an error instead (bitwise operations on negative integers may reach -2**n). A result is refused only if the sizes of the operands allow a result longer than n bits (one bit more than the longer operand for + and -, the sum of the lengths for *, length times exponent for **, length plus count for <<, the result itself for ! and floor); 0 means no limit. Nesting of user-defined operator calls is cut off with an error at exactly maxstack, after which the session continues normally and the full depth is available again; )maxdigits switches the display of integers too long for a machine word to floating form exactly beyond that many decimal digits and never changes values.",
  ["inputs","configurations","histories"], "all limits around the result size for every operator that can produce big integers; all depths around maxstack, repeatedly",
  "limit checks are per operator and off by one at a specific size",
  ["value/bigint.go","value/binary.go","value/power.go","value/unary.go","exec/function.go"], [("mustFit","value/bigint.go"),("MaxStack","exec/function.go"),("maxdigits","value/bigint.go Sprint")])
p("P19", "? and rand: in range, distinct where promised, reproducible from the seed",
  "?n yields an integer among the first n integers counting from the origin and reaches each of them, A?B yields A distinct such integers in every arrangement, rand x yields a number from 0 up to but not x with the configured precision, for every operand size, origin and precision and elementwise for arrays (? and rand), and illegal operands are errors. After )seed s the same program produces the same sequence, in any session and after any history, different seeds give different sequences, and nothing but a random operator that yields a value advances the generator.",
  ["inputs","configurations","histories"], "all small ranges and counts, boundary sizes, all origins, many seeds, and interleavings with other operations",
  "random results cannot be pinned except per seed; range errors appear at edges",
  ["value/unary.go","value/binary.go","config/config.go"], [("roll, deal","value/unary.go, value/binary.go"),("generator","config/config.go")])
p("P20", "Layout and delivery of the input text do not change its meaning",
  "Line endings (\\n or \\r\\n), the number of blanks and tabs between tokens (none where the tokens need none; a sign belongs to the number after it unless it directly follows an operand), indentation, comments, blank and comment lines between statements, trailing blank lines, a missing final newline, and the sizes of the reads through which the text arrives do not change what is printed, the values computed, the operators defined or the errors reported; nor do token, line and file lengths. Splitting a line at semicolons into separate lines yields the same values in the same order. Every statement is executed exactly once, in order; an error names the line of its statement and the statements after that line are still executed, except where an error ends the run (-e, -i, -f and file arguments exit with status 1). The same text gives the same results as a script, interactively, through )get, through the ivy operator, and to the ivy command by -e, -i, -f, file arguments and standard input.",
  ["programs","configurations","fault_sequences"], "all layout variants of a set of programs covering each construct, and every way the reader can chunk the text",
  "tests always deliver well-formed text in one way",
  ["scan/scan.go","parse/parse.go","run/run.go"], [("line reading","scan/scan.go loadLine"),("statement lists","parse/parse.go")])
p("P21", "Embedded (mobile) evaluation matches the interpreter and Reset forgets all",
  "Eval of a text through the embedding API returns exactly what the interpreter would print for it (escaped for HTML), with errors returned separately, keeps state between calls, and after an error remains usable; after Reset the behaviour of every later Eval is that of a newly started program, whatever was done before. A Demo starts from the reset state and steps through the whole script, returning each line's result and error once, then io.EOF, whatever the line endings and lengths. The interactive demo sends each script line for a blank line of input and the user's line otherwise, until quit, the end of the script or of the input, or a write error.",
  ["histories"], "all sequences of state-changing Evals of a small alphabet, then Reset, then probing every piece of state",
  "mobile tests run a few evaluations; leftover state depends on the history",
  ["mobile/mobile.go","run/run.go"], [("Eval, Reset, Demo","mobile/mobile.go")])
p("P22", "encode/decode, char/code and text conversions are faithful inverses",
  "For all radix vectors and values, A encode x yields the Euclidean digits of x, each within its radix (a zero radix takes all that is left), with the defined shape for array operands; decode is polynomial evaluation with the elements of A aligned with those of B, and B decode B encode x is x for x in range. char code c is c and code char n is n for all Unicode code points, other operands being errors. text x has exactly the characters ivy would print for x, for every value and output setting; ivy text x yields x for exact numbers. A text x with decimals, width and decimals, width decimals and style (e f g), or a one-verb format follows the requested width, precision, flags and style, for scalars, element by element for vectors and matrices, and for strings; an illegal format is an error.",
  ["inputs"], "all radix vectors and values in small ranges and at representation boundaries; all code points",
  "tests sample; padding, sign and radix-zero cases are per combination",
  ["value/binary.go","value/unary.go","value/format.go","value/vector.go"], [("encode/decode","value/binary.go"),("text","value/format.go")])
p("P23", "Irrational functions are accurate to the configured precision",
  "sqrt, log (with and without a base), unary **, ** with a fractional exponent, sin, cos, tan, asin, acos, atan, sinh, cosh, tanh, asinh, acosh and atanh return, at every precision setting, a value whose error is at most a few thousand units in the last place of 1 + |f(x)| + min(|x|,1000) |f'(x)| (so all but about the last dozen bits of the precision are right), over the whole domain: arguments near zero, near singularities, at range-reduction and algorithm boundaries, negative, and of large magnitude. Complex arguments and real arguments outside the real domain give the principal value (acosh z is log (z + sqrt (z*z)-1); on the cuts of atan and atanh either side will do). The logarithm of a power of an integer to that base, and the square root of a perfect square that fits the precision, are exact (integers, for roots of up to 100 bits), and pi and e are correctly rounded. log 0 and atanh at 1 and -1 are errors; a trigonometric argument too large for the stored digits of pi, and an exponential or hyperbolic argument beyond 100 whose series does not converge, may be reported as errors but never give a wrong value.",
  ["inputs","configurations"], "an exhaustive grid of real and complex arguments straddling every algorithm switch, at several precisions, against an independent multiprecision implementation evaluated with 1600 extra bits",
  "tests pin a few values at one precision",
  ["value/sin.go","value/asin.go","value/sinh.go","value/asinh.go","value/log.go","value/sqrt.go","value/power.go","value/loop.go"], [("series loops and range reduction","value/loop.go, value/*.go")])
p("P24", "Scalar operators extend to arrays element by element",
  "Every scalar unary or binary operator applied to vectors, matrices and nested arrays gives the array of the results on corresponding elements: a scalar (or an array all of whose extents are one) combines with every element of the other side, a vector combines with a matrix along its last axis, equal shapes combine pairwise, and operands whose shapes do not conform are an error. The element results are exactly those of the scalar operation on those elements, including mixed element types.",
  ["inputs"], "all scalar operators x all pairs of shapes up to a bound x mixed element types",
  "conformance rules are implemented per operator and per type pair",
  ["value/eval.go","value/binary.go","value/unary.go","value/vector.go","value/matrix.go"], [("elementwise dispatch","value/eval.go binaryVectorOp, binaryMatrixOp, unaryVectorOp")])
p("P25", "Complex arithmetic with exact parts is exact and collapses to real",
  "For complex numbers with integer or rational parts, + - * / == != === in, the logical operators (zero is false), ** with integer exponents, unary + - / inv conj real imag j not, and floor and ceil (McDonnell's complex floor: of the corners of the unit square holding the number, the lower left one if the fractional parts add to less than one, else the right one if the real fraction is at least the imaginary one, else the upper one; ceil z is -floor -z) give exactly the mathematical result, and division by zero is an error; a computed result with zero imaginary part is the real number it is. Operations that need an order (< <= > >= max min) or integers (! div mod & and the like) reject operands with an imaginary part.",
  ["inputs"], "all pairs over a grid of complex numbers with small and boundary parts",
  "a handful of complex examples exist in tests",
  ["value/complex.go","value/binary.go","value/unary.go"], [("complex ops","value/complex.go")])
p("P26", "What is printed and stored in _ follows the statement rules",
  "Each non-assignment statement's value is printed once, in order, the values of one line separated by one blank, assignments and print calls print nothing extra, and _ holds the last printed-expression value and is unchanged by assignments, failed lines and special commands. Assignment is an expression whose value is the assigned value.",
  ["programs"], "all lines of up to three statements over a statement alphabet, in all sequences of two lines",
  "combinations of quiet and printed statements on one line are sampled only",
  ["run/run.go","value/assign.go","value/unary.go"], [("printValues","run/run.go"),("QuietValue","value/assign.go")])
p("P27", "Executing text with ivy or )get equals typing it",
  "Running a program through the ivy operator, through )get of a file, or nested combinations of these has the same effects on variables, operators and settings as typing it at the top level, yields or prints the same values, and reports its errors; afterwards the outer program continues at its own position. ()get starts its file in base 0 and the session's bases return afterwards except where the file set a nonzero base; it prints every value on its own line, sets _ when a line has succeeded, and stops at the first error. ivy returns the last value of the last line, printing the others in order, and its error abandons the line using it.) )get nests at least five deep and is usable again after any number of failures.",
  ["programs","histories","fault_sequences"], "all small programs (including failing ones) executed through each route and nesting depth",
  "tests run files through one route",
  ["run/run.go","parse/special.go","value/unary.go"], [("IvyEval","run/run.go"),("runFromFile","parse/special.go")])
p("P28", "Settings commands set exactly one setting and report it faithfully",
  "Each special command with a valid argument changes exactly its own setting, with the documented effect on later evaluation, and with no argument reports the current value in base 10 whatever the bases are; with an invalid argument (out of range, not a number, not a string) it reports an error and changes nothing. Setting the value just reported is a no-op. (The constants pi and e are recomputed by any command; what happens to junk after a valid argument is not specified.)",
  ["configurations","histories"], "all commands x valid, boundary and invalid arguments, in all sequences of two from any prior settings, under all bases",
  "each command's parsing and effect is separate code, tested for a few values",
  ["parse/special.go","config/config.go"], [("special","parse/special.go"),("Config setters","config/config.go")])
p("P29", "Arrays print in full with aligned columns",
  "Printing a vector or matrix shows every element exactly once in row-major order, for every shape, element width mix, nesting, output base and format: an array of characters is packed and other elements are separated by blanks; each column of a matrix is right-aligned to its widest element, counting characters (to the widest element of the matrix when all are narrower than five); planes are separated by blank lines, and the blocks of an array of rank above three are labelled with their indexes; a nested value is parenthesized, with bars continuing a parenthesis over several lines, so that structure is unambiguous. Empty arrays print no elements. (Extra blank lines may separate the rows of a matrix holding matrices.)",
  ["inputs","configurations"], "all small shapes x element width mixes x nested combinations x formats",
  "tests pin examples; alignment depends on the mix of widths and shapes",
  ["value/vector.go","value/matrix.go","value/format.go"], [("Sprint","value/vector.go, value/matrix.go")])
p("P30", "inv and mdiv solve linear systems exactly",
  "For every invertible square matrix A of exact real or complex numbers, inv A is exactly its inverse (A +.* inv A is the identity) whatever the positions of its zeros, and B mdiv A is the exact x with A +.* x equal to B, for vector and matrix B; inv of a vector is (conj v)/v+.*conj v and u mdiv v of real vectors is the projection coefficient (u+.*v)/v+.*v. Singular, zero, non-square, non-conforming, nested, character or higher-rank operands are errors. The operands are left unchanged.",
  ["inputs"], "all 1x1, 2x2 and 3x3 matrices over small integer/rational/complex alphabets (forcing every pivoting pattern)",
  "pivoting patterns depend on zero positions; tests show one or two matrices",
  ["value/matrix.go","value/binary.go","value/unary.go"], [("Gauss-Jordan","value/matrix.go inverse")])
p("P31", "Time encoding and decoding are inverse and calendar-correct",
  "For every seconds value within some 290 million years of 1970 and every time zone setting (and whatever the system's own zone), 'T' encode yields the correct civil date and time in the configured zone at that instant with its offset, 'T' decode of that vector gives back the same seconds, and 'T' text prints the same instant; fractions of a second are preserved to the nanosecond, also for negative and distant times. decode honors the offset given as seventh element, whatever the zone; without it, it takes the local time of the configured zone by its rules at that date; missing elements are the earliest, and elements out of range carry over. Times out of range, malformed vectors and unknown zones are errors. The operands are unchanged.",
  ["inputs","configurations"], "seconds values at all calendar edges (leap years, month ends, negative, DST changes) x time zones",
  "only the current time is ever exercised",
  ["value/sys.go","config/config.go"], [("encodeTime/decodeTime","value/sys.go")])

p("P32", "Reading a file yields its lines exactly; sys rejects anything else",
  "sys 'read' file gives, for every file of UTF-8 text, a vector with one character vector per line, in order, holding exactly the characters of that line without its line feed or carriage return and line feed, for every line length and number of lines, with or without a final line feed, whatever the settings and the file name; an empty file gives an empty vector. A missing or unreadable file, an unknown name, or any other number or kind of arguments to sys is an error. The file and the session are unchanged.",
  ["inputs"], "all file contents up to a length over an alphabet with both line endings, line lengths and counts at buffer and node sizes, all small argument lists",
  "line endings at buffer boundaries and odd arguments are never sampled",
  ["value/sys.go"], [("sys, sysRead","value/sys.go")])

p("P33", "The command runs its parts in order in one session and reports failure",
  "The ivy command runs the -f file, then the -i text, then the -e text and stops, or else the files named as arguments in order and stops, or else standard input, all in one session: variables, operators, settings and _ made by one part are there for the next. Values go to standard output and error reports to standard error. The first error in -f, -i, -e or a named file (one that cannot be opened included; - is standard input) ends the command with a nonzero exit status and nothing after it is run; an error on standard input only abandons its line, and at the end of input the status is 0. On standard input the prompt is printed before each line and an empty line after its output. The flags -format, -g, -maxbits, -maxdigits, -stack, -origin, -prompt and -debug have the effect of the corresponding special commands given first, in any combination; a bad flag or value is reported with a nonzero status and nothing is run.",
  ["inputs","histories"], "all combinations of parts over an alphabet of programs that observe each other, run with the real command against a model of the session",
  "the main program has no tests at all; what one part leaves for the next depends on the combination",
  ["ivy.go","run/run.go"], [("main, runFile, runString","ivy.go"),("Run","run/run.go")])

p("P34", ")help shows exactly the documentation asked for",
  ")help about word prints every line of the documentation (the package comment of doc.go) that contains the word, in any case, and no other line; )help with a topic or one of its synonyms prints that section of it in full; )help op, for every operator with a row in the tables of unary, binary and axis operators (and that is a single token), prints its complete entries from each of them, and says so when there is none. Letter case and the bases do not matter, and the session is not changed.",
  ["inputs"], "every word, topic and operator name of the documentation",
  "tests sample a few words; the generated line numbers must agree with the text for each of over a hundred operators",
  ["parse/special.go","parse/helpdocs.go","parse/help.go"], [("help, helpAbout, printHelpBlock","parse/helpdocs.go"),("special, case help","parse/special.go")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
