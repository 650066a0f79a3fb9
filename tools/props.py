#!/usr/bin/env python3
"""Source of /verif/properties.jsonl: run `python3 tools/props.py` to rewrite it."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe or ["World.Interpret / World.Eval results and returned errors"],
                     hook_needed=None)))

p("A01", "Addition, subtraction, multiplication and division follow number semantics",
  "For integer arguments, + - * give the two's-complement 64-bit result of the mathematical operation applied left to right and 1+ 1- incf decf agree with them; as soon as one operand is a float the result is the float sum/difference/product of the operands converted to float. (- x) negates, / truncates integer quotients and divides floats, an integer or float zero divisor raises the division-by-zero condition, and a symbol, list, nil or t as operand raises a domain error that names it, never a wrong value. Arithmetic that succeeds never calls a condition handler.",
  ["inputs"], "all 64-bit integers and floats in argument lists of up to 3 operands, all int/float mixes",
  "The tests evaluate a handful of small literal sums; wrap-around, mixed-mode promotion order and zero divisors at every position are not sampled.",
  ["number.go", "embed/incf.lsp", "embed/decf.lsp", "embed/1+.lsp", "embed/1-.lsp"], [("left fold over operands, per-type Add/Sub/Multi/Divide", "number.go, atom.go")])
p("A02", "Quotient, remainder and rounding functions satisfy their identities exactly",
  "For integers, (mod a b) is the exact 64-bit residue with the sign of b and (rem a b) the exact residue with the sign of a, both congruent to a; a zero divisor raises a division-by-zero error instead of returning a number or crashing. floor, ceiling, truncate and round return an integer argument unchanged and, for a float whose result fits in 64 bits, the integer their name prescribes; evenp/oddp/zerop/plusp/minusp agree with the mathematical predicates on every integer (and zerop/plusp/minusp on every float).",
  ["inputs"], "all pairs of 64-bit integers (division kernels) and all floats in the 64-bit range (rounding)",
  "Tests check mod on four small sign combinations and rounding on a few literals; values above 2^53, minimum integers, zero divisors and negative odd numbers are untested.",
  ["number.go", "operator.go"], [("funMod/funRem/funFloor/... kernels", "number.go")])
p("A03", "Numeric comparisons are the mathematical order, on chains of any length",
  "On integers (and on floats) = /= < <= > >= agree with the mathematical order, so = is an equivalence, < a strict total order on non-NaN numbers and <= its reflexive closure; an integer is compared with a float after conversion to float. With more than two arguments (/= takes two) the result is true exactly when every adjacent pair is related, whatever the pair that fails; max and min return one of their arguments that bounds all the others. A symbol, list, nil or t compared by < <= > >= max min raises a domain error that names it.",
  ["inputs"], "all integers and floats, chains of 1 to 4 operands",
  "Tests compare a few literals; trichotomy, transitivity, chains whose first pair fails and extreme values need every input.",
  ["operator.go", "number.go", "atom.go", "embed/max.lsp", "embed/min.lsp"], [("inject-style pairwise comparison", "operator.go")])
p("B01", "No call from a Lisp program can crash the host process",
  "Calling any built-in function, special form, macro or method with any number of arguments of any of the interpreter's value types returns either a value or a Go error. It never panics, never corrupts an object so that a later access panics, and never loops or allocates without bound on small arguments (recursion a program itself performs without bound, circular structures it builds, and objects whose requested size exceeds memory are excluded).",
  ["programs", "inputs"], "every exported operator name x argument tuples (0 to 4 arguments) over a universe of every value type with symbolic numeric content",
  "Each operator is tested with well-formed arguments; the product of operators and ill-typed, empty, negative, huge or self-referential arguments is never run.",
  ["world.go", "cons.go", "array.go", "sequence.go", "string.go", "hash.go", "io.go", "format.go", "error.go", "class.go", "generic.go"], [("argument count/type checks in every builtin", "functionref.go, newtypes.go and each fun*/cmd*")])
p("C01", "The reader accepts arbitrary text without crashing and reports incomplete input",
  "Reading any byte string yields a list of forms or an error; it never panics or hangs. A text that ends inside a list, after a quote prefix, inside a string, a |symbol| or a block comment yields an error from the whole-text readers, never a silently shortened program. An array literal is read exactly when all its lists of one depth have the same length, as the array of its elements.",
  ["inputs"], "every byte string up to the bound over an alphabet covering every character class of the lexer",
  "The parser tests read well-formed programs; truncations and malformed dispatch sequences are not sampled.",
  ["pkg/parser/main.go", "pkg/parser/tokenize.go", "parse.go"], [("readToken/readtokenWord state machine", "pkg/parser/tokenize.go"), ("ErrTooShortTokens on EOF", "pkg/parser/main.go")], ["ReadAll, ReadNode"])
p("C02", "Layout and comments never change the meaning of a program text",
  "Inserting white space, line comments or (nested) block comments between tokens does not change the forms that are read, a token ends exactly at white space, a parenthesis or a comment start, and the characters inside string literals are preserved literally apart from the backslash escapes. Reading a concatenation of forms separated by white space yields exactly the forms read separately, in order.",
  ["inputs"], "token sequences up to the bound, separators drawn symbolically, string bodies with symbolic bytes",
  "Tests have one or two hand-placed comments; the interplay of comment markers, quotes and delimiters is combinatorial.",
  ["pkg/parser/tokenize.go", "pkg/parser/main.go"], [("skipComment / delimiter handling", "pkg/parser/tokenize.go")], ["ReadAll"])
p("C03", "What the printer writes, the reader reads back as an equal object",
  "For every object built from integers, strings, characters, symbols, nil, t, conses and arrays, the S-expression text produced for it is accepted by the reader and yields an object that is equal to the original. Distinct objects of these kinds never print as the same text.",
  ["inputs"], "objects up to the size bound with symbolic integers, string bytes, characters and symbol names",
  "Tests print a few literals; escape sequences, negative and extreme integers, odd symbol names and nested dots/arrays are where round trips break.",
  ["atom.go", "cons.go", "array.go", "pkg/parser/main.go", "pkg/parser/tokenize.go"], [("GoString/PrintTo vs ReadNode", "atom.go, cons.go, array.go, pkg/parser")], ["PrintTo/format ~s output", "ReadNode"])
p("C04", "Numeric tokens denote exactly the number they spell",
  "A token made of an optional minus sign and decimal digits, or #x/#o/#b digits, reads as exactly that integer; a decimal-point or exponent token reads as the nearest float; every other token reads as a symbol or an error, never as a number. parse-number of a string agrees with the reader on it, and integer printing in base 10, 2, 8 and 16 is the inverse of reading.",
  ["inputs"], "all digit strings up to 20 digits (decimal) and to the word size (radix), all other tokens up to the bound",
  "Tests read a few numbers; the int64 boundary, sign handling, and near-number tokens are not sampled.",
  ["pkg/parser/main.go", "number.go", "format.go"], [("tryParseAsInt/tryParseAsFloat", "pkg/parser/main.go")], ["ReadAll", "parse-number", "format"])
p("D01", "eq, eql, equal and equalp form one consistent hierarchy of equivalences",
  "Each of the four predicates is reflexive, symmetric and transitive (a float NaN, and integers compared by equalp with floats that cannot represent them, aside), eq implies eql implies equal implies equalp, and none of them crashes on any pair of objects of any kind. equal compares conses, strings, arrays and instances structurally, eq and eql by identity except numbers, characters and strings; equalp additionally ignores letter case in strings and characters and compares numbers by value across types, and two objects that differ in any leaf are not equal.",
  ["inputs"], "all pairs (and triples for transitivity) of objects up to the depth bound over every value type",
  "Tests check a few pairs; the relation laws quantify over all pairs and triples, including functions, tables, streams and arrays.",
  ["operator.go", "cons.go", "atom.go", "array.go", "hash.go"], [("Equals methods with comparison modes", "atom.go, cons.go, array.go")])
p("E01", "List functions agree with the mathematical list they manipulate",
  "cons car cdr list append reverse nreverse length elt nth nthcdr last member assoc create-list first/second/third and caar cadr cddr caddr cdddr cadddr return exactly the list functions of their arguments; a position beyond the end gives nil, a negative one is an error for nth and elt and the list itself for nthcdr, and car, cdr, first and rest of nil are errors. append, reverse and the accessors leave their arguments unchanged, append shares only its last argument, and set-car, set-cdr, set-cadr ..., set-nth, set-nthcdr and setf on these places change exactly one cell, or none and raise an error if the position is outside of the list. car, cdr, length, reverse, append (but for its last argument), last, member and assoc of an atom or of a list that ends in an atom raise an error, never a wrong element.",
  ["inputs"], "lists up to length 4 with symbolic elements, all 64-bit indexes",
  "Tests use fixed literals; index boundaries, aliasing and argument preservation need all positions.",
  ["cons.go", "list.go", "sequence.go", "embed/nth.lsp", "embed/nthcdr.lsp"], [("list walkers", "list.go, cons.go")])
p("E02", "Mapping functions apply the function once per position, in order, to all lists",
  "mapcar, mapc, mapcan, maplist, mapl and mapcon call the function for each index below the length of the shortest list, left to right, with the elements (or tails) of every list at that index, and return respectively the list of results, the first list, or the concatenation of results; the lists are left unchanged. An error or non-local exit inside the function propagates at once and no further call is made. No list at all, a list that ends in an atom before the others end, and an object that is no function are errors.",
  ["inputs", "programs"], "1 to 3 lists of length 0 to 3 with symbolic elements; a failing call at every position",
  "Tests map over one or two literal lists; empty and unequal lengths and abort positions are not enumerated.",
  ["list.go", "sequence.go"], [("mapCar/mapList helpers", "sequence.go, list.go")])
p("E03", "Sequence access and slicing respect bounds on every sequence type",
  "elt and setf elt treat lists, strings and vectors, length, subseq and setf subseq lists and strings, as the same abstract sequence: elt reads position i, subseq returns a fresh copy of positions [i,j), setf elt replaces position i, setf subseq replaces positions [i,j) by the new sequence (in a list as many of them as it has elements). Any index outside the sequence (negative, beyond the end, or reversed bounds) raises an error and leaves the sequence unchanged, except that elt beyond the end of a list is nil. A store into a string makes a new string, a store into a list or vector changes it.",
  ["inputs"], "lists, strings and vectors up to length 4, all 64-bit index values",
  "Tests use in-range indexes only.",
  ["sequence.go", "array.go", "string.go", "embed/set-elt.lsp", "embed/set-subseq.lsp"], [("funElt/funSubSeq range handling", "sequence.go")])
p("F01", "String and character functions agree with Unicode code point sequences",
  "string-append is concatenation, create-string repeats, length and elt count code points, char-index and string-index return the least index at or after the start where the character or substring occurs, or nil (a negative start means the beginning). string= string/= string< string<= string> string>= are the lexicographic order on code points and char comparisons the numeric order, each total and mutually consistent. An argument of another kind and a negative length raise an error.",
  ["inputs"], "strings up to length 3-4 of symbolic characters, all start indexes",
  "Tests compare a few literals; search start positions, prefixes, empty strings and non-ASCII text are not enumerated.",
  ["string.go", "sequence.go"], [("compare/index helpers", "string.go")])
p("G01", "Array elements are independent cells addressed by bounded indexes",
  "After storing into an element, reading that element gives the stored object and every other element, of this and any other array, is unchanged; a new array holds its initial element everywhere and reports its dimensions, and array literals list their elements in row-major order. aref with fewer indexes than dimensions, and elt, denote the row itself. Too many indexes, an index outside its dimension or not an integer, an object that is no array, and dimensions that are not positive or whose product is too large raise an error and never touch an element.",
  ["inputs", "histories"], "arrays of rank 0 to 3 with dimensions up to 4, all 64-bit index and dimension values, sequences of up to 3 updates",
  "Tests set one or two fixed elements; aliasing between indexes and overflow in index arithmetic need all index tuples.",
  ["array.go"], [("index computation in aref/set-aref", "array.go")])
p("H01", "A hash table behaves as a finite map keyed by equality",
  "After any sequence of insertions, replacements, removals and clears, looking a key up returns the last value stored under an equal key and nil otherwise, the count is the number of distinct present keys, and removal deletes exactly that key. Integer, character, symbol and string keys with equal content are the same key, and every object may be offered as a key without crashing: it is found again under itself or refused with an error. Tables are separate from each other.",
  ["histories", "inputs"], "all operation sequences of length 3 (thorough: 4) over symbolic keys and values, keys of every kind, every kind of object as a key",
  "Tests perform one insertion and lookup per type; replacement/removal interleavings over equal and distinct keys are not enumerated.",
  ["hash.go"], [("Go map keyed by node", "hash.go")])
p("I01", "Variables are lexically scoped and assignments reach exactly one binding",
  "A variable reference denotes the innermost textually enclosing binding made by let, let*, lambda, defun, flet, labels or the global definition; closures capture the binding itself, so updates through setq are seen by every closure sharing it and by no other binding of the same name. let and psetq evaluate all values before any binding or assignment, let* sequentially; flet functions do not see each other while labels functions do.",
  ["programs", "inputs"], "generated programs up to the size bound mixing binding forms, closures and assignments over a small set of names, with symbolic values",
  "Tests contain a few closures; the interaction of shadowing, capture and assignment order is combinatorial.",
  ["lambda.go", "setq.go", "progn.go", "world.go"], [("World parent chain of scopes", "world.go"), ("parameter binding", "lambda.go")])
p("I02", "Conditional and sequencing forms evaluate exactly what they must, in order",
  "Function arguments are evaluated once each, left to right; if, cond, case, and, or, when, unless evaluate their tests in order, stop at the first that decides, evaluate only the selected branch and return its value; progn, prog1, prog2 and bodies return the prescribed value. Only nil is false.",
  ["programs", "inputs"], "nested conditional programs up to the bound, test outcomes symbolic, evaluation order observed through a trace",
  "Tests check results of a few forms, not which subforms were evaluated and in which order for every outcome vector.",
  ["cond.go", "progn.go", "operator.go", "embed/when.lsp", "embed/unless.lsp", "embed/prog1.lsp", "embed/prog2.lsp"], [("special forms", "cond.go, progn.go")])
p("I03", "Loops execute their body the prescribed number of times",
  "while repeats its body until its test, evaluated before every iteration, is nil; dotimes evaluates its count once and binds its variable to 0..n-1 in order, dolist evaluates its list once and binds its variable to each element in order; for evaluates the initial values, then before each iteration the end test, assigns all step values in parallel after each iteration, and returns the value of its last result form when the end test holds. Non-positive counts and empty lists run the body zero times; return leaves the innermost enclosing dolist (which is a block named nil) or (block nil ...) at once with its value, and return-from, throw and go leave every loop at once.",
  ["programs", "inputs"], "symbolic counts up to the bound (and all non-positive counts), symbolic exit iteration, nested loops",
  "Tests run fixed counts.",
  ["progn.go", "embed/dotimes.lsp", "embed/dolist.lsp", "embed/for.lsp"], [("cmdWhile and loop macros", "progn.go, embed/*.lsp")])
p("I04", "Calls in tail position mean the same as calls anywhere else",
  "A recursive function whose self-calls are in tail position returns the same result, performs the same effects in the same order and raises the same errors as an equivalent function whose self-calls are not, including parameter counts, rest parameters, shadowing and closures created in different iterations. Long tail-recursive loops neither grow the stack nor escape cancellation.",
  ["programs", "inputs"], "tail-recursive definitions through progn, if, cond, let, with symbolic arguments and depths up to the bound",
  "Tests only check that a deep tail recursion finishes.",
  ["lambda.go", "progn.go", "cond.go"], [("tail recursion rewriting", "lambda.go")])
p("I05", "Parameter lists accept exactly the argument counts they describe",
  "A function with n required parameters accepts exactly n arguments, or at least n when it has a rest parameter, which then receives exactly the remaining arguments as a list; any other count raises an error before the body runs. The same holds for lambda, defun, flet, labels, macros, methods, apply, funcall and for the declared arities of built-in functions. What expand-defun displays of a function defines, when it is evaluated, the same function again.",
  ["programs", "inputs"], "0 to 4 supplied arguments against 0 to 3 required parameters with and without rest, through every calling form",
  "Tests call each function with the right count.",
  ["lambda.go", "functionref.go", "newtypes.go", "macro.go", "generic.go"], [("argument checking", "lambda.go, newtypes.go")])
p("J01", "Non-local exits reach exactly their target and cleanups run exactly once",
  "return-from/return, throw and go transfer control to the matching active block, catch or tagbody tag, delivering the value and abandoning everything in between; an exit whose target is not active raises a control error. Every unwind-protect cleanup between source and target runs exactly once, innermost first, on normal return, non-local exit or error, and afterwards the interpreter is in the same state as if the form had returned normally.",
  ["programs", "inputs"], "nestings of block/catch/tagbody/unwind-protect/handlers up to the bound with the exit point and target chosen symbolically",
  "Tests exercise single exits; nested same-tag targets, exits from cleanups and exits after the target has ended are combinatorial.",
  ["progn.go", "error.go", "world.go"], [("exit errors propagated through return values", "progn.go"), ("registration of live tags", "progn.go")])
p("J02", "Dynamic bindings are restored on every way out",
  "Within dynamic-let a dynamic variable has the new value for everything called from the body, and after the form ends by normal return, error or non-local exit every dynamic variable has its previous value (or is unbound again). Nested and repeated bindings restore in order, and setting a dynamic variable changes the innermost binding only.",
  ["programs", "inputs"], "nested dynamic-let forms over two variables with symbolic values and symbolic exit kind",
  "Tests check one normal return.",
  ["setq.go", "embed/set-dynamic.lsp"], [("save/restore around the body", "setq.go")])
p("K01", "Conditions reach the innermost handler with accurate data",
  "An error signalled by a form or built-in invokes the innermost established handler exactly once with a condition of the documented class carrying the offending object, expected class, operation or name; while the handler runs, that handler is not active. If the handler exits non-locally or continues, control goes there; with no handler the error is returned to the embedding program, and ignore-errors turns it into nil; after the form the previous handler is active again.",
  ["programs", "inputs"], "error kinds x handler nestings x handler actions with symbolic operands",
  "Tests check one condition of each class with one handler.",
  ["error.go", "cond.go", "progn.go", "cmds.go"], [("handler slot saved/restored", "cond.go cmdWithHandler"), ("handler call", "error.go callHandler")])
p("L01", "Macros and quasiquotation substitute structurally and evaluate once",
  "Quasiquote reproduces its template of conses exactly, replacing each form unquoted at its own level of nesting by its value, each form evaluated once and in order of appearance; a macro call receives its operands unevaluated and its expansion is evaluated in the caller's environment; macroexpand shows the same expansion. setf, incf and decf on variables, car, cdr, nth, elt, aref, gethash and dynamic places store into exactly the addressed place, and evaluate its operands once (but for the sequence of elt, which is itself a place).",
  ["programs", "inputs"], "templates up to the bound with symbolic leaves; every place kind with symbolic index and value",
  "Tests expand a few templates.",
  ["macro.go", "embed/setf.lsp", "embed/incf.lsp", "embed/decf.lsp"], [("quasiquote walker, macro application", "macro.go")])
p("M01", "Instances, slots and class relations are consistent with the class definitions",
  "An instance created from a class is an instance of exactly that class and its ancestors, subclassp is the strict ancestor relation (transitive, no class a subclass of itself), and class-of agrees with both. Each slot starts with its initarg value if given (nil included), else with the value of its initform, which is evaluated anew for every instance, else unbound; readers, writers and accessors of one slot of one instance agree, and writing it changes no other slot or instance.",
  ["programs", "inputs"], "class hierarchies of up to 3 classes with symbolic inheritance choices, symbolic slot values and initargs",
  "Tests build one or two classes.",
  ["class.go", "builtinclass.go"], [("slot maps and super lists", "class.go")])
p("M02", "Generic functions select an applicable method, the most specific one",
  "Calling a generic function runs the method whose parameter classes the arguments are instances of; among several applicable methods the most specific is run whatever their definition order, and when none is applicable an error is raised. The arguments reach the method unchanged and in order.",
  ["programs", "inputs"], "methods on up to 3 classes in every definition order, dispatched on instances and built-in values",
  "Tests define methods in one order only.",
  ["generic.go", "class.go"], [("method selection", "generic.go")])
p("N01", "format renders each directive from the right argument and checks their number",
  "format and the format-* functions output the literal text and, for each directive, the corresponding argument: ~a its display form, ~s its readable form, ~d ~b ~o ~x exactly the integer in that base, ~% newlines, ~& newlines unless a line has just begun, and ~~ a tilde; format-char writes the character. Field widths pad without truncating, missing arguments and unknown directives raise errors, and the output goes only to the designated stream or string.",
  ["inputs"], "templates up to the bound over all directives, all 64-bit integers",
  "Tests print a few literals.",
  ["format.go"], [("directive interpreter", "format.go")])
p("N02", "Input streams deliver their characters exactly once, in order, then signal end",
  "read-char, read-line and read on one stream consume disjoint consecutive parts of its text in call order; at the end of input they raise the end-of-stream error or return the supplied end value according to their arguments, every time. String output streams return exactly what was written since the last retrieval, and standard-input redirection is undone on every exit.",
  ["histories", "inputs"], "input texts up to 4 characters, sequences of up to 3 read operations in any mix",
  "Tests read whole lines from fixed strings.",
  ["io.go"], [("rune scanner shared by readers", "io.go")])
p("O01", "Type conversions preserve the value they convert",
  "convert between integers, floats, characters, strings, symbols, lists and vectors yields the corresponding object of the target class and converting back gives an equal object; integer/character and list and vector round trips are exact, a string becomes the sequence of its characters, a float becomes the integer of its integral part. A conversion that is undefined or whose source text is not in the target syntax raises an error.",
  ["inputs"], "all integers and code points, strings, lists and vectors up to length 3, all class pairs",
  "Tests convert one literal per pair.",
  ["convert.go"], [("per-class conversion table", "convert.go")])
p("O02", "Symbols are identified by name, gensyms are unlike every other symbol",
  "Interning the same name always yields the identical symbol, interning different names never does, and a symbol prints its own name. Each generated symbol differs from every symbol interned or generated before or after it.",
  ["histories", "inputs"], "pairs of names up to the bound and interleavings of interning and generation",
  "Tests compare fixed symbols.",
  ["atom.go", "misc.go"], [("symbol table", "atom.go")])
p("P01", "Cancelling the context stops evaluation promptly with the context's error",
  "Once the context given to the interpreter is cancelled, evaluation of any program, including endless loops and endless recursion in every looping form, returns the context's error within a bounded number of further evaluation steps, doing nothing the host can see afterwards (a single call of a built-in on a circular list or a huge count aside); the interpreter can be used again. Only the context given to the running evaluation counts, not the one under which its functions, classes and macros were defined. A context that is never cancelled never changes the result.",
  ["schedules", "programs"], "cancellation at every poll up to the bound in every looping construct",
  "No test cancels a context.",
  ["progn.go", "cons.go", "lambda.go", "utils.go"], [("context polling in evaluation loops", "utils.go checkContext")])
p("Q01", "Embedding scopes and interpreter instances do not leak into each other",
  "Evaluating in an interpreter extended with host-provided variables or functions behaves as inside the corresponding let/flet, Range shows the host every visible variable once with its value until it stops, and the extension leaves the original interpreter's bindings, output streams, handlers and dynamic variables unchanged; host callbacks receive exactly the evaluated arguments. Separate interpreter instances have independent function and macro definitions, dynamic variables, handlers and output streams, whichever instance ran first (global variables made by defglobal are shared by design and excluded).",
  ["histories", "programs"], "interleavings of up to 3 evaluations in two instances and an extended one with symbolic values",
  "One test checks one variable across instances.",
  ["world.go", "cmds.go", "newtypes.go"], [("World.Let/Flet parent chain; shared part per instance", "world.go"), ("lazily compiled embedded functions", "cmds.go")])

p("R01", "File streams hold exactly what was written and are closed on every exit",
  "What a program writes to an output file is, once the stream is closed or with-open-output-file is left (normally or by any exit), the whole text of the file, the same text a string stream would hold, fresh lines included; reading a file gives, operation by operation, what reading a string of that text gives, and objects written with ~s are read back equal. with-open-input-file and with-open-output-file leave no file open and change neither the value nor the exit of their body; text that cannot be written is reported as an error. probe-file, file-length and open-input-file agree on which files exist, opening a missing file is an error, and load evaluates a file's forms in order as the same program text, with its value, effects, definitions, errors and exits.",
  ["programs", "inputs", "fault_sequences"], "sequences of up to 3 file operations on symbolic texts and objects, 10 exits, 15 loaded programs in 4 contexts, an always full device",
  "Tests write and read back one small file; exits through the forms, write failures, and texts where buffering, line ends or fresh lines matter are not run.",
  ["io.go", "cmds.go", "format.go", "world.go"], [("buffered output file stream, close on exit", "io.go cmdWithOpenOutputFile"), ("load", "cmds.go funLoad")],
  ["contents of files", "World.Interpret / World.Eval results and returned errors"])
p("S01", "Property lists of symbols are maps from symbol and name to value",
  "After any history of set-property, (setf property) and remove-property, (property symbol name) gives the object set last for exactly that symbol and name and is an error a handler receives when there is none; setting or removing one property changes no other, whatever the values. Properties belong to one interpreter instance and are seen from every scope derived from it, from none of another instance.",
  ["histories", "inputs"], "histories of up to 4 operations over interned and uninterned symbols and names, values of every kind, two instances",
  "One test sets and removes a single property.",
  ["startup.lsp", "embed/setf.lsp", "world.go", "list.go"], [("association lists in startup code", "startup.lsp"), ("startup code runs once per instance", "world.go")])
p("T01", "Malformed forms and calls are refused and do nothing",
  "A special form, definition or call that lacks a required operand, has more than it may have, whose operand list or a binding, parameter or clause list is no proper list, or that has something other than a symbol where a name is required, is an error which the handler receives exactly once as an instance of <error> and can leave by a non-local exit; it yields no value, and defines and assigns nothing.",
  ["programs", "inputs"], "every special form and defining form, with each number of operands, an atom at each place of its syntax where a list or a name is required",
  "Tests check a few calls with too few arguments.",
  ["lambda.go", "progn.go", "setq.go", "world.go", "macro.go", "class.go", "generic.go"], [("Shift and Expect* in the special forms", "world.go ShiftAndEvalCar"), ("parameter lists", "lambda.go getParameterList")])

p("U01", "subst, =~, =~i and wildcard give every match, and only those",
  "(subst new old tree) is a copy of the tree in which every part, at any depth, that is eq to old is new, new itself is not searched, and the tree is unchanged. (=~ pattern text) is the list, for every match from the first to the last, of the texts of the match and its groups, (=~i pattern text) the list of their places, nil without a match; a pattern that is none is an error. (wildcard pattern) is the proper list of the names of exactly the existing files that match, in order. Operands of another class are domain errors, and a wrong number of operands is an error.",
  ["inputs"], "every tree of conses to a bounded depth, patterns and every text to a bounded length, every set of existing files",
  "Tests use one alist for subst and a few texts for =~.",
  ["pkg/subst/main.go", "pkg/regexp/main.go", "pkg/wildcard/main.go"], [("subst", "pkg/subst/main.go subst"), ("=~ and =~i", "pkg/regexp/main.go funFindAllStringSubmatch, funFindAllStringSubmatchIndex"), ("wildcard", "pkg/wildcard/main.go funWildcard")])

p("V01", "The command runs the whole program it is given and reports how it ended",
  "gmnlisp FILE ARG... evaluates every form of the file, however long, in order, leaving out only a first line that starts with #! or @; gmnlisp -e CODE ARG... evaluates the code. *posix-argv* is exactly the list of the remaining arguments as strings, also of those that are empty or look like options. Everything the program writes to the standard output appears there. The command succeeds, and reports nothing, if the program ends or calls quit, at any depth; after the first error that no handler takes, nothing more is evaluated, the error is reported and the command fails. A file that does not exist is an error.",
  ["inputs", "programs"], "every first line to a bounded length, arguments that are empty, options or short texts, chosen programs that end, fail, or quit, scripts of up to 70000 characters",
  "No test runs the command.",
  ["cmd/gmnlisp/main.go", "world.go", "progn.go"], [("arguments, first line, exit status", "cmd/gmnlisp/main.go mains, main, setArgv"), ("quit", "progn.go")])

p("W01", "The command function runs one program with exactly the given arguments",
  "(command name arg...) starts the program of that name once, with exactly one argument for every arg in order, whatever characters it consists of and also if it is empty, nothing being split, joined, quoted or expanded; arguments that are not strings are passed as the text format ~a shows, and each is evaluated once from left to right. What the program writes to its output and error output goes to the interpreter's, after everything written before the call and before everything written after it. The result is nil. A program that cannot be started or ends with another status than 0 is an error that handlers and cleanups see; without a name, or when an argument has an error, nothing is started. A program runs under the context of the evaluation, and nothing is started once that is cancelled.",
  ["inputs", "faults"], "up to three arguments of any two bytes each, every status from -1 to 255, programs that are missing, fail or are cancelled before or while they run",
  "No test starts a program.",
  ["pkg/command/main.go"], [("command", "pkg/command/main.go funCommand")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
