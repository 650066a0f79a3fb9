import subprocess
fx=[("A02","mod and rem compute exact residues","(mod 5 3) was -1, (rem 5 0) panicked, (rem 5 2.0) failed"),
("A02","oddp is true","(oddp -3) was nil"),("A02","round ties","(round 2.5) was 3"),
("A01","mixed integer and float arithmetic","(+ 1 2.0) inside with-handler called the handler"),
("A03","chained comparisons","(< 3 1 2) failed, chains were folded over truth values"),
("A01","arithmetic on no operands","(+) was nil, (- 'a) returned an error whose Error method panicked, (+ 'a) was a"),
("C01","end of text inside a string",'the texts ("a , (|a , (a #| , "a\\ read as complete programs'),
("C01","malformed array literals","#2a(1 2) and #0a() panicked or were accepted"),
("C01","array literal whose rows differ","#2a((1 2) (3) (4 5 6)) was read as #2a((1 2) (3 4) (5 6))"),
("C02","a block comment ends the token","a#|c|#b read as one token"),
("C02","the symbols |)| and |.|","(|)| a) and (a |.| b) read the symbols as delimiters"),
("C02","#' is a prefix only","a#'b read as a function reference"),
("C03","arrays without elements","#2a() printed without its opening parenthesis"),
("C03","string literals are printed","a string with a newline or quote did not read back"),
("C03","a space follows the symbol","(a |,| b) printed as (a |,|b)"),
("D01","arrays are compared by identity","(equal #((1)) #((1))) was nil, (eql (vector 1) (vector 1)) was t"),
("D01","functions, hash tables and streams are equal","(eq #'car #'car) panicked, (eql h h) was nil for hash tables and streams"),
("D01","equal on instances tells","an instance with slot x nil was equal to one with x unbound and another slot bound"),
("C03","symbols whose names need it","|a b| printed as a b"),
("E03","elt rejects negative indexes","(elt '(1 2) -1) was (1 2), (elt \"abc\" 3) was no object and crashed its user"),
("E02","maplist, mapl and mapcon do not call","(maplist f nil) called f"),
("E02","mapl returns its first list","(mapl f '(1)) was nil"),
("L01","a quasiquote inside of a quasiquote","`(a `(b ,(c ,x))) evaluated (c 1)"),
("I01","functions of labels hide macros in each other","(labels ((f (x) (when x 1 2)) (when (x y z) ...)) (f 5)) expanded the macro when"),
("L01","setf of elt and subseq evaluates the sequence once","(setf (elt (f) 0) 1) called f three times, and failed for a list: undefined function set-f"),
("L01","incf and decf evaluate the operands of their place once","(incf (aref v (setq i (+ i 1)))) read one element and stored into the next one"),
("L01","setf of assoc stores into the pair found","(setf (assoc 1 a) x) replaced every pair with the key"),
("L01","setf of setq is expanded","(setf (setq x 1) 2) was the error: undefined variable expr"),
("E02","mapping functions without a list","(mapcar f) never returned"),
("E03","subseq rejects positions outside","(subseq '(1 2) 1 5) was (2)"),
("E03","storing into a string by setf elt, and outside","(setf (elt s 0) c) of a string failed, of a list beyond its end did nothing"),
("E03","setf subseq of a string rejects reversed","(setf (subseq s 2 1) x) duplicated a character"),
("E01","nthcdr of the minimum integer","(nthcdr -9223372036854775808 '(1)) was nil"),
("E01","set-nthcdr does not walk into","(set-nthcdr 5 1 x) failed after storing, (setf (nthcdr 1 x) x) never returned"),
("F01","string-index with a start outside","(string-index \"\" \"abc\" 5) was 5, (string-index \"a\" \"abc\" -1) was -1"),
("G01","set-aref compares an index with its own","(set-aref v a 4611686018427387904 0) of a 2x4 array stored into row 0"),
("G01","create-array does not overflow","(create-array '(4294967296 4294967296) 0) was accepted with no elements and aref panicked"),
("G01","array-dimensions returns a proper list","(cdr (array-dimensions v)) was no object"),
("I01","let* makes a scope for each variable","(let* ((x a) (f (lambda () x)) (x 2)) (funcall f)) was 2"),
("B01","a function body may call a lambda expression","(defun f () ((lambda (x) x) 1)) panicked"),
("I01","local and redefined functions hide macros","(flet ((when (x) x)) ...) expanded the macro inside of function bodies"),
("I02","apply evaluates its arguments from left","(apply f a b '(c)) evaluated its last argument first; (apply f 1 2) called f"),
("J01","return and return-from leave the lexically","(block a (f (lambda () (return-from a 1)))) left the dynamically nearest block of that name"),
("J01","go jumps to the lexically enclosing","a go in a lambda left the dynamically nearest tagbody which had the tag"),
("J01","throw reaches the innermost catch","(catch 1 (throw 1 2)) was not caught"),
("J01","unwind-protect returns the value of its form","(unwind-protect 1 2) was 2"),
("I02","a cond clause without forms","(cond (5)) was nil"),
("I02","case compares its keys with eql","(case 1.0 ((1) 'a)) was a"),
("I02","and and or accept no forms","(and) and (or) were errors"),
("J02","dynamic-let evaluates all values before","(dynamic-let ((x 1) (y (dynamic x))) ...) saw the new x; a variable bound twice kept a bound value afterwards"),
("I04","a tail call binds its arguments like","(defun f (n &rest r) ... (f (- n 1) 2 3)) in tail position lost its rest arguments"),
("K01","a handler is called once, at the place","handlers were called again for every enclosing form, and could not be left by return-from"),
("Q01","embedded functions belong to the World","a (defun nth ...) in one World changed the other Worlds"),
("K01","cerror makes its continue string","(cerror \"a\" \"b\") failed"),
("I03","for evaluates the initial forms from left","(for ((i a) (j b)) ...) evaluated b first"),
("I03","for accepts any number of result forms","(for ((i 0)) (t 1 2)) was an error"),
("B01","Pair.Set panicked after","(set-assoc ...) and setf of a pair panicked"),
("B01","dumping a session inside of flet panicked","World.Dump inside of flet panicked"),
("P01","ignore-errors does not stop non-local exits","(block b (ignore-errors (return-from b 1)) 2) was 2; a cancelled program went on"),
("M02","the body of a method sees the variables around","a method body saw the local variables of its caller"),
("M02","the rest parameter of a method is bound","(f 1) of a method (f (x) &rest r) left r unbound"),
("M02","a parameter of a method may be written without","(defmethod f (x) ...) was an error"),
("I05","a macro rejects more operands","a macro accepted more operands than it has parameters"),
("K01","too many arguments are signaled like","the error of too many arguments reached a handler only after the form was left"),
("I02","case-using evaluates its predicate form once","case-using evaluated its keys as forms and its predicate for each key"),
("K01","signal-condition without a handler returns","(signal-condition c t) without a handler was the error: undefined function report-condition"),
("E02","mapping functions do not evaluate their function twice","(mapcar (quote (lambda (x) x)) (quote (1))) accepted a list as a function and evaluated it"),
("Q01","methods of report-condition belong to the World","a method of report-condition defined in one World was used by the others"),
("M01","instancep of a built-in class agrees","(instancep \"a\" (class <list>)) was t, every object was a <floating-point-overflow>, <number> was called number"),
("M01","every class made by defclass is a subclass of <object>","(subclassp c (class <object>)) was nil for defined classes"),
("M01","the initform of the derived class","an initform of a super class won over that of its subclass"),
("M01","an initarg shared by slots","an initarg of two slots set one of them, which one changed from run to run"),
("M01","create reports an initarg which is not a symbol","(create c 1 2) was accepted"),
("M01","a class defined without slots can be created","(defclass c ()) made a class which create rejected, a method of initialize-object was not used for subclasses"),
("M01","create rejects built-in classes whose zero value","(create (class <arithmetic-error-class>)) panicked"),
("M01","<built-in-class> is a subclass","(subclassp (class <built-in-class>) (class <object>)) was nil"),
("M02","the most specific applicable method is called","the method defined last was called"),
("N01","the parameters v and # of a format directive","(format nil \"~vd\" 5 42) and ~#d were unknown directives"),
("N01","characters outside of ASCII in format directives","a character outside of ASCII in a directive was cut into bytes"),
("N01","the width of ~a and ~s counts characters","widths counted bytes"),
("N01","~& of format knows the last output","~& after a line written by another operation wrote an empty line"),
("N01","a tilde at the end of a format string","(format nil \"a~\") lost the tilde"),
("N02","the end of the standard input is an end-of-stream error when no stream","(read-char) at the end of the standard input panicked"),
("N02","get-output-stream-string returns what was written since its last call","a second retrieval returned the text of the first one again"),
("B01","file-length with an element size of zero","(file-length name 0) panicked"),
("O01","convert rejects numbers which have no counterpart","(convert 4294967361 <character>) was #\\A, (convert 1e300 <integer>) some number"),
("O01","convert of a float to a string keeps its value","(convert 0.00000001 <string>) was 0.000000"),
("O01","convert accepts only decimal notations of floats","(convert \"nan\" <float>) was accepted"),
("O01","convert between the empty list and vectors","(convert nil <general-vector>), (convert 'a <symbol>) were errors, (convert #() <list>) was no list, the tail of a dotted list was dropped"),
("O02","a generated symbol differs from every symbol interned","(eq (gensym) '-gensym-N-) was t for an N in use"),
("P01","mapping functions and macro expansions without end can be cancelled","(mapc #'null circular-list) and macros whose body is a variable were not cancelled"),
("P01","cancellation is not taken for an error of the program","(with-handler #'car (while t)) gave a domain error when it was cancelled"),
("P01","recursion of a generic function can be cancelled","endless recursion of a generic function was not cancelled"),
("Q01","the startup code is evaluated in the outermost scope","functions given to the first evaluation were used by set-property and report-condition for ever"),
("T01","a handler can leave a malformed lambda","(catch 'k (with-handler (lambda (c) (throw 'k 1)) (lambda (5)))) made the throw an uncaught control error and called the handler again"),
("P01","initforms are evaluated under the context of create","an initform ran under the context of the defclass: it could not be cancelled by that of create, and failed for ever once the former was cancelled"),
("R01","report text which could not be written","text that could not be written to an output file was lost silently by close and with-open-output-file"),
("R01","~& on an output file knows","(format o \"a\") (format o \"~&b\") wrote ab to an output file"),
("U01","wildcard takes one argument and returns","(wildcard) made the interpreter panic and (wildcard p) returned a list that ended in a Go nil instead of nil"),
("U01","command requires the name of","(command) made the interpreter panic"),
("C03","arrays without dimensions can be","(create-array () x) printed as #0A() whatever its element was, which the reader refused, and its element could not be accessed"),
("Q01","Range of a World stops at all","World.Range went on with the outer scopes after the function had told it to stop"),
("I05","expand-defun displays the rest","expand-defun of a function with a rest parameter displayed it without the parameter"),
("K01","the condition of a division by zero in mod","arithmetic-error-operation of a division by zero in mod or rem was the function of / instead of the failing operation"),
("V01","gmnlisp runs scripts that are empty","gmnlisp left out the first line of a script that starts with # but not with #!, such as a comment #| ... |# or #'f, and failed for an empty script"),
]
known=[]
log=subprocess.run(["git","-C","/repo","log","--format=%h %s"],capture_output=True,text=True).stdout.splitlines()
out=[]
for p,k,w in fx:
    c=[l.split()[0] for l in log if k in l]
    out.append(f"fixed: property={p} {c[0]} {w}")
for p,h,w in known:
    out.append(f"known: property={p} harness={h} {w}")
open("/verif/known_findings.txt","w").write("\n".join(out)+"\n")
