package h

import (
	"strings"

	l "github.com/hymkor/gmnlisp"
	"gmnverif/sym"
)

var handlerForms = []string{
	"(with-handler (lambda (c) (rec (list 'h1 (kind c))) (throw 'c (rec 'thrown))) $ (rec 'h1-end))",
	"(with-handler (lambda (c) (rec (list 'h2 (kind c))) (return-from a x)) $ (rec 'h2-end))",
	"(with-handler (lambda (c) (rec (list 'h3 (kind c))) (continue-condition c (rec (list y)))) (rec (list 'value $)))",
	"(with-handler (lambda (c) (rec (list 'h4 (kind c))) (continue-condition c (if (< x y) (list 5) 5))) (rec (list 'value $)))",
	"(with-handler (lambda (c) (rec (list 'h5 (kind c))) (throw 'c (car y))) $ (rec 'h5-end))",
	"(with-handler (lambda (c) (rec (list 'h6 (kind c))) (throw 'c (list 'outer (signal-condition c t)))) $ (rec 'h6-end))",
	"(with-handler (lambda (c) (rec 'h7) (with-handler (lambda (d) (rec (list 'h7b (kind d))) (return-from a 'inner)) (car 9))) $)",
	"(with-handler (lambda (c) (rec 'h8) (continue-condition c (block a (return-from a (list x))))) (rec $))",
	"(with-handler (lambda (c) (rec (list 'h9 (kind c))) (go out)) $ (rec 'h9-end))",
	"(catch 'c $ (rec 'c-end))",
	"(block a $ (rec 'a-end))",
	"(ignore-errors (rec $))",
	"(unwind-protect $ (rec 'clean))",
	"(funcall (lambda () $))",
	"(let ((v $)) (rec (list 'v v)))",
	"(mapcar (lambda (v) (rec v) $) '(1 2))",
	"(let ((h (lambda () $))) (with-handler (lambda (c) (rec 'near) (throw 'c (kind c))) (funcall h)))",
	"(let ((h (with-handler (lambda (c) (rec 'gone) (throw 'c 1)) (lambda () $)))) (funcall h))",
}

var handlerLeaves = []string{
	"(car (rec x))",
	"(car (cdr (rec 'nolist)))",
	"(/ y 0)",
	"(signal-condition 'signaled t)",
	"(f)",
	"(f 1 2)",
	"(throw 'nowhere (rec 1))",
	"(return-from nowhere 1)",
	"(if (< x y) (cdr 3) (rec 'fine))",
	"(list (car 1) (rec 2) (cdr 3))",
}

const handlerFrame = "(defun f (v) (rec 'f) v) (rec (catch 'c (block a (tagbody (rec %) (return-from a 'normal) out (rec 'out))))) (rec (ignore-errors (car 8)))"

// K01_Nested: every kind of error below every nesting of handlers and other forms.
func K01_Nested() {
	src := gen("form", handlerForms, handlerLeaves, tierDepth(2))
	agreeRef(strings.Replace(handlerFrame, "%", src, 1), xy()...)
}

var handlerPrograms = []string{
	"(ignore-errors)", "(list (ignore-errors (car x)) (ignore-errors x y))", "(with-handler (lambda (c) 1))",
	"(list (with-handler (lambda (c) (rec 'never)) x y) 3)",
	"(with-handler (lambda (c) (rec c) (continue-condition c x)) (list (signal-condition (list y) t) (signal-condition 'b t)))",
	"(block a (with-handler (lambda (c) (return-from a (rec c))) (signal-condition x nil) (rec 'no)))",
	"(with-handler (lambda (c) (rec (list 'outer c)) (continue-condition c 1)) (with-handler (lambda (c) (rec (list 'inner c)) (continue-condition c (+ 1 (signal-condition (list 'again c) t)))) (list (signal-condition x t) (signal-condition y t))))",
	"(block a (with-handler (lambda (c) (return-from a (list 'outer (kind c)))) (with-handler (lambda (c) (car 'in-handler)) (cdr 'in-body))))",
	"(block a (with-handler (lambda (c) (return-from a (list 'first (kind c)))) (car x)) (rec 'no))",
	"(list (block a (with-handler (lambda (c) (return-from a 1)) (car x))) (block a (with-handler (lambda (c) (return-from a 2)) (cdr y))))",
	"(block a (with-handler (lambda (c) (return-from a (kind c))) (let ((v 1)) (setq v (car (list 1))) (cdr v))))",
	"(defun g (n) (if (= n 0) (car x) (+ 1 (g (- n 1))))) (block a (with-handler (lambda (c) (return-from a (kind c))) (g 3)))",
	"(defun g (n) (if (= n 0) (signal-condition 'c t) (+ 1 (g (- n 1))))) (with-handler (lambda (c) (rec c) (continue-condition c x)) (list (g 0) (g 2)))",
	"(with-handler (lambda (c) (rec 'once) (continue-condition c (list (rec y)))) (list (car x) (car y)))",
	"(with-handler (lambda (c) (rec (kind c)) (continue-condition c (rec y))) (list (/ x 0) (/ 1 0)))",
	"(with-handler (lambda (c) (continue-condition c 0)) (if (< x y) (/ 1 0) (/ 2 0)))",
	"(ignore-errors (with-handler (lambda (c) (rec 'h) (rec (kind c))) (car x)) (rec 'no))",
	"(ignore-errors (with-handler (lambda (c) (rec 'outer)) (with-handler (lambda (c) (rec 'inner)) (car x))))",
	"(let ((n 0)) (ignore-errors (with-handler (lambda (c) (setq n (+ n 1))) (let ((v (list 1 (let ((w (car x))) w)))) v))) n)",
	"(with-handler (car 1) (rec 2))",
	"(block a (let ((h (lambda (c) (return-from a (kind c))))) (with-handler h (car x))))",
	"(flet ((h (c) (throw 'k (kind c)))) (catch 'k (with-handler #'h (car x))))",
	"(block a (with-handler (lambda (c) (return-from a 'zero)) ((lambda (p) p))))",
	"(block a (with-handler (lambda (c) (return-from a (kind c))) (funcall x)))",
	"(block a (with-handler (lambda (c) (return-from a (kind c))) (apply 'nofunction '())))",
	"(block a (with-handler (lambda () (return-from a 1)) (car x)))",
	"(tagbody (with-handler (lambda (c) (rec (kind c)) (go next)) (car x)) (rec 'no) next (rec 'next))",
	"(progn (dolist (v (list x y)) (block a (with-handler (lambda (c) (rec (kind c)) (return-from a 1)) (car v)))) 0)",
	"(let ((n 0)) (while (< n 2) (block a (with-handler (lambda (c) (rec (kind c)) (return-from a 1)) (setq n (+ n 1)) (car n)))) n)",
	"(defun try (h) (block a (with-handler (lambda (c) (return-from a (list 'failed (kind c)))) (list 'ok (funcall h))))) (list (try (lambda () (car x))) (try (lambda () y)) (try (lambda () (try (lambda () (/ x 0))))))",
	"(block a (with-handler (lambda (c) (return-from a (kind c))) (with-handler (lambda (c) (continue-condition c 7)) (rec (signal-condition 'k t)) (rec 1)) (cdr 4)))",
	"(with-handler (lambda (c) (rec 'h) (continue-condition c 1)) (dynamic-let ((d 5)) (rec (signal-condition 1 t)) (rec (dynamic d))))",
	"(catch 'c (with-handler (lambda (c) (throw 'c (list 1 (kind c)))) (unwind-protect (car x) (rec 'clean))))",
	"(catch 'c (with-handler (lambda (c) (rec 'h) (throw 'c (kind c))) (unwind-protect (rec 1) (cdr x))))",
	"(block a (with-handler (lambda (c) (return-from a (kind c))) (mapcar (lambda (v) (car v)) (list '(1) x))))",
	"(list (catch 'c (with-handler (lambda (c) (throw 'c 1)) (throw 'c 2))) (block a (with-handler (lambda (c) (rec 'no)) (return-from a 3))))",
}

// K01_Programs: chosen programs.
func K01_Programs() { one(handlerPrograms, xy()...) }

// suspects are calls with one argument v which has to be an instance of the class.
var suspects = [][2]string{
	{"(car v)", "<cons>"}, {"(cdr v)", "<cons>"}, {"(set-car 1 v)", "<cons>"}, {"(set-cdr 1 v)", "<cons>"}, {"(+ 1 v)", ""}, {"(+ v 1)", ""},
	{"(- 1 v)", ""}, {"(* 2 v)", ""}, {"(< 1 v)", ""}, {"(< v 1)", ""}, {"(>= v 1)", ""}, {"(max 1 v)", ""}, {"(min v 1)", ""}, {"(abs v)", ""},
	{"(mod v 2)", "<integer*>"}, {"(rem v 2)", "<integer*>"},
	{"(aref (vector 1 2) v)", "<integer>"}, {"(elt '(1 2 3) v)", "<integer>"}, {"(nth v '(1 2 3))", "<integer>"},
	{"(string-append \"a\" v)", "<string>"}, {"(string= \"a\" v)", "<string>"}, {"(string< v \"a\")", "<string>"}, {"(string-index v \"abc\")", "<string>"}, {"(char-index #\\a v)", "<string>"},
	{"(char-index v \"abc\")", "<character>"}, {"(char= v #\\a)", "<character>"}, {"(char< #\\a v)", "<character>"}, {"(funcall v 1)", "<function>"}, {"(apply v '(1))", "<function>"}, {"(mapcar v '(1))", "<function>"},
	{"(domain-error-object v)", "<domain-error>"}, {"(domain-error-expected-class v)", "<domain-error>"}, {"(undefined-entity-name v)", "<undefined-entity>"}, {"(parse-error-string v)", "<parse-error>"},
	{"(parse-number v)", "<string>"}, {"(get-output-stream-string v)", "<string-builder>"}, {"(array-dimensions v)", "<basic-array*>"}, {"(garef v 0)", "<general-array*>"},
	{"(symbol-name v)", "<symbol>"}, {"(property v 'a)", "<symbol>"}, {"(gethash 1 v)", "<hashtable>"}, {"(length v)", ""}, {"(reverse v)", ""}, {"(elt v 0)", ""}, {"(subseq v 0 0)", ""}, {"(append v '(1))", ""},
	{"(mapcar #'car v)", ""}, {"(member 1 v)", ""}, {"(assoc 1 v)", ""}, {"(close v)", ""}, {"(read-char v)", ""}, {"(format v \"a\")", ""}, {"(format-integer v 1 10)", ""}, {"(format-char (create-string-output-stream) v)", "<character>"},
	{"(format-integer (create-string-output-stream) v 10)", "<integer*>"}, {"(format-float (create-string-output-stream) v)", ""}, {"(create v)", ""}, {"(class-of (create v))", ""}, {"(instancep 1 v)", ""}, {"(subclassp v (class <object>))", ""}, {"(expt v 2)", ""}, {"(sqrt v)", ""},
	{"(floor v)", ""}, {"(ceiling v)", ""}, {"(round v)", ""}, {"(truncate v)", ""}, {"(set-aref 1 v 0)", ""}, {"(aref v 0)", ""}, {"(isqrt v)", ""}, {"(quotient v 2)", ""}, {"(reciprocal v)", ""}, {"(convert v <integer>)", ""},
	{"(probe-file v)", "<string>"}, {"(open-input-file v)", "<string>"}, {"(open-output-file v)", "<string>"}, {"(file-length v 8)", "<string>"}, {"(load v)", "<string>"}, {"(create-string-input-stream v)", "<string>"},
	{"(read-line v)", ""}, {"(read v)", ""}, {"(read-byte v)", ""}, {"(preview-char v)", ""}, {"(format-object v 1 t)", ""}, {"(format-char v #\\a)", ""}, {"(apply #'list v)", ""}, {"(apply #'list 1 v)", ""}, {"(remove-property v 'p)", ""}, {"(string> v \"a\")", "<string>"}, {"(maphash v (create-hashtable))", ""},
	{"(create-list v 1)", ""}, {"(char-code v)", ""}, {"(1+ v)", ""}, {"(evenp v)", ""}, {"(set-property 1 v 'a)", ""},
}

// K01_Accuracy: one wrong argument in a call: the handler runs once, and a domain error names exactly that
// argument and a class which it is no instance of.
func K01_Accuracy() {
	_, err := run(d01setup)
	sym.Assert(err == nil, "setup")
	var v l.Node
	i := sym.Choice("v", d01n+1)
	if i == d01n {
		v = l.Integer(sym.Int64("x"))
		sym.Assume(sym.And(v.(l.Integer) >= -100, v.(l.Integer) < 5))
	} else {
		v = anything(i)
	}
	s := suspects[sym.Choice("call", len(suspects))]
	if i == d01n && strings.HasPrefix(s[0], "(format-float") {
		return
	}
	n, err := run("(let ((n 0)) (list (catch 'k (with-handler (lambda (c) (setq n (+ n 1)) (throw 'k (list c))) "+s[0]+" 'fine)) n))", "v", v)
	if err != nil {
		sym.ObserveStr("error", err.Error())
	}
	sym.Assert(err == nil, "the handler is left by throw: "+s[0])
	e := listElems(n)
	if e[0] == l.Node(S("fine")) {
		sym.Assert(e[1] == l.Node(l.Integer(0)), "handler called without an error: "+s[0])
		if _, ok := v.(l.BigInt); !ok && s[1] != "" && s[1][len(s[1])-2] != '*' {
			sym.Assert(rel("instancep", v, class(s[1])), "an object of another class is accepted: "+s[0])
		}
		return
	}
	sym.Assert(e[1] == l.Node(l.Integer(1)), "handler called once: "+s[0])
	c := listElems(e[0])[0]
	if !rel("instancep", c, class("<domain-error>")) {
		return
	}
	o, err := call("domain-error-object", c)
	sym.Assert(err == nil, "domain-error-object")
	sym.ObserveStr("object", o.String())
	if _, ok := v.(*l.Cons); ok && s[1] == "" && o != v {
		return // a part of the list may be named
	}
	switch v.(type) {
	case l.BigInt:
		return // arithmetic does not accept big integers
	case *l.Array, l.FunctionRef, l.String, l.Rune:
		if s[1] == "" || s[1] == "<function>" {
			return // such objects are accepted, but another argument is not
		}
	}
	sym.Assert(rel("eq", o, v), "the offending object: "+s[0])
	k, err := call("domain-error-expected-class", c)
	sym.Assert(err == nil, "domain-error-expected-class")
	sym.ObserveStr("class", k.String())
	sym.Assert(!rel("instancep", v, k), "the object is an instance of the expected class: "+s[0])
	if s[1] != "" && s[1][len(s[1])-2] != '*' {
		sym.Assert(!rel("instancep", v, class(s[1])), "an instance of the documented class is refused: "+s[0])
	}
}

const dataSetup = `(defun data (c)
  (cond ((instancep c (class <arithmetic-error-class>)) (list 'arithmetic (instancep c (class <division-by-zero>)) (funcall (arithmetic-error-operation c) 7 2) (arithmetic-error-operands c)))
        ((instancep c (class <undefined-entity>)) (list 'undefined (kind c) (undefined-entity-name c) (undefined-entity-namespace c)))
        ((instancep c (class <domain-error>)) (list 'domain (domain-error-object c) (domain-error-expected-class c)))
        ((instancep c (class <simple-error>)) (list 'simple (simple-error-format-string c) (simple-error-format-arguments c)))
        ((instancep c (class <mine>)) (list 'mine (mine-data c)))
        (t (kind c))))
(defun kind (c)
  (cond ((instancep c (class <unbound-variable>)) 'variable) ((instancep c (class <undefined-function>)) 'function)
        ((instancep c (class <end-of-stream>)) 'eos) ((instancep c (class <control-error>)) 'control) ((instancep c (class <parse-error>)) 'parse)
        ((instancep c (class <program-error>)) 'program) ((instancep c (class <error>)) 'error) (t c)))
(defclass <mine> (<error>) ((a :initarg a :reader mine-data)))
(defun one (v) v) (defun opt (v &rest w) w) (defmacro two (a b) (list 'list a b))
(defgeneric gen (v)) (defmethod gen ((v <string>)) v)
(defun s (v) (create-string-input-stream v))
(defglobal boxed (lambda (v) v))
(defglobal reached nil)
(defun try (f) (setq reached nil)
  (let ((got (catch 'try (with-handler (lambda (c) (throw 'try (list (data c)))) (funcall f) (throw 'try 'none)))))
    (list got reached)))`

// dataForms are failing forms and the data of their conditions.
var dataForms = [][2]string{
	{"(/ x 0)", "(list 'arithmetic t 3 (list x 0))"}, {"(/ 1.5 0)", "(list 'arithmetic t 3 (list 1.5 0))"}, {"(/ x 0.0)", "(list 'arithmetic t 3 (list x 0.0))"}, {"(/ 2.5 0.0)", "(list 'arithmetic t 3 (list 2.5 0.0))"},
	{"(/ 8 2 0)", "(list 'arithmetic t 3 (list 4 0))"}, {"(/ 8 0 y)", "(list 'arithmetic t 3 (list 8 0))"}, {"(/ 9.0 2 0 x)", "(list 'arithmetic t 3 (list 4.5 0))"},
	{"(mod x 0)", "(list 'arithmetic t 1 (list x 0))"}, {"(mod 1.5 0)", "(list 'arithmetic t 1 (list 1.5 0))"}, {"(mod x 0.0)", "(list 'arithmetic t 1 (list x 0.0))"},
	{"(rem x 0)", "(list 'arithmetic t 1 (list x 0))"}, {"(rem 2.5 0)", "(list 'arithmetic t 1 (list 2.5 0))"}, {"(rem 1.5 0.0)", "(list 'arithmetic t 1 (list 1.5 0.0))"},
	{"(one none)", "(list 'undefined 'variable 'none 'variable)"}, {"(list x none y)", "(list 'undefined 'variable 'none 'variable)"}, {"(setq none x)", "(list 'undefined 'variable 'none 'variable)"},
	{"(dynamic none)", "(list 'undefined 'variable 'none 'variable)"}, {"(let ((w one)) w)", "(list 'undefined 'variable 'one 'variable)"},
	{"(lost x)", "(list 'undefined 'function 'lost 'function)"}, {"(lost none)", "*"}, {"#'lost", "(list 'undefined 'function 'lost 'function)"}, {"(funcall #'lost x)", "(list 'undefined 'function 'lost 'function)"},
	{"(function lost)", "(list 'undefined 'function 'lost 'function)"}, {"(mapcar #'lost '(1))", "(list 'undefined 'function 'lost 'function)"}, {"(boxed 1)", "(list 'undefined 'function 'boxed 'function)"},
	{"(flet ((lost (v) v)) (lost (lost2 x)))", "(list 'undefined 'function 'lost2 'function)"}, {"(progn (flet ((lost (v) v)) (lost x)) (lost y))", "(list 'undefined 'function 'lost 'function)"},
	{"(assure <integer> 'q)", "(list 'domain 'q (class <integer>))"}, {"(the <string> x)", "(list 'domain x (class <string>))"}, {"(assure <list> boxed)", "(list 'domain boxed (class <list>))"},
	{"(error \"a ~a\" x y)", "(list 'simple \"a ~a\" (list x y))"}, {"(error \"none\")", "(list 'simple \"none\" '())"}, {"(cerror \"go\" \"b ~a\" y)", "(list 'simple \"b ~a\" (list y))"},
	{"(signal-condition (create (class <mine>) 'a x) nil)", "(list 'mine x)"}, {"(signal-condition (create (class <mine>) 'a (list x)) t)", "(list 'mine (list x))"}, {"(signal-condition x nil)", "x"},
	{"(return-from away x)", "'control"}, {"(throw 'away x)", "'control"}, {"(tagbody (go away))", "'control"}, {"(funcall (block away (lambda () (return-from away 1))))", "'control"}, {"(funcall (catch 'away (lambda () (throw 'away 1))))", "'control"},
	{"(car)", "'program"}, {"(car x y)", "'program"}, {"(one)", "'program"}, {"(one x y)", "'program"}, {"(opt)", "'program"}, {"((lambda (v) v))", "'program"}, {"((lambda (v) v) 1 2)", "'program"}, {"(funcall boxed)", "'program"},
	{"(apply boxed (list x y))", "'program"}, {"(two x)", "*"}, {"(two x y 3)", "*"}, {"(if)", "'program"}, {"(quote)", "*"}, {"(mapcar (lambda (v w) v) '(1))", "'program"}, {"(cons x)", "'program"},
	{"(read-char (s \"\"))", "'eos"}, {"(read-line (s \"\"))", "'eos"}, {"(read (s \"\"))", "'eos"}, {"(read (s \" ; none\"))", "'eos"}, {"(let ((i (s \"a\"))) (read-char i) (read-char i))", "'eos"},
	{"(parse-number \"a\")", "'parse"}, {"(parse-number \"\")", "'parse"}, {"(parse-number \"1x\")", "'parse"}, {"(parse-number \"1 2\")", "'parse"}, {"(convert \"a\" <integer>)", "'parse"}, {"(convert \"a\" <float>)", "'parse"},
	{"(gen x)", "*"}, {"(gen)", "*"},
	{"(car x)", "(list 'domain x (class <cons>))"}, {"(cdr boxed)", "(list 'domain boxed (class <cons>))"}, {"(+ x 'q)", "*"}, {"(string-append \"a\" 'q)", "(list 'domain 'q (class <string>))"}, {"(set-car x y)", "(list 'domain y (class <cons>))"},
	{"(setf (car x) y)", "(list 'domain x (class <cons>))"}, {"(funcall 'q x)", "(list 'domain 'q (class <function>))"}, {"(funcall x)", "(list 'domain x (class <function>))"}, {"(create-string-input-stream x)", "(list 'domain x (class <string>))"},
}

// dataContexts are the places at which the form is evaluated. What follows it is never reached.
var dataContexts = []string{
	"$", "(progn (rec 1) $ (setq reached t))", "(if $ (setq reached t) (setq reached t))", "(let ((q $)) (setq reached t))", "(list 1 $ (setq reached t))", "(one (unwind-protect $ 3))",
	"(dolist (w '(1 2)) $ (setq reached t))", "(while $ (setq reached t))", "(block b (catch 'c (tagbody $ (setq reached t))))", "(funcall (lambda () $ (setq reached t)))", "(case $ ((1) (setq reached t)) (t (setq reached t)))",
	"(cond ($ (setq reached t)) (t (setq reached t)))", "(and $ (setq reached t))", "(or $ (setq reached t))", "(dynamic-let ((w $)) (setq reached t))", "(labels ((lf () $ (setq reached t))) (lf) (setq reached t))", "(with-handler boxed $ (setq reached t))",
}

// K01_Data: the condition carries what the documentation promises, wherever the form stands: the operation and the
// operands of a division, the name and the kind of an undefined entity, the object and its expected class, the
// format string and the arguments of an error; and nothing after the failing form is evaluated.
func K01_Data() {
	f := dataForms[sym.Choice("form", len(dataForms))]
	i := sym.Choice("context", len(dataContexts))
	kv := xy()
	_, err := run(dataSetup + " (defun rec (v) v)")
	sym.Assert(err == nil, "setup")
	src := strings.Replace(dataContexts[i], "$", f[0], 1)
	if i == len(dataContexts)-1 {
		// a handler of its own: it is the innermost, and returns to no one
		src = strings.Replace(src, "boxed", "(lambda (c) (throw 'try (list (data c))))", 1)
	}
	got, err := run("(try (lambda () "+src+"))", kv...)
	if err != nil {
		sym.ObserveStr("error", err.Error())
	}
	sym.Assert(err == nil, "the handler leaves the form: "+f[0])
	e := listElems(got)
	sym.Assert(isNil(e[1]), "nothing after the form is evaluated: "+f[0])
	c, ok := e[0].(*l.Cons)
	sym.Assert(ok, "the handler is called: "+f[0])
	if f[1] == "*" {
		return
	}
	want, err := run(f[1], kv...)
	sym.Assert(err == nil, "expected data")
	sym.Assert(sameValue(c.Car, want), "the data of the condition: "+f[0])
}

func class(name string) l.Node {
	n, err := run("(class " + name + ")")
	sym.Assert(err == nil, "class "+name)
	return n
}

func listElems(n l.Node) []l.Node {
	var r []l.Node
	for c, ok := n.(*l.Cons); ok; c, ok = c.Cdr.(*l.Cons) {
		r = append(r, c.Car)
	}
	return r
}
