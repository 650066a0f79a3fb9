package h

import (
	"context"
	"strings"

	l "github.com/hymkor/gmnlisp"
	"gmnverif/sym"
)

// complete are forms with the least and the greatest number of operands (-1: no limit).
var complete = []struct {
	min, max int
	form     string
}{
	{1, 1, "(quote a)"}, {2, 3, "(if t (rec 2) 3)"}, {1, -1, "(let ((y 1)) y)"}, {1, -1, "(let* ((y 1)) y)"},
	{1, -1, "(lambda (y))"}, {2, -1, "(defun t01f (y))"}, {2, -1, "(defmacro t01m (y))"}, {2, 2, "(defglobal t01g 1)"},
	{2, 2, "(defconstant t01c 1)"}, {2, 2, "(defdynamic t01d 1)"}, {1, -1, "(dynamic t01e)"}, {1, -1, "(dynamic-let ((t01e 2)) 1)"},
	{1, -1, "(flet ((f (y) y)) (f 1))"}, {1, -1, "(labels ((f (y) y)) (f 1))"}, {1, -1, "(block a 1)"}, {2, -1, "(return-from b 1)"},
	{1, -1, "(catch 'k 1)"}, {2, -1, "(throw 'k 1)"}, {1, -1, "(go out)"}, {1, -1, "(unwind-protect 1)"}, {1, -1, "(case 1 ((1) 2))"},
	{2, -1, "(case-using #'= 1 ((1) 2))"}, {1, -1, "(while nil 1)"}, {2, -1, "(for ((i 0 (+ i 1))) ((> i 1)) 1)"}, {1, -1, "(dotimes (i 1) 1)"},
	{1, -1, "(dolist (i '(1)) 1)"}, {1, 1, "(function car)"}, {1, -1, "(class <integer>)"}, {2, -1, "(the <integer> 1)"}, {2, -1, "(assure <integer> 1)"},
	{2, -1, "(convert 1 <float>)"}, {1, -1, "(with-handler (lambda (c) 1) 2)"}, {1, -1, "(prog1 1 2)"}, {2, -1, "(prog2 1 2 3)"}, {1, -1, "(when t 1)"},
	{1, -1, "(unless t 1)"}, {2, -1, "(setf x 1)"}, {1, -1, "(incf x)"}, {1, -1, "(decf x)"}, {1, -1, "(defclass <t01> ())"}, {2, 2, "(defgeneric t01h (y))"},
	{2, -1, "(defmethod t01k ((y <integer>)) 1)"}, {1, -1, "(with-standard-input (create-string-input-stream \"a\") 1)"},
	{1, -1, "(with-open-input-file (s \"/mem/none\") 1)"}, {1, -1, "(with-open-output-file (s \"/mem/none/a\") 1)"}, {1, 1, "(macroexpand '(when t 1))"}, {1, 1, "(eval 1)"},
	{2, -1, "(apply #'list '(1))"}, {1, -1, "(funcall #'list)"}, {1, 1, "(not t)"}, {2, 2, "(cons 1 2)"}, {2, -1, "(mapcar #'list '(1))"},
	{1, -1, "((lambda (y &rest z) y) 1)"}, {2, 2, "((lambda (y z) y) 1 2)"}, {0, 0, "((lambda ()))"},
}

const t01setup = "(defdynamic t01e 0) (defgeneric t01k (y))"

// refused evaluates a form which is not well formed: one call of the handler with an error, no value and nothing defined.
func refused(form l.Node, x l.Node) {
	if _, err := W.Interpret(ctx, t01setup); err != nil {
		panic(err)
	}
	var trace []l.Node
	w := W.Flet(l.Functions{S("rec"): l.Function1(func(_ context.Context, _ *l.World, a l.Node) (l.Node, error) {
		trace = append(trace, a)
		return a, nil
	})}).Let(l.Variables{S("x"): x, S("form"): form})
	r, err := w.Interpret(ctx, "(let ((n 0)) (list (catch 'h (with-handler (lambda (c) (setq n (+ n 1)) (throw 'h (list c))) (catch 'k (block b (tagbody (block c (return-from b (eval form))) out))) 'no-error)) n))")
	if err != nil {
		sym.ObserveStr("error", err.Error())
	}
	sym.Assert(err == nil, "an error the handler does not get")
	e := listElems(r)
	sym.Assert(e[0] != l.Node(S("no-error")), "a form that is not well formed is an error")
	sym.Assert(e[1] == l.Node(l.Integer(1)), "the handler is called once")
	sym.Assert(rel("instancep", listElems(e[0])[0], class("<error>")), "an instance of <error>")
	v, err := w.Interpret(ctx, "(dynamic t01e)")
	sym.Assert(err == nil && sameValue(v, l.Integer(0)), "an assignment")
	for _, name := range []string{"t01f", "t01m", "t01h"} {
		_, err := W.GetFunc(S(name))
		sym.Assert(err != nil, "a definition: "+name)
	}
	for _, name := range []string{"t01g", "t01c", "<t01>"} {
		_, err := W.Get(S(name))
		sym.Assert(err != nil, "a definition: "+name)
	}
	_, err = W.Interpret(ctx, "(dynamic t01d)")
	sym.Assert(err != nil, "a definition: t01d")
	_, err = W.Interpret(ctx, "(t01k 1)")
	sym.Assert(err != nil, "a definition of a method")
}

// plus replaces what follows the first n elements of a list.
func plus(list l.Node, n int, tail l.Node) l.Node {
	c, ok := list.(*l.Cons)
	if n == 0 || !ok {
		return tail
	}
	return &l.Cons{Car: c.Car, Cdr: plus(c.Cdr, n-1, tail)}
}

func atoms(label string) l.Node {
	k := sym.Choice(label, 5)
	return []l.Node{l.Integer(sym.Int64("atom")), l.String("s"), S("atom"), l.Rune('a'), l.Float(1.5)}[k]
}

// T01_Operands: every special form and kind of call with too few or too many operands, or with an operand list that ends
// in an atom.
func T01_Operands() {
	c := complete[sym.Choice("form", len(complete))]
	form := source(c.form)
	have := len(listElems(form)) - 1
	x := l.Integer(sym.Int64("x"))
	switch sym.Choice("how", 3) {
	case 0:
		n := sym.Choice("operands", 3)
		if n >= c.min {
			return
		}
		form = plus(form, n+1, l.Null)
	case 1:
		if c.max < 0 {
			return
		}
		form = plus(form, have+1, l.List(l.Integer(sym.Int64("more"))))
		if have < c.max {
			form = plus(form, c.max+1, l.List(l.Integer(1), l.Integer(2)))
		}
	case 2:
		n := sym.Choice("operands", 3)
		if n >= c.min {
			return
		}
		form = plus(form, n+1, atoms("tail"))
	}
	sym.ObserveStr("form", printed(form))
	refused(form, x)
}

// holes are forms with % where a name is required.
var holes = []string{
	"(setq % 1)", "(setq x 1 % 2)", "(let ((% 1)) 2)", "(let* ((% 1)) 2)", "(lambda (%) 1)", "(lambda (y %) 1)", "(lambda (&rest %) 1)", "(defun % () 1)", "(defun t01f (%) 1)", "(defmacro % () 1)", "(defmacro t01m (%) 1)",
	"(defglobal % 1)", "(defconstant % 1)", "(defdynamic % 1)", "(dynamic %)", "(dynamic-let ((% 1)) 1)", "(flet ((% () 1)) 1)", "(flet ((f (%) 1)) 1)", "(labels ((% () 1)) 1)", "(block % 1)", "(return-from % 1)", "(go %)",
	"(for ((% 0)) (t) 1)", "(dotimes (% 1) 1)", "(dolist (% '(1)) 1)", "(class %)", "(the % 1)", "(assure % 1)", "(defclass % () ())", "(defclass <t01> (%) ())", "(defclass <t01> () (%))", "(defgeneric % (y))", "(defgeneric t01h (y %))", "(defgeneric t01h (y &rest %))", "(defmethod t01k ((y <integer>) &rest %) 1)", "(defmethod t01k ((y <integer>) &rest (z %)) 1)", "(defclass <t01> () ((%)))", "(defclass <t01> () ((a :reader %)))", "(defclass <t01> () ((a :writer %)))", "(defclass <t01> () ((a :accessor %)))", "(defclass <t01> () ((a :boundp %)))", "(defclass <t01> () ((a :initarg %)))", "(defmethod % (y) 1)",
	"(defmethod t01k ((% <integer>)) 1)", "(defmethod t01k ((y %)) 1)", "(psetq % 1)", "(with-open-input-file (% \"/mem/none\") 1)", "(convert 1 %)", "(instancep 1 %)", "(% 1)", "(%)", "(funcall '% 1)", "(apply '% '(1))",
}

func fill(n l.Node, v l.Node) l.Node {
	if c, ok := n.(*l.Cons); ok {
		return &l.Cons{Car: fill(c.Car, v), Cdr: fill(c.Cdr, v)}
	}
	if n == l.Node(S("%")) {
		return v
	}
	return n
}

// T01_Names: an atom that is no symbol where a name is required.
func T01_Names() {
	form := source(holes[sym.Choice("form", len(holes))])
	v := atoms("name")
	if v == l.Node(S("atom")) {
		v = l.String("")
	}
	sym.ObserveStr("form", printed(fill(form, v)))
	refused(fill(form, v), l.Integer(sym.Int64("x")))
}

// lists are forms with % where a list is required, as a whole or from some element on.
var lists = []string{
	"(let % 1)", "(let ((y 1) . %) 1)", "(let ((y 1 . %)) 1)", "(let ((y . %)) 1)", "(let* % 1)", "(let* ((y 1) . %) 1)", "(lambda % 1)", "(lambda (y . %) 1)", "(defun t01f % 1)", "(defun t01f (y . %) 1)", "(defmacro t01m % 1)", "(defmacro t01m (y . %) 1)",
	"(dynamic-let % 1)", "(dynamic-let ((t01e 1) . %) 1)", "(dynamic-let ((t01e . %)) 1)", "(flet % 1)", "(flet ((f () 1) . %) 1)", "(flet ((f . %)) 1)", "(labels % 1)", "(labels ((f () 1) . %) 1)", "(for % (t) 1)", "(for ((i 0) . %) (t) 1)",
	"(cond %)", "(cond (nil 1) %)", "(cond (t 1 . %))", "(case 1 %)", "(case 1 ((2 . %) 3))", "(case-using #'= 1 ((2 . %) 3))", "(defclass <t01> % ())", "(defclass <t01> () %)", "(defclass <t01> () ((a . %)))", "(defgeneric t01h %)", "(defgeneric t01h (y . %))",
	"(defmethod t01k % 1)", "(with-open-input-file % 1)", "(with-open-input-file (s . %) 1)", "(apply #'list '%)", "(apply #'list 1 '(2 . %))", "(mapcar #'list '%)", "(mapcar #'list '(1 . %))", "(funcall #'list . %)", "(list 1 (list 2 . %))",
	"(progn (rec 1) . %)", "(tagbody 1 . %)", "(block b 1 . %)", "(eval '(list . %))", "(car '(1) . %)", "(car . %)", "(+ 1 2 . %)", "(rec . %)", "(rec 1 . %)", "((lambda (y) y) . %)", "(catch 'k 2 . %)", "(with-handler (lambda (c) c) 1 . %)", "(dolist (i '(1 . %)) 1)", "(dolist (i '%) 1)",
	"(setq x)", "(psetq x)", "(psetq x 1 t01q)", "(setf x)", "(let ((y)) %)", "(let ((y 1 2)) %)", "(let* ((y)) %)", "(lambda (y &rest) %)", "(lambda (y y) %)", "(lambda (y &rest y) %)", "(defun t01f (y y) %)", "(defun t01f (y &rest) %)", "(flet ((f (y y) %)) 1)", "(labels ((f (y &rest) %)) 1)",
	"(defmacro t01m (y y) %)", "(dynamic-let ((t01e)) %)", "(flet ((f)) %)", "(cond ())",
	"(defgeneric t01h (y &rest))", "(defgeneric t01h (y &rest z w))", "(defmethod t01k ((y)) %)", "(defmethod t01k ((y <integer> 2)) %)", "(defmethod t01k ((y <integer>) &rest) %)", "(defmethod t01k ((y <integer>) &rest z w) %)", "(defmethod t01k ((y <integer>) . %) 1)", "(defmethod t01k ((y . %)) 1)", "(defmethod car (y) %)",
	"(defclass <t01> (<t01-nosuch>) ())", "(defclass <t01> () ((a :initarg)))", "(defclass <t01> () ((a :t01-nosuch %)))", "(defclass <t01> () ((a :reader)))", "(defclass <t01> () (()))", "(defclass <t01> () (() (a)))", "(defclass <t01> () ((a) . %))", "(defclass <t01> () ((a :initform 1 . %)))", "(defclass <t01> (% . %) ())",
	"(and t . %)", "(or nil . %)", "(while t . %)",
}

// T01_Lists: an atom where a list or the rest of one is required.
func T01_Lists() {
	text := lists[sym.Choice("form", len(lists))]
	form, v := source(text), atoms("rest")
	if _, ok := v.(l.String); ok && (strings.Contains(text, "#'list ") || strings.Contains(text, "case-using")) {
		return // a string is a sequence, and these accept one
	}
	sym.ObserveStr("form", printed(fill(form, v)))
	refused(fill(form, v), l.Integer(sym.Int64("x")))
}

func source(s string) l.Node {
	n, err := readOne(s)
	if err != nil {
		panic(s)
	}
	return n
}
