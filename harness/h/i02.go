package h

import (
	"strings"

	l "github.com/hymkor/gmnlisp"
	"gmnverif/sym"
)

var choiceForms = []string{
	"(if (progn (rec 1) (< a b)) $ (rec 2))",
	"(if (progn (rec 1) (= a z)) (rec 2) $)",
	"(if (progn (rec 1) (< a b)) $)",
	"(if $ (rec 'yes) (rec 'no))",
	"(cond ((progn (rec 1) (< a b)) (rec 2) $) ((progn (rec 3) (< b z)) (rec 4)) (t (rec 5)))",
	"(cond ((progn (rec 1) (< a b)) (rec 2)) ($ (rec 3)))",
	"(cond ($) ((progn (rec 3) (= a b)) (rec 4)) ((rec 'last)))",
	"(and (progn (rec 1) (< a b)) $ (rec 2))",
	"(or (progn (rec 1) (< a b)) $ (rec 2))",
	"(and (rec 1) $)",
	"(or (rec nil) $)",
	"(when (progn (rec 1) (< a z)) (rec 2) $)",
	"(unless (progn (rec 1) (< a z)) $ (rec 2))",
	"(when $ (rec 1))",
	"(unless $ (rec 1))",
	"(case (rec a) ((1 2) (rec 1)) ((3) (rec 2) $) ((3 4) (rec 3)) (t (rec 4)))",
	"(case $ ((nil) (rec 1)) ((t) (rec 2)) (t (rec 3)))",
	"(case (rec (< a b)) ((nil) $) ((t) 'yes))",
	"(case $ (() (rec 'empty)) ((nil) (rec 'nil)) ((nil 0 t) (rec 1)) (t (rec 2)))",
	"(case-using #'= (rec a) ((1 2) (rec 1)) ((3) $) (t (rec 4)))",
	"(progn (rec 1) $ (rec 2))",
	"(prog1 $ (rec 1) (rec 2))",
	"(prog2 (rec 1) $ (rec 2))",
	"(prog1 (rec 1) $)",
	"(list (rec 1) $ (rec 2))",
	"(let ((x (rec 1)) (y $)) (rec 3) (list y x))",
	"((lambda (x y) (rec 3) (list x y)) $ (rec 2))",
	"(not $)",
	"(setq z $)",
}

var choiceLeaves = []string{"(rec a)", "nil", "(< a z)", "'nil", "0", "(rec '(nil))", "(car 5)", "(and)", "(or)"}

// I02_Nested: nestings of all conditional and sequencing forms; each test and branch reports its evaluation.
func I02_Nested() {
	agreeRef("(list "+gen("form", choiceForms, choiceLeaves, tierDepth(2))+" z)", oneNil(abz())...)
}

var choicePrograms = []string{
	"(progn)", "(list (when t) (when nil) (unless t) (unless nil))", "(cond)", "(cond (nil 1))", "(case a)", "(case a ((1) 2))",
	"(let () )", "((lambda ()))", "(list (progn nil) (progn 1 nil))",
	"(list (if nil 1) (if '() 1 2) (if 0 1 2) (if \"\" 1 2) (if 'nil 1 2) (if '(nil) 1 2) (if #\\a 1 2) (if 0.0 1 2))",
	"(list (rec 1) (rec 2) (rec 3) (rec 4) (rec 5))",
	"(+ (rec 1) (* (rec 2) (rec 3)))",
	"(funcall (progn (rec 'f) (lambda (x y) (rec 'body) (+ x y))) (rec a) (rec b))",
	"(apply (progn (rec 'f) #'list) (rec a) (rec b) (rec (list z)))",
	"(cons (rec a) (cons (rec b) (rec z)))",
	"(let ((x 0)) (list (setq x (+ x 1)) (setq x (+ x 1)) x))",
	"(let ((x 0)) (+ (progn (setq x 5) x) (* x 10)))",
	"(flet ((f (x y) (list x y))) (f (rec 1) (rec 2)))",
	"(defun f (x y) (rec 'in) (list y x)) (f (rec 1) (f (rec 2) (rec 3)))",
	"(case (+ a b) ((0) 'zero) ((1 2 3) 'few) (t 'many))",
	"(case 'x ((a b) 1) ((x y) 2) (t 3))",
	"(list (case nil (() 'empty) ((nil) 'nil) (t 'other)) (case nil (() 1)) (case-using #'eq nil (() 'empty) (t 'other)) (case nil (nil 1) (t 2)))",
	"(case #\\a ((#\\A) 1) ((#\\a) 2))",
	"(case 1 ((1.0) 'float) ((1) 'integer))",
	"(case a ((1) 1) ((1) 2))",
	"(case-using #'< a ((b) 1) ((z) 2) (t 3))",
	"(case-using (lambda (x y) (rec y) (= x y)) a ((1 2) 'low) ((3) 'three))",
	"(and (< a b) (< b z) (rec (< a z)))",
	"(or (< a b) (< b z) (rec (< z a)))",
	"(list (and nil (car 1)) (or t (car 1)) (cond (t 1) ((car 1) 2)) (if t 1 (car 1)))",
	"(prog1 (rec a) (setq a b) (rec a))", "(let ((x a)) (prog1 x (setq x b)))", "(prog2 (rec 1) (rec a) (rec 2) (rec 3))",
	"(list 1 (progn (rec 2) (car nil)) (rec 3))", "(progn (rec 1) (car nil) (rec 3))", "(cond ((car nil) 1) (t (rec 2)))",
	"(and (rec 1) (car nil) (rec 2))", "(or nil (car nil) (rec 2))", "(if (car nil) (rec 1) (rec 2))",
	"(when (progn (rec 1) nil) (rec 2))", "(unless (progn (rec 1) 5) (rec 2))",
	"(if t (progn (rec 1) (rec 2)) (rec 3))",
	"(list (not nil) (not t) (not 0) (null '()) (null '(nil)))",
	"(progn (dotimes (i 3) (rec (cond ((= i a) 'a) ((= i b) 'b) (t i)))) 0)",
}

// I02_Programs: chosen programs with symbolic data.
func I02_Programs() { one(choicePrograms, oneNil(abz())...) }

// I02_Order: calls of functions of every kind evaluate each argument once, in order, also when one fails.
func I02_Order() {
	n := 1 + sym.Choice("n", 4)
	fail := sym.Choice("fail", n+1)
	callee := []string{"(list %)", "(vector %)", "(funcall #'list %)", "(apply #'list % nil)", "((lambda (&rest r) r) %)", "(f %)",
		"(funcall (lambda (&rest r) r) %)", "(flet ((g (&rest r) r)) (g %))", "(labels ((g (&rest r) r)) (g %))", "(append %)",
		"(string-append %)", "(+ %)", "(max %)", "(m %)", "(generic %)"}
	c := callee[sym.Choice("callee", len(callee))]
	args := ""
	for i := 0; i < n; i++ {
		if i == fail {
			args += " (progn (rec 'bad) (car 0))"
		} else {
			args += " (rec " + string(rune('0'+i)) + ")"
		}
	}
	var src string
	for _, r := range c {
		if r == '%' {
			src += args
		} else {
			src += string(r)
		}
	}
	var trace []l.Node
	_, err := hosted(&trace).Interpret(ctx, "(defun f (&rest r) r) (defmacro m (&rest r) (cons 'list r)) (defgeneric generic (x &rest r)) (defmethod generic ((x <object>) &rest r) r) "+src)
	want := n
	if fail < n {
		want = fail + 1
		sym.Assert(err != nil, "the error of an argument is lost: "+c)
	}
	sym.Assert(len(trace) == want, "arguments evaluated: "+c)
	for i, v := range trace {
		if i == fail {
			sym.Assert(v == l.Node(S("bad")), "order: "+c)
		} else {
			sym.Assert(v == l.Node(l.Integer(i)), "order: "+c)
		}
	}
}

var choicePlaces = []string{
	"(defun f () %) (list (f) (f))", "(defun f (a) (rec 'in) %) (list (f b) a)", "(labels ((f (n) (if (= n 0) % (f (- n 1))))) (list (f 1)))",
	"(flet ((f (&rest a) %)) (list (f 1 2)))", "((lambda (b) %) a)", "(let ((a z) (q 1)) %)", "(let* ((q 1) (b q)) %)",
	"(block q % )", "(catch 'q %)", "(unwind-protect % (rec 'clean))", "(with-handler (lambda (c) (rec 'handler) (throw 'out 'caught)) %)",
	"(dynamic-let () %)", "(for ((i 0 (+ i 1))) ((= i 2) %) (rec i))", "(for ((i 0 (+ i 1))) ((= i 2) 0) (rec %))",
	"(progn (dotimes (i 2) (rec %)) 0)", "(dolist (i '(1 nil) %) (rec i))", "(let ((i 0)) (while (< i 2) (rec %) (setq i (+ i 1))) i)",
	"(mapcar (lambda (b) %) (list a b))", "(apply (lambda (&rest z) %) (list a b))", "(progn (tagbody (rec %) (if (< a b) (go out)) (rec 2) out) 0)",
	"(defmacro m (x) (list 'progn x '%)) (list (m 1) (m (rec 2)))", "(defun f () (cond (%) (t 'last))) (f)", "(defun f () (cond ((= a b)) (t %))) (f)",
	"(defun f () (case a ((1) %) (t (rec 'other) %))) (f)", "(defun f () (if (= a b) % (progn (rec 1) %))) (list (f))",
	"(defun f () (let ((a b)) (let* ((z a)) (rec z) %))) (f)",
}

// I02_Places: every conditional and sequencing form in each place of a program where forms are evaluated.
func I02_Places() {
	place := choicePlaces[sym.Choice("place", len(choicePlaces))]
	leaves := choiceLeaves
	if !sym.Thorough() {
		leaves = leaves[:2]
	}
	kv := abz()
	if sym.Thorough() {
		kv = oneNil(kv)
	}
	agreeRef("(catch 'out (list z (let () "+strings.ReplaceAll(place, "%", gen("form", choiceForms, leaves, 1))+")))", kv...)
}
