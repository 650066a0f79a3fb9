package h

import (
	"strings"

	l "github.com/hymkor/gmnlisp"
	"gmnverif/sym"
)

var tailForms = []string{
	"(if (< n 1) (rec (list 'end x)) $)",
	"(if (progn (rec n) (>= n 1)) $ (rec x))",
	"(progn (rec (list n x)) $)",
	"(cond ((< n 1) (rec 'end) x) ((= n x) (rec 'eq) $) (t $))",
	"(cond ((progn (rec 'a) nil) 1) ((rec (< 0 n)) (rec 'b) $))",
	"(let ((n (- n 1)) (x (+ x n))) (rec n) $)",
	"(let* ((x (+ x 1)) (n n) (y x)) $)",
	"(let ((g (lambda () (list n x)))) (setq k (cons g k)) $)",
	"(when (> n 0) (rec 'when) $)",
	"(case n ((0) 'zero) ((1) (rec 1) $) (t $))",
	"(or (if (< n 1) 'stop) $)",
	"(and (> n 0) $)",
	"(list $)",
	"(catch 'c (rec 'in) $)",
	"(block b (unwind-protect $ (rec (list 'clean n))))",
	"(dynamic-let ((d n)) (rec (dynamic d)) $)",
	"(prog1 $ (rec 'after))",
	"(cond ((< n 1) x) ($))",
}

var tailLeaves = []string{
	"(@ (- n 1) (+ x 1))",
	"(@ (progn (rec 'arg1) (- n 1)) (progn (rec 'arg2) n))",
	"(@ (- n 1))",
	"(@ (- n 1) x n x)",
	"(progn (setq n (- n 1) x (+ x n)) (@ n x))",
	"(apply #'@ (- n 1) (list x))",
	"(if (= x 1) (throw 'c x) (@ (- n 1) (- x 1)))",
	"(@ (- n 1) (car x))",
}

// tailDefs are the ways to define and to call the function; @ is its name, * stands for the rest parameter.
var tailDefs = []string{
	"(defun @ (n x*) (if (< n -1) (return-from out x)) %) (list (@ a b) (@ 1 z))",
	"(labels ((@ (n x*) (if (< n -1) (return-from out x)) %)) (list (@ a b) (@ 1 z)))",
	"(flet ((@ (n x*) (rec 'outer) (list n x))) (flet ((@ (n x*) (if (< n -1) (return-from out x)) %)) (list (@ a b))))",
	"(labels ((@ (n x*) (if (< n -1) (return-from out x)) %)) (let ((h #'@)) (flet ((@ (n x) (rec 'wrong) 1)) (list (funcall h a b)))))",
	"(defun @ (n x*) (if (< n -1) (return-from out x)) %) (mapcar #'@ (list a 1) (list b z))",
}

// I04_Nested: recursive definitions with calls in and out of tail position, of all parameter shapes, against an evaluator
// that knows no tail calls.
func I04_Nested() {
	var def, rest string
	if sym.Thorough() {
		def = tailDefs[sym.Choice("def", len(tailDefs))]
		rest = []string{"", " &rest r"}[sym.Choice("rest", 2)]
	} else {
		k := sym.Choice("def", 3)
		def = []string{tailDefs[0], tailDefs[1], tailDefs[3]}[k]
		rest = []string{" &rest r", "", ""}[k]
	}
	outer := tailForms[sym.Choice("outer", len(tailForms))]
	forms, leaves := tailForms, tailLeaves
	if !sym.Thorough() {
		forms, leaves = tailForms[1:8], tailLeaves[:6]
	}
	body := strings.ReplaceAll(outer, "$", gen("form", forms, leaves, 1))
	if rest != "" {
		body = "(rec r) " + body
	}
	tail(strings.NewReplacer("*", rest, "%", body).Replace(def))
}

func tail(src string) {
	kv := abz()
	a := kv[1].(l.Integer)
	sym.Assume(a >= -1 && a <= 2)
	agreeRef("(defdynamic d 0) (let ((k nil)) (rec (catch 'c (block out "+strings.ReplaceAll(src, "@", "f")+
		"))) (list (dynamic d) (mapcar (lambda (g) (funcall g)) k)))", kv...)
}

var tailPrograms = []string{
	"(defun @ (n acc) (if (= n 0) acc (@ (- n 1) (cons (lambda () n) acc)))) (mapcar (lambda (h) (funcall h)) (@ 3 nil))",
	"(defun @ (n acc) (if (= n 0) acc (let ((m (* n a))) (@ (- n 1) (cons (lambda (d) (setq m (+ m d))) acc))))) (list (mapcar (lambda (h) (funcall h 1)) (@ 3 nil)))",
	"(defun @ (n) (if (> n 0) (progn (defun @ (n) (list 'new n)) (@ (- n 1))) 'old)) (list (@ 2) (@ 2))",
	"(defun @ (n) (if (> n 0) (let ((h #'@)) (defun @ (n) (list 'new n)) (funcall h (- n 2))) (list 'old n))) (list (@ 2) (@ 2))",
	"(defun ev (n) (if (= n 0) t (od (- n 1)))) (defun od (n) (if (= n 0) nil (ev (- n 1)))) (list (ev 3) (od 3) (ev 4))",
	"(defun @ (n x) (if (= n 0) x (@ x n))) (if (= b 0) (@ a b))",
	"(defun @ (a b) (if (<= a 0) b (@ (- a 1) (+ a b)))) (@ 3 z)",
	"(defun @ (a b) (if (<= a 0) (list a b) (@ b a))) (@ a -1)",
	"(defun @ (x y z) (cond ((> x 2) (list x y z)) (t (@ (+ x 1) z y)))) (@ 0 a b)",
	"(defun @ (n) (if (= n 0) 'done (@ (- n 1) 1))) (rec 1) (@ 1)",
	"(defun @ (n m) (if (= n 0) 'done (@ (- n 1)))) (rec 1) (@ 1 1)",
	"(defun @ (n &rest r) (if (= n 0) r (@ (- n 1)))) (@ 2 1 2 3)",
	"(defun @ (n &rest r) (if (= n 0) r (@ (- n 1) a b))) (list (@ 0) (@ 1) (@ 2 z))",
	"(defun @ (n &rest r) (if (= n 0) r (@ (- n 1) n r))) (@ 2)",
	"(defun @ (n) (let ((n (- n 1)) (m n)) (if (< n 0) m (@ n)))) (@ a)",
	"(defun @ (n) (let* ((n (- n 1)) (m n)) (if (< n 0) m (@ n)))) (@ a)",
	"(defun @ (n) (if (> n 0) (@ (- n 1)) (car n))) (rec 1) (@ a)",
	"(defun @ (n) (if (> n 0) (@ (car n)) n)) (rec 1) (@ a)",
	"(defun @ (n) (if (> n 0) (unwind-protect (@ (- n 1)) (rec n)) (rec 'bottom))) (@ a)",
	"(defun @ (n) (with-handler (lambda (c) (rec n) (rec (kind c)) (return-from out n)) (if (> n 0) (@ (- n 1)) (car n)))) (@ a)",
	"(defun @ (n) (catch n (if (> n 0) (@ (- n 1)) (throw a 'x))) (rec n)) (if (>= a 0) (@ a))",
	"(defun @ (n) (dynamic-let ((d (+ (dynamic d) 1))) (if (> n 0) (@ (- n 1)) (dynamic d)))) (list (@ a) (dynamic d))",
	"(defun @ (n) (block nil (if (> n 0) (progn (@ (- n 1)) (rec n) (return 1)) (return 2))) (rec 'after) n) (@ a)",
	"(defun @ (n h) (block b (if (> n 0) (@ (- n 1) (if (= n 1) (lambda () (return-from b 'left)) h)) (funcall h)))) (list (@ 2 nil))",
	"(defun @ (n h) (block b (rec (if (> n 0) (@ (- n 1) (if (= n 2) (lambda () (return-from b 'left)) h)) (funcall h))) n)) (list (@ 2 nil))",
	"(defun @ (n) (dotimes (i 2) (if (> n 0) (@ (- n 1)) (rec n))) n) (@ a)",
	"(defun @ (n) (while (> n 0) (rec n) (setq n (- n 1))) (if (= n 0) (@ -1) n)) (@ a)",
	"(labels ((@ (n acc) (if (> n 0) (@ (- n 1) (cons n acc)) acc)) (g (n) (@ n nil))) (list (g a) (@ 1 a)))",
	"(labels ((@ (n) (if (> n 0) (g (- n 1)) (list 'f n))) (g (n) (if (> n 0) (@ (- n 1)) (list 'g n)))) (list (@ a) (g a)))",
	"(labels ((@ (n) (if (> n 0) ((lambda (m) (@ m)) (- n 1)) (rec n)))) (list (@ a)))",
	"(labels ((@ (n) (if (> n 0) (flet ((@ (m) (list 'inner m))) (@ (- n 1))) (rec n)))) (list (@ a)))",
	"(labels ((@ (n) (if (> n 0) (let ((f 5)) (@ (- n 1))) (rec n)))) (list (@ a)))",
	"(defun @ (n) (rec n)) (labels ((g (n) (flet ((g (m) (@ (list m)))) (g n)))) (g a))",
	"(flet ((@ (n) (list 'flet n))) (defun g (n) (if (> n 0) (@ n) (list 'g n))) (list (g a)))",
	"(defun @ (n) (list 'global n)) (flet ((@ (n) (if (> n 0) (@ (- n 1)) (list 'local n)))) (@ a))",
	"(defun @ (n) (setq n (- n 1)) (if (> n 0) (@ n) n)) (@ a)",
	"(defun @ (n) (cond ((< n 1) 'neg) ((@ (- n 1)) (rec n) (@ (- n 1))))) (@ 3)",
	"(defun @ (n) (cond ((> n 0) (@ (- n 1))))) (list (@ a))",
	"(defun @ (n) (cond ((= n 0) 'zero) ((< n 0) 'neg) ((> n b)) ((rec (= n z))) (t (@ (- n 1))))) (list (@ 0) (@ a) (@ 2))",
	"(labels ((@ (n) (cond ((< n 0) 'neg) ((> n b) n) ((= n z) (rec 'z) nil) ((and (= n 0) 'zero)) ((= n 5)) (t (@ (- n 1)))))) (list (@ a) (@ 1) (@ 5)))",
	"(defun @ (n) (if (> n 0) (@ (- n 1)))) (list (@ a))",
	"(defun @ (n x) (if (and (> n 0) (rec (< x 3))) (@ (- n 1) (+ x 1)) (list n x))) (@ 5 a)",
}

// I04_Programs: chosen recursive programs.
func I04_Programs() { tail(tailPrograms[sym.Choice("program", len(tailPrograms))]) }

// I04_Deep: a loop by tail calls gives what the recurrence says, for lengths 0, 1, 40 and 300.
func I04_Deep() {
	n := []int64{0, 1, 40, 300}[sym.Choice("length", 4)]
	x := sym.Int64("x")
	body := []string{
		"(if (= n 0) x (f (- n 1) (+ x 3)))",
		"(cond ((= n 0) x) (t (f (- n 1) (+ x 3))))",
		"(progn n (if (= n 0) x (let ((m (- n 1))) (f m (+ x 3)))))",
		"(let* ((m (- n 1)) (y (+ x 3))) (cond ((< m 0) x) ((= m 0) y) (t (f m y))))",
	}[sym.Choice("body", 4)]
	def := []string{"(defun f (n x) " + body + ") (f n x)", "(labels ((f (n x) " + body + ")) (f n x))"}[sym.Choice("def", 2)]
	w := W.Let(l.Variables{S("n"): l.Integer(n), S("x"): l.Integer(x)})
	got := mustInt2(w.Interpret(ctx, def))
	sym.Assert(got == x+3*n, "result of the loop")
}
