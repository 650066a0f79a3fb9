package h

import (
	"strings"

	l "github.com/hymkor/gmnlisp"
	"gmnverif/sym"
)

var dynForms = []string{
	"(dynamic-let ((d x)) $ (rec (dynamic d)))",
	"(dynamic-let ((d (rec (+ (dynamic d) 1))) (e (dynamic d))) $ (rec (list (dynamic d) (dynamic e))))",
	"(dynamic-let ((new y)) $ (rec (dynamic new)))",
	"(dynamic-let ((d 1) (new 2) (d (dynamic d))) $)",
	"(dynamic-let () $)",
	"(show (progn $ 1))",
	"(let ((h (lambda () (rec (dynamic d)) $))) (dynamic-let ((d 7)) (funcall h)))",
	"(catch 'c $ (rec 'c-end))",
	"(block b $ (rec 'b-end))",
	"(unwind-protect $ (rec (dynamic d)) (set-dynamic 50 d))",
	"(ignore-errors $ (rec 'i-end))",
	"(with-handler (lambda (k) (rec (dynamic d)) (throw 'c (kind k))) $ (rec 'h-end))",
	"(tagbody $ (rec 'mid) s (rec (dynamic d)))",
	"(mapc (lambda (v) (set-dynamic v d) $) (list x y))",
	"(let ((d 100)) $ (rec d))",
	"(dynamic-let ((d (progn $ y))) (rec (dynamic d)))",
}

var dynLeaves = []string{
	"(rec (list (dynamic d) (dynamic e)))",
	"(set-dynamic (+ x y) d)",
	"(setf (dynamic e) x)",
	"(defdynamic d 60)",
	"(rec (dynamic new))",
	"(progn (set-dynamic 70 d) (throw 'c (dynamic d)))",
	"(progn (setf (dynamic d) 80) (return-from b (dynamic d)))",
	"(car (dynamic d))",
	"(go s)",
	"(if (< x y) (throw 'c x) (set-dynamic y e))",
	"(show 3)",
}

const dynFrame = "(defdynamic d x) (defdynamic e 0) (defun show (v) (rec (list 'show v (dynamic d) (dynamic e))))" +
	"(catch 'c (block b (let ((h 0)) % (rec 'normal)))) (rec (list (dynamic d) (dynamic e))) (ignore-errors (rec (dynamic new)) 1)"

// J02_Nested: nestings of dynamic-let with assignments, calls and every way out; all dynamic variables are inspected afterwards.
func J02_Nested() {
	src := gen("form", dynForms, dynLeaves, tierDepth(2))
	// the place where the handler of an unbound variable runs is open
	sym.Assume(!strings.Contains(src, "with-handler") || !strings.Contains(src, "(rec (dynamic new))"))
	agreeRef(strings.Replace(dynFrame, "%", src, 1), xy()...)
}

// J02_Sequences: several forms one after the other see each other's assignments only.
func J02_Sequences() {
	src := ""
	n := 2
	if sym.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		forms := dynForms[:11]
		if i > 0 && !sym.Thorough() {
			forms = dynForms[:4]
		}
		src += " (catch 'c (block b (tagbody " + gen("form", forms, dynLeaves, 1) + " s)))"
	}
	agreeRef(strings.Replace(dynFrame, "%", src, 1), xy()...)
}

var dynPrograms = []string{
	"(dynamic d)", "(defdynamic d x) (list (dynamic d) (dynamic d))", "(defdynamic d x) (defdynamic d y) (dynamic d)",
	"(defdynamic d x) d", "(defdynamic d x) (let ((d y)) (list d (dynamic d)))", "(let ((d y)) (defdynamic d x) (setq d 5) (list d (dynamic d)))",
	"(defdynamic d x) (defun f () (dynamic d)) (list (f) (dynamic-let ((d y)) (f)) (f))",
	"(defdynamic d x) (let ((h (dynamic-let ((d y)) (lambda () (dynamic d))))) (funcall h))",
	"(dynamic-let ((d x)) (dynamic d))", "(dynamic-let ((d x)) 1) (dynamic d)", "(dynamic-let ((d x)) (set-dynamic y d)) (dynamic d)",
	"(ignore-errors (dynamic-let ((d x)) (car 5))) (dynamic d)",
	"(defdynamic d x) (dynamic-let ((d y) (e (dynamic d))) (list (dynamic d) (dynamic e)))",
	"(defdynamic d x) (dynamic-let ((d (progn (set-dynamic 5 d) 6))) (rec (dynamic d))) (dynamic d)",
	"(defdynamic d x) (defdynamic e y) (dynamic-let ((d (dynamic e)) (e (dynamic d))) (rec (list (dynamic d) (dynamic e)))) (list (dynamic d) (dynamic e))",
	"(defdynamic d x) (dynamic-let ((d (car 5)) (e (rec 1))) (rec 2))",
	"(defdynamic d x) (ignore-errors (dynamic-let ((d 1) (e (car 5))) (rec 2))) (rec (dynamic d)) (dynamic e)",
	"(defdynamic d x) (defun f (n) (if (= n 0) (dynamic d) (dynamic-let ((d (+ (dynamic d) n))) (f (- n 1))))) (list (f 3) (dynamic d))",
	"(defdynamic d x) (defun f (n) (if (> n 0) (dynamic-let ((d (+ (dynamic d) n))) (f (- n 1)) (rec (dynamic d))) (throw 'c 1))) (list (catch 'c (f 3)) (dynamic d))",
	"(defdynamic d x) (dynamic-let ((d 1)) (defdynamic d 2) (rec (dynamic d))) (dynamic d)",
	"(defdynamic d x) (dynamic-let ((d 1)) (dynamic-let ((d 2)) (set-dynamic 3 d) (rec (dynamic d))) (rec (dynamic d)) (set-dynamic 4 d) (rec (dynamic d))) (dynamic d)",
	"(defdynamic d x) (dynamic-let ((d 1)) (unwind-protect (rec (dynamic d)) (rec (dynamic d))))",
	"(defdynamic d x) (catch 'c (unwind-protect (dynamic-let ((d 1)) (throw 'c 2)) (rec (dynamic d))))",
	"(defdynamic d x) (ignore-errors (dynamic-let ((d 1)) (unwind-protect (car 5) (rec (dynamic d))))) (dynamic d)",
	"(defdynamic d x) (block b (with-handler (lambda (k) (return-from b (dynamic d))) (dynamic-let ((d y)) (car 5))))",
	"(defdynamic d x) (with-handler (lambda (k) (continue-condition k (dynamic d))) (dynamic-let ((d y)) (list (signal-condition 5 t) (dynamic d))))",
	"(defdynamic d x) (list (dynamic-let ((d 1)) (dynamic-let ((e 2)) (list (dynamic d) (dynamic e)))) (dynamic d))",
	"(defdynamic d nil) (list (dynamic d) (dynamic-let ((d x)) (dynamic d)) (dynamic d))",
	"(defdynamic d x) (dynamic-let ((d nil)) (rec (dynamic d))) (dynamic d)",
	"(defdynamic d x) (mapcar (lambda (v) (dynamic-let ((d (+ v (dynamic d)))) (dynamic d))) (list 1 2 (dynamic d)))",
	"(defglobal g x) (defdynamic g y) (list g (dynamic g) (dynamic-let ((g 1)) (list g (dynamic g))))",
}

// J02_Programs: chosen programs.
func J02_Programs() { one(dynPrograms, oneNil(xy())...) }

// J02_Host: bindings are restored when a callback of the embedding program fails or the evaluation is split over several calls.
func J02_Host() {
	x, y := l.Integer(sym.Int64("x")), l.Integer(sym.Int64("y"))
	w := W.Let(l.Variables{S("x"): x, S("y"): y})
	_, err := w.Interpret(ctx, "(defdynamic d x)")
	sym.Assert(err == nil, "defdynamic")
	body := []string{"(set-dynamic 5 d)", "(car 5)", "(throw 'nowhere 1)", "(dynamic-let ((d 6)) (car 7))", "nosuch", "(nosuch)", "(quit)", "(abort)"}
	_, err = w.Interpret(ctx, "(dynamic-let ((d y) (e 3)) (dynamic d) "+body[sym.Choice("body", len(body))]+")")
	sym.ObserveBool("error", err != nil)
	r, err := w.Interpret(ctx, "(dynamic d)")
	sym.Assert(err == nil && sameValue(r, x), "value after the form")
	_, err = w.Interpret(ctx, "(dynamic e)")
	sym.Assert(err != nil, "e is bound after the form")
}
