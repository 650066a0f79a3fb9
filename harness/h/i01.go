package h

import (
	"strings"

	l "github.com/hymkor/gmnlisp"
	"gmnverif/sym"
)

// gen builds an arbitrary program text: a template with every $ replaced by a program of smaller depth.
func gen(label string, templates, leaves []string, depth int) string {
	var t string
	if depth == 0 {
		return leaves[sym.Choice(label, len(leaves))]
	}
	t = templates[sym.Choice(label, len(templates))]
	for strings.Contains(t, "$") {
		t = strings.Replace(t, "$", gen(label, templates, leaves, depth-1), 1)
	}
	return t
}

func tierDepth(quick int) int {
	if sym.Thorough() {
		return quick + 1
	}
	return quick
}

// abz are three symbolic integers for the variables a, b and z.
func abz() []any {
	return []any{"a", l.Integer(sym.Int64("a")), "b", l.Integer(sym.Int64("b")), "z", l.Integer(sym.Int64("z"))}
}

// one runs one of the program texts.
func one(programs []string, kv ...any) {
	agreeRef(programs[sym.Choice("program", len(programs))], kv...)
}

// I01_Assignments: setq, psetq, let and let* with up to five of four variables and values, in any combination.
func I01_Assignments() {
	names := []string{"a", "b", "c", "d"}
	form := []string{"setq", "psetq", "let", "let*"}[sym.Choice("form", 4)]
	old := map[string]l.Node{}
	kv := []any{}
	for _, n := range names {
		old[n] = l.Integer(sym.Int64(n))
		kv = append(kv, n, old[n])
	}
	now := map[string]l.Node{}
	for n, v := range old {
		now[n] = v
	}
	count := 1 + sym.Choice("count", tierDepth(4))
	src := ""
	var last l.Node = l.Null
	seen := map[string]bool{}
	for i := 0; i < count; i++ {
		// the first pairs take any variables, the last one those next to them
		to := names[i%4]
		if i < 3 {
			to = names[sym.Choice("to", 4)]
		}
		if seen[to] && form == "let" {
			return // the order of equal names is not prescribed
		}
		seen[to] = true
		from := names[(i+1)%4]
		if i < 3 {
			from = names[sym.Choice("from", 4)]
		}
		value := now[from]
		if form == "psetq" || form == "let" {
			value = old[from]
		}
		now[to] = value
		last = value
		if form[0] == 'l' {
			src += "(" + to + " " + from + ")"
		} else {
			src += to + " " + from + " "
		}
	}
	switch form {
	case "let", "let*":
		src = "(list (" + form + " (" + src + ") (list a b c d)) (list a b c d))"
	default:
		src = "(list (" + form + " " + src + ") (list a b c d))"
	}
	r, err := run(src, kv...)
	e := listElems(okNode(r, err, src))
	sym.Assert(len(e) == 2, "values")
	var want, before []l.Node
	for _, n := range names {
		want = append(want, now[n])
		before = append(before, old[n])
	}
	switch form {
	case "let", "let*":
		isList(e[0], want, form+" binds")
		isList(e[1], before, form+" restores")
	case "setq":
		sym.Assert(e[0] == last, "the value of setq is the last one")
		isList(e[1], want, "setq assigns")
	default:
		isList(e[1], want, "psetq assigns")
	}
}

var scopeForms = []string{
	"(let ((a (+ a 1)) (b a)) $ (rec a) (rec b))",
	"(let* ((a (+ a 1)) (b a)) $ (rec a) (rec b))",
	"(let (a (b a)) (rec a) (setq a b) $ (rec b))",
	"(funcall (lambda (a) $ (rec a)) b)",
	"((lambda (b &rest a) (setq a (car a)) $ (rec b) (rec a)) (+ b 1) a)",
	"(flet ((f (a) (if (< n 3) (progn (setq n (+ n 1)) $)) (rec a))) (rec (f b)))",
	"(labels ((f (a) (if (< n 3) (progn (setq n (+ n 1)) $)) (rec a))) (rec (f b)))",
	"(let ((g (lambda () (setq a (+ a b)) $ a))) (setq b 7) (rec (funcall g)) (rec a))",
	"(progn (psetq a b b a) $ (setq b z))",
	"(progn (defun f (b) (if (< n 3) (progn (setq n (+ n 1)) $)) (rec a)) (rec (f z)))",
	"(mapc (lambda (a) $ (rec a)) (list b z))",
}

var scopeLeaves = []string{
	"(rec (list a b))",
	"(rec (setq a z b a))",
	"(rec (f b))",
	"(setq k (cons (lambda () (setq a (+ a 1))) k))",
	"(let ((a a)) (setq k (cons (lambda () (setq b (+ a b))) k)))",
	"(setq k (cons #'f k))",
}

// I01_Nested: nestings of all binding forms over the same two names; closures are collected and called at the end.
func I01_Nested() {
	body := gen("form", scopeForms, scopeLeaves, tierDepth(3))
	agreeRef("(let ((k nil) (n 0)) (defun f (&rest x) (rec (list 'f a (car x))) (car x)) "+body+
		" (rec (list a b)) (mapc (lambda (h) (rec (apply h nil))) k) (list a b))", perhapsNil(abz())...)
}

var scopePrograms = []string{
	"(labels ((f (v) (when v 1 2)) (when (x y z) (list x y z))) (list (f a) (when b 3 4)))",
	"(labels ((when (x y z) (list x y z)) (f (v) (when v 1 2))) (list (f a) (when b 3 4)))",
	"(labels ((f (n) (if (= n 0) (unless n 1) (g (- n 1)))) (g (n) (unless n (rec n))) (unless (x y) (rec (list x y)))) (f 1))",
	"(list (flet ((when (x y) (list x y))) (when a b)) (when a b))",
	// closures share one binding
	"(let ((x a)) (let ((inc (lambda () (setq x (+ x b)))) (get (lambda () x))) (funcall inc) (rec x) (funcall inc) (list (funcall get) x)))",
	// each activation has its own
	"(let ((make (lambda (x) (lambda (y) (setq x (+ x y)) x)))) (let ((p (funcall make a)) (q (funcall make b))) (list (funcall p z) (funcall q z) (funcall p z))))",
	"(defun make (x) (lambda () (setq x (+ x 1)))) (let ((p (make a)) (q (make a))) (list (funcall p) (funcall p) (funcall q)))",
	// lexical, not dynamic
	"(let ((x a)) (let ((f (lambda () x))) (let ((x b)) (list (funcall f) x))))",
	"(let ((x a)) (defun f () x) (let ((x b)) (setq x z) (list (f) x)))",
	"(let ((x a)) (flet ((f () x)) (let ((x b)) (list (f) x))))",
	"(let ((x a)) (labels ((f () x) (g (x) (f))) (list (g b) x)))",
	"(let ((x a)) (flet ((set (v) (setq x v))) (let ((x b)) (set z) (rec x)) x))",
	"(funcall (let ((x a)) (lambda (y) (list x y))) b)",
	// let in parallel, let* in sequence
	"(let ((x a) (y b)) (let ((x y) (y x)) (list x y)))",
	"(let ((x a) (y b)) (let* ((x y) (y x)) (list x y)))",
	"(let ((x a)) (let* ((x (+ x 1)) (f (lambda () x)) (x (+ x 1))) (list x (funcall f))))",
	"(let ((x a)) (let ((x b) (f (lambda () x))) (list x (funcall f))))",
	"(let* ((x a) (y (setq x b)) (x z)) (list x y))",
	"(let ((x (rec a)) (y (rec b)) (v (rec z))) (list x y v))",
	// parameters hide, also with &rest
	"(let ((x a) (r b)) (list ((lambda (x &rest r) (setq x z) (list x r)) b a) x r))",
	// assignment
	"(let ((x a) (y b)) (psetq x y y x) (list x y))",
	"(let ((x a) (y b)) (setq x y y x) (list x y))",
	"(let ((x a)) (psetq x (rec (+ x 1)) x (rec (+ x 2))) x)",
	"(let ((x a)) (rec (setq x b x (+ x z))) x)",
	"(let ((x a)) (let ((x b)) (setq x z)) x)",
	"(setq nosuch a)", "(progn (setq a b) (psetq nosuch2 (rec z)))", "(let ((u 1)) (rec nosuch3))",
	"(flet ((f (u) v)) (let ((v 1)) (f 2)))",
	"(let ((f (lambda () v))) (let ((v 1)) (funcall f)))",
	"(let ((x a) (y nosuch4)) x)",
	// functions
	"(defun f (x) (list 'global x)) (flet ((f (x) (list 'local (f x)))) (f a))",
	"(defun f (x) (list 'global x)) (flet ((g (x) (f x)) (f (x) (list 'local x))) (list (g a) (f b)))",
	"(defun f (x) (list 'global x)) (labels ((g (x) (f x)) (f (x) (list 'local x))) (list (g a) (f b)))",
	"(labels ((ev (n) (if (= n 0) 'even (od (- n 1)))) (od (n) (if (= n 0) 'odd (ev (- n 1))))) (list (ev 4) (ev 3)))",
	"(defun f (x) (g x)) (defun g (x) (list 'first x)) (list (f a) (progn (defun g (x) (list 'second x)) (f b)))",
	"(defun f (x) (list 'old x)) (let ((h #'f)) (defun f (x) (list 'new x)) (list (funcall h a) (f b)))",
	"(flet ((f (x) (list 'outer x))) (let ((h (lambda (x) (f x)))) (flet ((f (x) (list 'inner x))) (list (f a) (funcall h b)))))",
	"(flet ((f () 1)) (f)) (f)",
	"(labels ((f () 1)) (f)) (f)",
	// a variable and a function of one name
	"(let ((f a)) (flet ((f (x) (list f x))) (list f (f b) (let ((f z)) (f f)))))",
	"(let ((list a)) (list list b))",
	// global definitions
	"(defglobal gv a) (defun f () gv) (let ((gv b)) (list (f) gv (progn (setq gv z) gv) (f)))",
	"(defglobal gv a) (defun f (v) (setq gv v)) (f b) (list gv (let ((gv z)) (f a) gv) gv)",
	"(defglobal gv a) (defglobal gv b) gv",
	// deep
	"(let ((x a)) ((lambda (f) (let ((x b)) (list (funcall f 1) (funcall f 1) x))) (lambda (n) (setq x (+ x n)))))",
	"(let ((fs nil)) (dolist (i (list a b z)) (let ((j i)) (setq fs (cons (lambda () (setq j (+ j 1))) fs)))) (list (funcall (car fs)) (funcall (car fs)) (funcall (car (cdr fs)))))",
	"(let ((fs (mapcar (lambda (i) (lambda (d) (setq i (+ i d)))) (list a b)))) (list (funcall (car fs) z) (funcall (car fs) z) (funcall (car (cdr fs)) z)))",
	"(defun f (n x) (if (= n 0) (lambda () x) (let ((g (f (- n 1) (+ x 1)))) (lambda () (list x (funcall g)))))) (funcall (f 2 a))",
	"(let ((x a)) (catch 'c (let ((x b)) (throw 'c (setq x z)))) x)",
	"(let ((x a)) (block q (let ((x b)) (setq x z) (return-from q x))) x)",
	"(let ((x a)) (unwind-protect (let ((x b)) (setq x 1)) (setq x (+ x z))) x)",
}

// I01_Programs: chosen programs with symbolic data.
func I01_Programs() { one(scopePrograms, oneNil(abz())...) }
