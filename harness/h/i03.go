package h

import (
	l "github.com/hymkor/gmnlisp"
	"gmnverif/sym"
)

var loopForms = []string{
	"(let ((i 0)) (while (progn (rec 'test) (< i a)) (rec i) (setq i (+ i 1)) $))",
	"(let ((s (list a b z))) (while s (rec (car s)) (setq s (cdr s)) $))",
	"(dotimes (i (progn (rec 'count) a)) (rec i) $)",
	"(dotimes (i 2) $ (rec i))",
	"(dolist (x (progn (rec 'list) (list a b))) (rec x) $)",
	"(dolist (x '(1 2 3)) $ (rec x))",
	"(for ((i 0 (+ i 1)) (j a (- j 1))) ((progn (rec 'end) (>= i b)) (rec i) (rec j)) $ (rec (list i j)))",
	"(for ((i a (progn (rec 'step) (+ i 1))) (k 5)) ((>= i 2)) (rec i) $)",
	"(for ((x '(1 2) (cdr x)) (y x x)) ((null x) (rec y)) (rec y) $)",
	"(block nil $ (rec 'end))",
	"(block out (dotimes (i 2) (rec i) $) (rec 'done))",
	"(mapc (lambda (v) (rec v) $) (list a b))",
	"(catch 'c $ (rec 'caught))",
	"(unwind-protect $ (rec 'clean))",
}

var loopLeaves = []string{
	"(setq n (+ n 1))",
	"(progn (setq n (+ n 1)) (if (= n z) (return (rec 'ret))))",
	"(progn (setq n (+ n 1)) (if (>= n z) (throw 'c 'thrown)))",
	"(progn (setq n (+ n 1)) (if (= n z) (return-from out 'o)))",
	"(if (> a 0) (setq a (- a 1)))",
	"(progn (setq n (+ n 1)) (if (>= n z) (car n)))",
	"(let ((i 5) (x 6)) (setq i 0 x 1))",
}

// I03_Nested: nestings of all loops with exits after a symbolic number of body executions; a and b, which bound the loops, are symbolic.
func I03_Nested() {
	kv := abz()
	bound(kv, 2)
	agreeRef("(let ((n 0) (x 7)) (list (catch 'c (block nil (block out "+gen("form", loopForms, loopLeaves, 2)+
		" (rec 'after))) 1) n a b) (rec n))", kv...)
}

// I03_Deep: three levels, smaller counts.
func I03_Deep() {
	if !sym.Thorough() {
		return
	}
	kv := abz()
	bound(kv, 1)
	agreeRef("(let ((n 0) (x 7)) (list (catch 'c (block nil (block out "+gen("form", loopForms, loopLeaves, 3)+
		" (rec 'after))) 1) n a b) (rec n))", kv...)
}

// bound assumes that the numbers in kv are between -1 and n.
func bound(kv []any, n int64) {
	for i := 1; i < len(kv); i += 2 {
		k := int64(kv[i].(l.Integer))
		sym.Assume(k >= -1 && k <= n)
	}
}

// I03_Counts: dotimes and for with every 64-bit count up to 4.
func I03_Counts() {
	kv := abz()
	sym.Assume(kv[1].(l.Integer) <= 4)
	one([]string{
		"(let ((n 0)) (dotimes (i a) (rec i) (setq n (+ n 1))) n)",
		"(progn (dolist (x (list a b)) (dotimes (i a) (rec (list x i)))) 0)",
		"(for ((i 0 (+ i 1)) (s b (+ s z))) ((>= i a) (list i s)) (rec s))",
		"(let ((i 0)) (while (< i a) (rec i) (setq i (+ i 1))) i)",
		"(let ((i a)) (dotimes (i i) (rec i)) i)",
	}, kv...)
}

var loopPrograms = []string{
	"(progn (dotimes (i a) (rec i)) 0)",
	"(let ((i 9)) (dotimes (i a) (rec i)) i)",
	"(let ((s 0)) (dotimes (i a) (dotimes (j b) (setq s (+ s (* i j))) (rec (list i j)))) s)",
	"(let ((k a)) (dotimes (i k) (setq k 0) (rec i)) k)",
	"(let ((l (list a b))) (dolist (x l) (setq l nil) (rec x)) l)",
	"(let ((x 3)) (dolist (x nil) (rec x)) x)",
	"(progn (dolist (x (list a (list b) nil)) (rec x)) 1)",
	"(let ((r nil)) (dolist (x (list a b z)) (setq r (cons x r))) r)",
	"(dolist (x (list a b z)) (if (= x 1) (return (rec 'found))))",
	"(let ((v (block nil (dolist (x (list a b z)) (if (> x 1) (return (list 'inner x)))) 'outer))) (rec v) v)",
	"(block nil (dotimes (i 5) (if (= i a) (return (list 'at i)))) 'never)",
	"(block nil (while t (setq a (+ a 1)) (if (> a 1) (return a))))",
	"(block nil (for ((i 0 (+ i 1))) ((> i 4) 'no) (if (= i a) (return (list 'at i)))))",
	"(let ((r nil)) (dolist (x '(1 2)) (dolist (y '(3 4)) (if (= y a) (return nil)) (setq r (cons (list x y) r)))) r)",
	"(for ((i 0 (+ i 1)) (s 0 (+ s i))) ((= i 3) s))",
	"(for ((i a (+ i 1)) (j b (+ j i))) ((>= i 2) (list i j)) (rec (list i j)))",
	"(let ((c 0)) (for ((i a j) (j b i)) ((= c 3) (list i j)) (rec i) (setq c (+ c 1))))",
	"(for ((x a) (y b (+ y 1))) ((>= y 2) (list x y)) (setq x (+ x 1)))",
	"(for ((i 0 (+ i 1))) ((>= i a)))",
	"(for ((i 0 (+ i 1))) ((>= i a) (rec 1) (rec 2)))",
	"(for () ((progn (setq a (+ a 1)) (> a 2)) a) (rec a))",
	"(let ((i 5)) (for ((i a (+ i 1)) (j i)) ((>= i 2) (list i j))))",
	"(for ((i a)) ((rec i) (rec 'r)) (rec 'never))",
	"(for ((i nil (list i))) (i i) (rec 'body))",
	"(let ((i 0)) (while (progn (rec i) (setq i (+ i 1)) (< i a))) i)",
	"(let ((i a)) (while (< i 2) (setq i (+ i 1)) (rec i)) i)",
	"(while nil (rec 1))",
	"(progn (dotimes (i 0) (rec i)) (dolist (x nil) (rec x)) (while nil (rec 1)) 0)",
	"(let ((fs nil)) (for ((i 0 (+ i 1))) ((= i 2)) (let ((k (+ i a))) (setq fs (cons (lambda () (setq k (+ k 1))) fs)))) (list (funcall (car fs)) (funcall (car fs)) (funcall (car (cdr fs)))))",
	"(defun f (n) (let ((s 0)) (dotimes (i n) (setq s (+ s i))) s)) (list (f a) (f b))",
	"(defun f (n) (block nil (dotimes (i 5) (if (= i n) (return i))) 'none)) (list (f a) (f b))",
	"(defun f (l) (dolist (x l) (if (> x 0) (return x)))) (rec (f (list 0 1))) (rec (f (list a 1)))",
	"(let ((s nil)) (dolist (f (list #'1+ #'1-)) (setq s (cons (funcall f a) s))) s)",
	"(let ((n 0)) (tagbody again (dotimes (i 3) (setq n (+ n 1)) (if (= n a) (go out))) (if (< n 5) (go again)) out) n)",
	"(let ((n 0)) (catch 'x (while t (dotimes (i 3) (setq n (+ n 1)) (if (= n 2) (throw 'x 1))))) n)",
	"(progn (dotimes (i a) (rec i) (car i)) 0)",
	"(dolist (i (list a)) (rec i) (car i))",
	"(for ((i 0 (car i))) ((= i 1)) (rec i))",
	"(dotimes (x (car nil)) (rec x))",
	"(progn (dotimes (x 2) (dotimes (x 2) (rec x)) (rec x)) 0)",
	"(progn (dolist (x '(1 2)) (dolist (x '(3 4)) (rec x)) (rec x)) 0)",
	"(let ((c 0)) (dotimes (i (progn (setq c (+ c 1)) a)) (rec i)) c)",
	"(let ((c 0)) (dolist (i (progn (setq c (+ c 1)) (list a))) (rec i)) c)",
}

// I03_Programs: chosen programs.
func I03_Programs() {
	kv := abz()
	bound(kv, 3)
	one(loopPrograms, kv...)
}
