package h

import (
	"strings"

	l "github.com/hymkor/gmnlisp"
	"gmnverif/sym"
)

var exitForms = []string{
	"(block a $ (rec 'a-end))",
	"(block b $ (rec 'b-end))",
	"(catch 'c $ (rec 'c-end))",
	"(catch (if (= x y) 'c 'd) $ (rec 'd-end))",
	"(tagbody (rec 'start) $ (rec 'mid) s (rec 's) t (rec 't))",
	"(let ((i 0)) (tagbody s (setq i (+ i 1)) (if (> i 2) (return-from top 'many)) (rec i) $ t (rec 't)))",
	"(unwind-protect $ (rec 'clean))",
	"(unwind-protect (rec 'form) (rec 'clean1) $ (rec 'clean2))",
	"(funcall (lambda () $))",
	"(flet ((f (h) (block a (catch 'd (funcall h)) (rec 'f-end)))) (f (lambda () $)))",
	"(mapcar (lambda (v) (rec v) $) '(1 2))",
	"(let ((h (block a (rec 'make) (lambda () $)))) (rec 'call) (funcall h))",
	"(progn (dolist (v '(1 2)) (rec v) $) 'done)",
	"(dynamic-let ((d 1)) $ (rec (dynamic d)))",
	"(let ((v $)) (rec (list 'v v)))",
	"(rec (list 1 $))",
	"(if $ (rec 'then) (rec 'else))",
	"(with-handler (lambda (e) (rec (kind e)) (return-from a 'handled)) $ (rec 'h-end))",
	"(with-handler (lambda (e) (rec (kind e)) (throw 'c 'thrown)) $ (rec 'h-end))",
	"(ignore-errors $ (rec 'i-end))",
	"(cond ((progn $ nil) 1) (t (rec 'cond)))",
	"(while (< x y) (setq x y) $ (rec 'loop))",
}

var exitLeaves = []string{
	"(return-from a (rec 'va))",
	"(return-from b x)",
	"(throw 'c (rec 'vc))",
	"(throw (if (< x y) 'c 'd) y)",
	"(go s)",
	"(go t)",
	"(car (rec 5))",
	"(if (< x y) (return-from a 1) (rec 'normal))",
	"(return 'nil-block)",
	"(throw 'c nil)",
	"(return-from a nil)",
}

// exitFrame is the frame in which every nesting of J01 runs.
const exitFrame = "(defdynamic d 0) (let ((i 0)) (list (block top (catch 'd (block a (rec 'in) (catch 'c % (rec 'c-out)) (rec 'a-out)) (rec 'd-out))) (rec (dynamic d)) (catch 'c (block a (unwind-protect (throw 'c 3) (rec 'still)) 4))))"

func exitable(label string, depth int) string {
	src := gen(label, exitForms, exitLeaves, depth)
	return strings.Replace(exitFrame, "%", src, 1)
}

// J01_Nested: every nesting of the exit forms around every exit.
func J01_Nested() {
	src := exitable("form", tierDepth(2))
	agreeRef(src, xy()...)
}

func xy() []any {
	return []any{"x", l.Integer(sym.Int64("x")), "y", l.Integer(sym.Int64("y"))}
}

var pairForms = []string{
	"(unwind-protect @ $ (rec 'clean))",
	"(unwind-protect (block a @ (rec 'a-end)) (block b $ (rec 'b-end)))",
	"(block b (unwind-protect (unwind-protect @ (rec 'inner)) $ (rec 'outer)))",
	"(tagbody (if (< x y) @) (rec 1) s (setq x y i (+ i 1)) (if (> i 2) (return-from top 'many)) $ t (rec 2))",
	"(let ((h (lambda () @))) (block a (catch 'd $ (funcall h)) (rec 'a-end)))",
	"(catch 'c (block a @) (rec 'between) $)",
	"(with-handler (lambda (e) (rec (kind e)) $ (throw 'd 'quiet)) @ (rec 'h-end))",
	"(progn (ignore-errors @) (rec 'after) $)",
	"(dynamic-let ((d (progn @ 5))) $ (rec (dynamic d)))",
	"(list (block b @) (block b $))",
	"(catch 'd (catch 'c (throw @ $)) (rec 'd-end))",
	"(block a (rec (block a @ $)) (rec 'outer-a))",
	"(flet ((f (h) (catch 'c (if h (funcall h) (f2 (lambda () @)))))) (flet ((f2 (h) (rec 'f2) h)) $) (f (lambda () $)))",
	"(labels ((f (n h) (block a (if (= n 0) (funcall h) (f (- n 1) (if (= n 1) (lambda () @) h))) (rec (list 'f n)) $))) (f 2 nil))",
}

// J01_Pairs: forms with two exits, which meet: an exit from a cleanup, the second exit after the first was handled.
func J01_Pairs() {
	forms := exitForms[:11]
	src := pairForms[sym.Choice("pair", len(pairForms))]
	src = strings.ReplaceAll(src, "@", gen("first", forms, exitLeaves, 1))
	second := 0
	if sym.Thorough() {
		second = 1
	}
	src = strings.ReplaceAll(src, "$", gen("second", forms, exitLeaves, second))
	agreeRef(strings.Replace(exitFrame, "%", src, 1), xy()...)
}

var exitPrograms = []string{
	"(list (block a (unwind-protect (return-from a nil) (rec 1)) (rec 2)))", "(list (catch 'a (unwind-protect (throw 'a nil) (rec 1)) (rec 2)))",
	"(list (block nil (return nil) 1))", "(list (block a (progn (return-from a nil) (rec 1)) 2))", "(list (catch 'a (let ((u (throw 'a nil))) (rec u) 1)))",
	"(block a (return-from a x))", "(block a x (return-from a y) z)", "(block a)", "(catch 'a)", "(list (tagbody) (block nil))",
	"(return-from a 1)", "(return 1)", "(throw 'a 1)", "(go a)", "(block a (return-from b (rec 1)))", "(catch 'a (throw 'b 1))",
	"(list (block nil (return x)) (block nil (return-from nil y)))",
	"(let ((h (block a (lambda () (return-from a 1))))) (funcall h))",
	"(let ((h (catch 'a (lambda () (throw 'a 1))))) (funcall h))",
	"(let ((h nil)) (tagbody (setq h (lambda () (go b))) b) (funcall h))",
	"(catch 'a (let ((h (catch 'a (lambda () (throw 'a 1))))) (rec (funcall h)) 2))",
	"(block a (let ((h (block a (lambda () (return-from a 1))))) (rec 'call) (funcall h) 2))",
	"(let ((k nil)) (list (block a (setq k (lambda () (return-from a 1))) 5) (ignore-errors (funcall k) 6)))",
	"(defun f (h) (block a (rec (funcall h)) 'f)) (list (block a (f (lambda () (return-from a x))) 'after))",
	"(defun f (n h) (block a (if (= n 0) (funcall h) (progn (f (- n 1) (if (= n 2) (lambda () (return-from a n)) h)) (rec (list 'left n)) 'end)))) (f 3 nil)",
	"(catch x (catch y (throw y 'inner)) 'outer)",
	"(catch x (list (catch y (throw x 'which))))",
	"(catch 1.5 (throw 1.5 x))", "(catch #\a (throw #\a x))", "(catch nil (throw nil x))", "(let ((tag (list 1))) (catch tag (throw tag x)))",
	"(catch (list 1) (catch 'b (throw (list 1) x)))",
	"(let ((t1 (list 1)) (t2 (list 1))) (list (catch t1 (catch t2 (throw t1 x)) 'no)))",
	"(catch (progn (rec 'tag) 'a) (rec 'body) (throw (progn (rec 'throw) 'a) (rec 'value)))",
	"(let ((n 0)) (tagbody s (setq n (+ n 1)) (if (< n 3) (go s))) n)",
	"(let ((n 0)) (tagbody (go b) a (rec 'a) (go c) b (rec 'b) (go a) c (rec 'c)) n)",
	"(tagbody a (rec 1) (tagbody b (rec 2) (tagbody c (rec 3) (if (< x y) (progn (setq x y) (go a)))) (rec 4)) (rec 5))",
	"(let ((n 0)) (tagbody a (tagbody a (setq n (+ n 1)) (if (< n 3) (go a)) (rec n)) (rec 'out)))",
	"(let ((hs nil) (n 0)) (tagbody a (setq n (+ n 1)) (setq hs (cons (lambda () (go b)) hs)) (if (< n 2) (go a)) (funcall (car (cdr hs))) (rec 'no) b (rec 'b)))",
	"(defun f (n h) (tagbody (if (> n 0) (f (- n 1) (if (= n 1) (lambda () (go out)) h)) (funcall h)) (rec (list 'fall n)) out (rec (list 'out n)))) (f 2 nil)",
	"(let ((r nil)) (block a (unwind-protect (return-from a 1) (setq r (cons 'x r)))) r)",
	"(block a (unwind-protect (unwind-protect (return-from a (rec 1)) (rec 2)) (rec 3)) (rec 4))",
	"(block a (unwind-protect (car 5) (rec 1) (return-from a 2)))",
	"(block a (unwind-protect 1 (return-from a 2)))",
	"(catch 'a (unwind-protect (throw 'a 1) (throw 'a 2)))",
	"(tagbody (unwind-protect (go a) (go b)) a (rec 'a) b (rec 'b))",
	"(unwind-protect (car 5) (rec 1) (cdr 6) (rec 2))",
	"(ignore-errors (unwind-protect (car 5) (rec 1)) (rec 2))",
	"(block a (unwind-protect (dolist (i (list x y)) (unwind-protect (if (= i 0) (return-from a i)) (rec (list 'c i)))) (rec 'end)))",
	"(catch 'a (mapcar (lambda (i) (unwind-protect (if (< i 0) (throw 'a i) i) (rec i))) (list x y)))",
	"(list (block a (list 1 (return-from a x) (rec 2))) (block a (+ 1 (return-from a y))))",
	"(let ((v 1)) (setq v (block a (return-from a x))) v)",
	"(let ((v (block a (let ((v 2)) (return-from a (rec v)))))) v)",
	"(let ((v 1)) (block a (setq v (return-from a 2))) v)",
	"(if (block a (return-from a (< x y))) 'less 'more)",
	"(block a (if (return-from a x) 1 2) (rec 3))",
	"(block a (cond ((return-from a x) 1)))", "(block a (case (return-from a x) (t 1)))", "(block a (and 1 (return-from a x) (rec 2)))",
	"(block a (let ((v (return-from a x))) (rec v)))", "(block a (apply #'list (return-from a x) '()))", "(block a ((lambda (v) (rec v)) (return-from a x)))",
	"(block a (return-from a (return-from a x)))", "(block a (block b (return-from a (return-from b x))) (rec y) 5)",
	"(catch 'a (throw 'a (throw 'a x)))", "(catch 'a (throw (throw 'a x) 1))",
	"(block a (funcall (return-from a x) 1))", "(block a (dynamic-let ((d (return-from a x))) (rec 1)))", "(block a (catch (return-from a x) 1))",
	"(block a (while (return-from a x)))", "(block a (for ((i 0 (return-from a i))) (nil) (rec i)))", "(block a (for ((i (return-from a x))) (t)))",
	"(block a (for ((i 0)) ((return-from a x))))", "(block a (dotimes (i (return-from a x))))", "(block a (setq x (return-from a 1)) (rec x))",
	"(list (block a (prog1 x (return-from a y))) (block a (prog1 (return-from a x) (rec 1))))",
	"(with-handler (lambda (c) (return-from none 1)) (rec 1))",
	"(block a (with-handler (return-from a x) (rec 1)))",
	"(block a (with-handler (lambda (c) (rec (kind c)) (return-from a x)) (unwind-protect (car 5) (rec 'clean))))",
	"(block a (with-handler (lambda (c) (rec (kind c)) (return-from a x)) (return-from b 1)))",
	"(block a (with-handler (lambda (c) (rec (kind c)) (return-from a x)) (throw 'nowhere 1)))",
	"(block a (with-handler (lambda (c) (rec (kind c)) (return-from a x)) (go nowhere)))",
	"(block a (with-handler (lambda (c) (rec 'never) 1) (return-from a x)))", "(catch 'a (with-handler (lambda (c) (rec 'never) 1) (throw 'a x)))",
	"(tagbody (with-handler (lambda (c) (rec 'never) 1) (go b)) (rec 1) b (rec 2))",
	"(block a (ignore-errors (return-from a x)) (rec 1))", "(catch 'a (ignore-errors (throw 'a x)) (rec 1))", "(tagbody (ignore-errors (go b)) (rec 1) b (rec 2))",
	"(list (ignore-errors (return-from nowhere 1)) (ignore-errors (throw 'nowhere 1)) (ignore-errors (car 1)))",
}

// J01_Programs: chosen programs.
func J01_Programs() {
	agreeRef("(defdynamic d 0) "+exitPrograms[sym.Choice("program", len(exitPrograms))], oneNil(xy())...)
}
