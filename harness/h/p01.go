package h

import (
	"context"
	"errors"

	l "github.com/hymkor/gmnlisp"
	"gmnverif/sym"
)

// stopper is a context which is cancelled while it is asked for the at-th time whether it is.
type stopper struct {
	context.Context
	at, polls int64
	err       error
	done      chan struct{}
	stopped   bool
}

func newStopper(at int64) *stopper {
	return &stopper{
		Context: context.Background(), at: at, done: make(chan struct{}),
		err: []error{context.Canceled, context.DeadlineExceeded}[sym.Choice("reason", 2)],
	}
}

func (s *stopper) poll() {
	s.polls++
	if s.polls == s.at {
		s.stopped = true
		close(s.done)
	}
}

func (s *stopper) Done() <-chan struct{} {
	s.poll()
	return s.done
}

func (s *stopper) Err() error {
	if !s.stopped {
		s.poll()
	}
	if s.stopped {
		return s.err
	}
	return nil
}

// watch runs src under the context and counts the host's calls after the cancellation.
func watch(s *stopper, src string, kv ...any) (r l.Node, err error, trace []l.Node, late int) {
	vars := l.Variables{}
	for i := 0; i < len(kv); i += 2 {
		vars[S(kv[i].(string))] = kv[i+1].(l.Node)
	}
	w := W.Flet(l.Functions{
		S("rec"): l.Function1(func(_ context.Context, _ *l.World, a l.Node) (l.Node, error) {
			if s.stopped {
				late++
			}
			trace = append(trace, a)
			return a, nil
		}),
	}).Let(vars)
	r, err = w.Interpret(s, src)
	return r, err, trace, late
}

var endless = []string{
	"(while t)",
	"(while t t)",
	"(while (rec 1) (rec 2))",
	"(tagbody a (go a))",
	"(tagbody a (rec 1) (if (rec 2) (go a) nil))",
	"(for ((i 0 (1+ i))) (nil))",
	"(for ((i 0 (+ i 1))) ((< i 0) 5) (rec i))",
	"(labels ((f (x) (f x))) (f 1))",
	"(labels ((f (x) (if x (f x) 0))) (f 1))",
	"(labels ((f (x) (g x)) (g (x) (f x))) (f 1))",
	"(progn (defun p01f (n) (cond ((null n) 0) (t (p01f n)))) (p01f 1))",
	"(progn (defun p01f (n) (let ((m n)) (p01f m))) (p01f 1))",
	"(progn (defun p01f (n) (let* ((m n)) (progn (p01f m)))) (p01f 1))",
	"(progn (defun p01f (n) (rec n) (p01f (1+ n))) (p01f 1))",
	"(dolist (x c) (rec x))",
	"(dolist (x c))",
	"(mapc #'null c)",
	"(mapcar #'car (list c c))(mapcar #'null c)",
	"(mapc (lambda (x) x) c)",
	"(mapl #'car c)",
	"(mapcan #'list c)",
	"(maplist #'cdr c)",
	"(mapcon #'list c)",
	"(mapc #'cons c c)",
	"(mapc #'list c)",
	"(progn (defmacro p01m () '(p01m)) (p01m))",
	"(progn (defmacro p01m () p01x) (defglobal p01x '(p01m)) (p01m))",
	"(progn (defmacro p01m (x) `(p01m (list ,x))) (p01m 1))",
	"(let ((i 0)) (while t (ignore-errors (rec i) (car 5) (while t)) (rec i)))",
	"(while t (ignore-errors (car 5)))",
	"(while t (ignore-errors (rec 1)))",
	"(ignore-errors (while t))",
	"(ignore-errors (ignore-errors (while t (rec 1))))",
	"(while t (ignore-errors (tagbody a (go a))))",
	"(while t (catch 'a (throw 'a 1)))",
	"(while t (block b (return-from b 1)))",
	"(catch 'a (while t (block b (return-from b (rec 1)))))",
	"(with-handler (lambda (c) (throw 'x c)) (catch 'x (while t)))",
	"(catch 'x (with-handler (lambda (c) (throw 'x c)) (while t)))",
	"(with-handler #'car (while t))",
	"(with-handler (lambda (c) 1) (while t (rec 1)))",
	"(while t (catch 'x (with-handler (lambda (c) (throw 'x c)) (car 5))))",
	"(while t (with-handler (lambda (c) (continue-condition c 1)) (cerror \"a\" \"b\")))",
	"(with-handler (lambda (c) (while t)) (car 5))",
	"(catch 'x (with-handler (lambda (c) (while t (rec 1))) (undefined-function-of-p01)))",
	"(unwind-protect (while t) (rec 1))",
	"(unwind-protect 1 (while t))",
	"(while t (unwind-protect (rec 1) (rec 2)))",
	"(unwind-protect (unwind-protect (while t) (while t)) (while t))",
	"(catch 'a (unwind-protect (while t) (throw 'a 1)))",
	"(block a (while t (unwind-protect (rec 1) (rec 2))))",
	"(progn (defdynamic p01d 1) (dynamic-let ((p01d 2)) (while (dynamic p01d))))",
	"(with-standard-input (create-string-input-stream \"abc\") (while t))",
	"(apply (lambda (x) (while x)) '(1))",
	"(funcall (lambda (x) (while x)) 1)",
	"(funcall (lambda (&rest x) (tagbody a (go a))) 1)",
	"(case 1 ((1) (while t)))",
	"(let ((x (while t))) x)",
	"(if (while t) 1 2)",
	"(and 1 (while t))",
	"(or nil (while t))",
	"(list 1 (while t))",
	"(setf (car c) (while t))",
	"(dotimes (i 5) (setq i 0))(while t)",
	"(let ((i 0)) (dotimes (j 100000000) (rec j)))",
	"(eval '(while t))",
	"(format nil \"~a\" (while t))",
	"(case-using #'eql 1 ((1) (while t)))",
	"(prog1 (while t) 1)",
	"(when t (while t))",
	"(unless nil (while t))",
	"(create (progn (defclass p01c () ((s :initform (while t)))) (class p01c)))",
	"(defglobal p01x (while t))",
	"(defdynamic p01y (while t))",
	"`(1 ,(while t))",
	"(assure <integer> (while t))",
}

// deep are programs which call themselves ever deeper.
var deep = []string{
	"(progn (defgeneric p01g (x)) (defmethod p01g ((x <integer>)) (p01g x)) (p01g 1))",
	"(labels ((f (x) (car (f x)))) (f 1))",
	"(labels ((f (x) (+ 1 (f x)))) (f 1))",
	"(progn (defun p01f (n) (list (p01f (rec n)))) (p01f 1))",
	"(progn (defun p01f (n) (ignore-errors (p01f n)) (rec n)) (p01f 1))",
	"(progn (defun p01f (n) (unwind-protect (p01f n) (rec n))) (p01f 1))",
	"(progn (defun p01f (n) (catch 'a (p01f n))) (p01f 1))",
	"(progn (defun p01f (n) (block a (p01f n))) (p01f 1))",
	"(progn (defun p01f (n) (mapcar #'p01f (list n))) (p01f 1))",
	"(progn (defun p01f (n) (apply #'p01f (list n))) (p01f 1))",
	"(progn (defun p01f (n) (funcall #'p01f n)) (p01f 1))",
	"(progn (defun p01f (n) (with-handler (lambda (c) (p01f n)) (car n))) (p01f 1))",
	"(progn (defun p01f (n) (while (p01f n))) (p01f 1))",
	"(progn (defun p01f (n) (dolist (x (p01f n)))) (p01f 1))",
	"(progn (defmacro p01m () '(list (p01m))) (p01m))",
	"(progn (defglobal p01x '(eval p01x)) (eval p01x))",
	"(progn (defglobal p01x '(list (eval p01x))) (eval p01x))",
	"(progn (defun p01f (n) (dynamic-let ((p01d n)) (p01f n))) (defdynamic p01d 1) (p01f 1))",
}

// P01_Deep: the same for recursion that is no loop.
func P01_Deep() {
	at := sym.Int64("at")
	sym.Assume(sym.And(at >= 1, at <= 10))
	s := newStopper(at)
	r, err, _, late := watch(s, deep[sym.Choice("program", len(deep))])
	stopped(s, r, err, late)
}

// P01_Endless: a program without end returns the error of the context wherever it is cancelled.
func P01_Endless() {
	src := endless[sym.Choice("program", len(endless))]
	at := sym.Int64("at")
	sym.Assume(sym.And(at >= 1, at <= int64(tierDepth(30))))
	c := &l.Cons{Car: l.Integer(1)}
	c.Cdr = c
	s := newStopper(at)
	r, err, _, late := watch(s, src, "c", c)
	stopped(s, r, err, late)
	// the interpreter is as it was
	in := okCall("standard-input")
	r, err = run("(catch 'k (list (ignore-errors (car 5)) (with-handler (lambda (c) (throw 'k (instancep c (class <domain-error>)))) (car 5))))")
	sym.Assert(err == nil && r == l.True, "another program afterwards")
	_, err = call("car", l.Integer(5))
	var d *l.DomainError
	sym.Assert(errors.As(err, &d), "an error without handler afterwards")
	sym.Assert(rel("eq", okCall("standard-input"), in), "the standard input afterwards")
}

func stopped(s *stopper, r l.Node, err error, late int) {
	sym.Assert(s.stopped, "the context is not asked often enough")
	if err != nil {
		sym.ObserveStr("err", err.Error())
	}
	sym.Assert(err != nil, "a cancelled program returns a value")
	sym.Assert(errors.Is(err, s.err), "the error is not that of the context")
	sym.Assert(late <= 4, "the program goes on after the cancellation")
	sym.Assert(s.polls <= s.at+100, "the program goes on long after the cancellation")
}

var finite = []string{
	"(list (rec a) (rec b))",
	"(let ((x (rec a))) (if (< x b) (rec x) (rec b)))",
	"(let ((s 0)) (dotimes (i 3) (setq s (+ s (rec i)))) (list s a))",
	"(let ((s 0)) (for ((i 0 (1+ i))) ((= i 2) (list s b)) (setq s (+ s (rec a)))))",
	"(labels ((f (n) (if (< n 1) a (progn (rec n) (f (- n 1)))))) (f 3))",
	"(labels ((f (n) (if (< n 1) a (+ n (f (- n 1)))))) (f 3))",
	"(mapcar (lambda (x) (rec (+ x a))) '(1 2 3))",
	"(catch 'k (dolist (x '(1 2 3)) (if (= x 2) (throw 'k (rec a)) (rec x))))",
	"(block k (unwind-protect (return-from k (rec a)) (rec b)))",
	"(unwind-protect (rec a) (rec b))",
	"(ignore-errors (rec a) (car (rec b)) (rec 3))",
	"(list (ignore-errors (rec a) (car 5)) (rec b))",
	"(catch 'k (with-handler (lambda (c) (throw 'k (list a (domain-error-object c)))) (rec b) (car (rec 5)) (rec 6)))",
	"(list (with-handler (lambda (c) (continue-condition c (rec a))) (cerror \"go on\" \"stop\")) (rec b))",
	"(progn (defdynamic p01d a) (list (dynamic-let ((p01d b)) (rec (dynamic p01d))) (dynamic p01d)))",
	"(progn (defun p01f (x &rest y) (list (rec x) y)) (p01f a b))",
	"(progn (defmacro p01m (x) `(list ,x (rec ,x))) (p01m a))",
	"(progn (defclass p01c () ((s :initarg s :initform (rec b) :accessor p01s))) (list (p01s (create (class p01c) 's a)) (p01s (create (class p01c)))))",
	"(progn (defgeneric p01g (x)) (defmethod p01g ((x <integer>)) (rec x)) (list (p01g a) b))",
	"(with-standard-input (create-string-input-stream \"xy\") (list (read-char) (rec a) (read-char)))",
	"(tagbody (rec a) (go x) (rec b) x (rec b))",
	"(let ((s (create-string-output-stream))) (format s \"~d\" (rec a)) (get-output-stream-string s))",
	"(let ((h (make-hash-table))) (setf (gethash a h) (rec b)) (list (gethash a h)))",
	"(list (case a ((1) (rec 1)) (t (rec b))) (cond ((rec nil) 1) ((< a b) (rec 2))))",
	"(rec (undefined-function-of-p01 (rec a)))",
	"(progn (rec a) (return-from nowhere (rec b)))",
	"(list (rec a) (car (rec b)))",
	"(with-handler (lambda (c) (rec a)) (car (rec b)))",
	"(rec undefined-variable-of-p01)",
	"(apply #'list (rec a) (list (rec b)))",
}

// P01_Finite: a program which ends gives its result, unless the context is cancelled before; then it stops with the
// error of the context, what it did until then is what it does at first without the cancellation, and running it
// again gives its result.
func P01_Finite() {
	src := finite[sym.Choice("program", len(finite))]
	a, b := l.Integer(sym.Int64("a")), l.Integer(sym.Int64("b"))
	sym.Assume(sym.And(a >= 1, a < 10, b >= 1, b < 10))
	want, werr, all, _ := watch(newStopper(0), src, "a", a, "b", b)
	s := newStopper(sym.Int64("at"))
	r, err, trace, late := watch(s, src, "a", a, "b", b)
	if err != nil {
		sym.ObserveStr("err", err.Error())
	}
	if s.stopped {
		stopped(s, r, err, late)
		sym.Assert(len(trace) <= len(all), "effects of a cancelled program")
		for i, x := range trace {
			sym.Assert(sameValue(x, all[i]), "effects of a cancelled program")
		}
	} else {
		sameOutcome(r, err, want, werr)
		sym.Assert(len(trace) == len(all), "effects of a program which is not cancelled")
	}
	r, err, trace, _ = watch(newStopper(0), src, "a", a, "b", b)
	sameOutcome(r, err, want, werr)
	sym.Assert(len(trace) == len(all), "effects of the program run again")
	for i, x := range trace {
		sym.Assert(sameValue(x, all[i]), "effects of the program run again")
	}
}

func sameOutcome(r l.Node, err error, want l.Node, werr error) {
	sym.Assert((err == nil) == (werr == nil), "the outcome depends on the context")
	if err == nil {
		sym.Assert(sameValue(r, want), "the value depends on the context")
	} else {
		sym.Assert(err.Error() == werr.Error(), "the error depends on the context")
	}
}

// P01_Before: under a context cancelled before the start nothing is done.
func P01_Before() {
	k := sym.Choice("program", len(finite)+len(endless)+len(deep))
	src := ""
	switch {
	case k < len(finite):
		src = finite[k]
	case k < len(finite)+len(endless):
		src = endless[k-len(finite)]
	default:
		src = deep[k-len(finite)-len(endless)]
	}
	s := newStopper(0)
	s.stopped = true
	close(s.done)
	c := &l.Cons{Car: l.Integer(1)}
	c.Cdr = c
	r, err, trace, _ := watch(s, src, "a", l.Integer(1), "b", l.Integer(2), "c", c)
	stopped(s, r, err, 0)
	sym.Assert(len(trace) == 0, "effects under a cancelled context")
}

// later are definitions and uses of them, which are cases of one use with an end and one without.
var later = [][3]string{
	{"(defun p01f (x) (rec x))", "(p01f a)", "a"},
	{"(defun p01f (x) (while x))", "(p01f nil)", "nil"},
	{"(defglobal p01v (lambda (x) (rec x)))", "(funcall p01v a)", "a"},
	{"(defglobal p01v (let ((y 1)) (lambda (x) (while x) (setq y (list x)) y)))", "(list (funcall p01v nil) (funcall p01v nil))", "'((nil) (nil))"},
	{"(defmacro p01m (x) (rec 1) (list 'list x x))", "(p01m (rec a))", "(list a a)"},
	{"(defmacro p01m (x) (while x) x)", "(p01m nil)", "nil"},
	{"(defclass <p01c> () ((s :initform (rec 5) :reader p01s) (u :initarg u :accessor p01u)))", "(let ((o (create (class <p01c>) 'u a))) (list (p01s o) (p01u o)))", "(list 5 a)"},
	{"(defclass <p01c> () ((s :initform (progn (while p01w) (list 1)) :reader p01s)))", "(p01s (create (class <p01c>)))", "(list 1)"},
	{"(defclass <p01b> () ((s :initform (mapcar #'1+ '(1 2)) :reader p01s))) (defclass <p01c> (<p01b>) ())", "(p01s (create (class <p01c>)))", "(list 2 3)"},
	{"(defgeneric p01g (x)) (defmethod p01g ((x <integer>)) (rec x))", "(p01g a)", "a"},
	{"(defclass <p01c> () ()) (defmethod initialize-object ((x <p01c>) &rest y) (rec 3) (while p01w) x)", "(instancep (create (class <p01c>)) (class <p01c>))", "t"},
	{"(defdynamic p01d (list a))", "(dynamic-let ((p01e (rec 1))) (list (dynamic p01d) (dynamic p01e)))", "(list (list a) 1)"},
	{"(set-property (lambda (x) (while x) (rec x)) 'p 'q)", "(funcall (property 'p 'q) nil)", "nil"},
	{"(defglobal p01h (lambda (c) (while p01w) (throw 'k (rec a))))", "(catch 'k (with-handler p01h (car 5)))", "a"},
	{"(defglobal p01v (lambda (x) (ignore-errors (car x))))", "(funcall p01v a)", "nil"},
	{"(defgeneric p01g (x)) (defmethod p01g ((x <object>)) (while p01w) 1)", "(p01g a)", "1"},
}

// P01_Later: what is defined under one context is used under another: only the context of the use matters.
func P01_Later() {
	p := later[sym.Choice("program", len(later))]
	a := l.Integer(sym.Int64("a"))
	first := newStopper(0)
	_, err, _, _ := watch(first, "(defglobal p01w nil)"+p[0], "a", a)
	if err != nil {
		sym.ObserveStr("definition", err.Error())
	}
	sym.Assert(err == nil, "defined")
	first.stopped = true
	close(first.done)
	before := first.polls
	at := sym.Int64("at")
	sym.Assume(sym.And(at >= 0, at <= int64(tierDepth(30))))
	s := newStopper(at)
	r, err, _, late := watch(s, p[1], "a", a)
	sym.Assert(first.polls == before, "the context of the definition is asked")
	if s.stopped {
		stopped(s, r, err, late)
		r, err, _, _ = watch(newStopper(0), p[1], "a", a)
	}
	if err != nil {
		sym.ObserveStr("err", err.Error())
	}
	sym.Assert(err == nil, "evaluated")
	want, err := run(p[2], "a", a)
	sym.Assert(err == nil && rel("equal", r, want), "the result of a definition under a context cancelled since")
}
