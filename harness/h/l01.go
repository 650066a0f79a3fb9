package h

import (
	"strings"

	l "github.com/hymkor/gmnlisp"
	"gmnverif/sym"
)

var templateForms = []string{
	"($ ,(rec 1))", "(,(rec 2) $)", "($ . ,(rec 3))", "(,(rec 4) . $)", "(a $ . b)", "(1 ($) \"s\" #\\c :k nil t)", "(quote $)", "'$", "(b $ ,x)", "(() $ ,(rec y) c)", "((,y . $) . ,(rec (list y)))", "(list 'x $ ,(rec 5) . ,(rec 6))", "(,'$ ,x)", "(,(rec `$) c)",
}

var templateLeaves = []string{
	",x", ",(rec y)", ",(rec (list x y))", ",(rec `(x ,(rec x)))", "x", "7", "(x y)", "()", ",(list)", ",'x", ",(if (< x y) (rec 'less) nil)",
}

// L01_Templates: quasiquoted templates of every shape with unquoted forms at every place.
func L01_Templates() {
	agreeRef("(list `"+gen("template", templateForms, templateLeaves, tierDepth(3))+" x)", xy()...)
}

var nestedTemplates = []string{
	"`(a `(b ,(c ,x)))", "`(a `(b ,(c ,(rec x)) ,,(rec y)) ,(rec 3))", "`(a . `(b . ,(c . ,x)))", "``,,x", "``(,(x ,x) . ,y)", "`(1 `(2 `(3 ,,,x ,,x ,x)))", "`',x", "`(quote ,x)", "`(,x . ,y)", "`,x", "``,x", "``x",
	"`(a `(b ,x) ,x)", "(let ((l (list x y))) (list `(,l . ,l) `(,(car l))))", "`(list ,(car (list x y)) ,(rec x) ,(rec y) ,(rec 3))", "`(,(rec 1) (,(rec 2) (,(rec 3)) ,(rec 4)) . ,(rec 5))",
	"`(a ,(car 5) ,(rec 1))", "`(a ,(rec 1) ,(undef) ,(rec 2))", "(block b `(a ,(rec 1) ,(return-from b x) ,(rec 2)))", "(list (eq `x 'x) `() `\"s\" `5 `nil `t `:k)",
	"(let ((x (list 1 2))) (let ((y `(,x ,x))) (list (eq (car y) (car (cdr y))) (eq x (car y)))))",
	"(defmacro define-twice (name op) `(defmacro ,name (arg) `(,',op ,arg ,arg))) (define-twice twice +) (define-twice pair list) (list (twice (rec x)) (pair (rec y)) (macroexpand '(twice (rec x))))",
	"(defmacro define-const (name v) `(defmacro ,name () '',v)) (define-const c (x y)) (list (c) (macroexpand '(c)))",
	"(let ((f (lambda (v) `(got ,v)))) (list (funcall f x) (funcall f y)))", "(labels ((build (n) (if (= n 0) nil `(,n ,(rec n) . ,(build (- n 1)))))) (build 3))",
}

// L01_Nested: templates in templates and other chosen ones.
func L01_Nested() { one(nestedTemplates, oneNil(xy())...) }

var macroDefinitions = []string{
	"(defmacro m (p) `(rec ,p))",
	"(defmacro m (p) `(list ,p ,p))",
	"(defmacro m (p) (list 'quote p))",
	"(defmacro m (p) (list 'list (list 'quote p) p))",
	"(defmacro m (&rest p) `(list ,@p))",
	"(defmacro m (&rest p) `(progn (rec 'in) ,@p (rec 'out)))",
	"(defmacro m (p &rest q) `(let ((v ,p)) (list v v ,@q)))",
	"(defmacro m (p &rest q) `(list ,p (list ,@q) ,@q 'end))",
	"(defmacro m (p :rest q) `(if ,p (progn ,@q) 'else))",
	"(defmacro m (p) (if (consp p) `(rec ,(car (cdr p))) p))",
	"(defmacro m (p) `(let ((x 100)) (list ,p x)))",
	"(defmacro m (p) `(setq x ,p))",
	"(defmacro m (p) `(n ,p 1)) (defmacro n (p q) `(list ,q ,p ,q))",
	"(defmacro m (p) `(f ,p))",
	"(defmacro m (p) `(block nil (rec 'm) (while t (return ,p))))",
	"(defmacro m (p) x)",
	"(defmacro m (p) (list '+ x p))",
	"(let ((x 7)) (defmacro m (p) (list 'list x 'x p)))",
	"(defmacro m (&rest p) (cons 'list (reverse p)))",
	"(defmacro m (p) nil)",
	"(defmacro m (&rest p) `(quote ,p))",
	"(defmacro m (p) `(cond ((null ,p) 'none) (t (m nil))))",
}

var macroUses = []string{
	"(m (rec y))", "(m x)", "(list (m (+ x 1)) x y)", "(let ((x 5)) (m (rec x)))", "(let ((x 5) (v 6)) (list (m (list x v)) x v))", "(flet ((f (v) (list 'local v x))) (m (rec y)))",
	"(defun g (x) (rec 'g) (m x)) (list (g 1) (g y))", "(defun g (x) (if (< x 1) 'done (m (g 0)))) (g 1)", "(funcall (lambda (x) (m (rec x)) (m (list x))) y)", "(mapcar (lambda (v) (m v)) (list x y))",
	"(m (m x))", "(m (list (m x) (m y)))", "(let ((m 3)) (m m))", "(flet ((m (v) (list 'function v))) (m (rec x)))", "(labels ((g (v) (m v)) (m (v) (list 'function v))) (list (g x) (m y)))", "(m (undef))", "(m (car (rec 5)))",
	"(block b (m (return-from b (rec x))))", "(catch 'c (m (throw 'c (rec x))))", "(progn (dotimes (i 2) (rec (m i))) x)", "(m)", "(m x (rec y) 3)", "(m nil)", "(m x nil 3)", "(m (rec y) () nil)", "(m () x (rec y))", "(m x . nil)", "(macroexpand '(m (rec x)))", "(m '(a . b))", "(m `(a ,x))", "(let ((y (m x))) (list x y))",
	"(with-handler (lambda (c) (throw 'k (kind c))) (m (car x)))", "(ignore-errors (m (car (rec x))))", "(and (m x) (or nil (m y)))",
}

// L01_Macros: every macro definition used in every context.
func L01_Macros() {
	d := macroDefinitions[sym.Choice("definition", len(macroDefinitions))]
	u := macroUses[sym.Choice("use", len(macroUses))]
	agreeRef("(defun f (v) (list 'global v)) "+d+" (rec (catch 'k "+lastForm(u)+")) x", xy()...)
}

// lastForm wraps a sequence of forms into one.
func lastForm(s string) string { return "(progn " + s + ")" }

// L01_Expand: macroexpand shows what a call evaluates.
func L01_Expand() {
	d := macroDefinitions[sym.Choice("definition", len(macroDefinitions))]
	u := []string{"(m (rec y))", "(m (+ x 1))", "(m 'x)", "(m (m 1))", "(m \"s\")", "(m (x y))"}[sym.Choice("use", 6)]
	x := xy()
	var t1, t2 []l.Node
	pre := "(defun f (v) (list 'global v)) " + d
	v1, err1 := hosted(&t1).Let(vars(x)).Interpret(ctx, pre+" (list "+u+" x)")
	w := hosted(&t2).Let(vars(x))
	form, err := w.Interpret(ctx, pre+" (macroexpand '"+u+")")
	sym.Assert(err == nil, "macroexpand")
	v2, err2 := w.InterpretNodes(ctx, []l.Node{l.List(S("list"), form, S("x"))})
	sym.Assert((err1 == nil) == (err2 == nil), "error or value")
	sym.Assert(err1 != nil || sameValue(v1, v2), "value")
	sym.Assert(sameValue(l.List(t1...), l.List(t2...)), "effects")
}

func vars(kv []any) l.Variables {
	v := l.Variables{}
	for i := 0; i < len(kv); i += 2 {
		v[S(kv[i].(string))] = kv[i+1].(l.Node)
	}
	return v
}

var places = []string{
	"x", "y", "(car p)", "(cdr p)", "(car (cdr p))", "(cadr p)", "(car (car q))", "(nth 0 p)", "(nth 1 p)", "(nth (progn (setq i (+ i 1)) i) p)", "(elt p 0)", "(elt p i)", "(elt v 1)", "(elt v (setq i (+ i 1)))", "(elt (car q) 1)",
	"(aref v 0)", "(aref v (setq i (+ i 1)))", "(aref (progn (rec 'v) v) 2)", "(elt (progn (rec 'p) p) 1)", "(car (progn (rec 'p) p))", "(nth 1 (progn (rec 'p) p))", "(gethash 'k h)", "(gethash x h)", "(gethash 'new h)", "(gethash (progn (rec 'key) 'k) h)",
	"(dynamic d)", "(dynamic e)", "(aref (car (cdr q)) i)", "(elt (car (progn (rec 'q) q)) 0)", "(gethash (setq i (+ i 1)) h)", "(aref (gethash 'v h) 0)", "(car (gethash 'p h))", "(cdr (cdr (cdr p)))",
}

const placeFrame = `(defdynamic d x) (defdynamic e 50)
(let* ((i 0) (p (list x 20 30)) (v (vector x 5 6)) (q (list (list 7 x) (vector 8 9))) (h (make-hash-table)))
 (setf (gethash 'k h) 1) (setf (gethash x h) 2) (setf (gethash 'v h) (vector 3)) (setf (gethash 'p h) (list 4)) (setf (gethash 1 h) 5)
 (catch 'k (with-handler (lambda (c) (throw 'k (rec (list 'failed (kind c))))) % 0))
 (list x y i p (aref v 0) (aref v 1) (aref v 2) (car q) (aref (cadr q) 0) (aref (cadr q) 1) (gethash 'k h) (gethash x h) (gethash 'new h) (aref (gethash 'v h) 0) (gethash 'p h) (gethash 1 h) (dynamic d) (dynamic e)))`

// L01_Places: an assignment changes exactly the place it names, and evaluates its parts once.
func L01_Places() {
	op := []string{"(setf PLACE y)", "(setf PLACE (progn (rec 'value) 77))", "(incf PLACE)", "(decf PLACE)", "(incf PLACE y)", "(decf PLACE (progn (rec 'delta) 3))", "(setf PLACE (car 5))", "(incf PLACE 'a)", "(setf PLACE 1) (setf PLACE 2)", "(funcall (lambda (y) (setf PLACE y) (incf PLACE)) 60)", "(let ((p p) (x 1) (i 1)) (incf PLACE 5))"}
	p := places[sym.Choice("place", len(places))]
	s := op[sym.Choice("op", len(op))]
	effects := strings.Contains(p, "setq") || strings.Contains(p, "rec")
	if effects && (strings.Contains(s, "rec") || strings.Contains(s, "car 5")) {
		return // the order of place and value is not laid down
	}
	if strings.HasPrefix(p, "(elt (") && effects && strings.Contains(s, "cf") {
		return // the sequence of elt is a place itself: a string is replaced there
	}
	frame := strings.Replace(placeFrame, "%", strings.ReplaceAll(s, "PLACE", p), 1)
	x, y := sym.Int64("x"), sym.Int64("y")
	sym.Assume(sym.And(x > 100, x < 1000))
	agreeRef(frame, "x", l.Integer(x), "y", l.Integer(y))
}
