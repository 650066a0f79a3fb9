package h

import (
	"context"
	"fmt"
	"strings"

	l "github.com/hymkor/gmnlisp"
	"gmnverif/sym"
)

var extended = []string{
	"(list x y)",
	"(progn (setq x y) (list x y))",
	"(let ((x y)) (setq x 0) (list x y))",
	"(let* ((y x) (x y)) (list x y))",
	"(funcall (lambda (x) (setq x 0) (list x y)) x)",
	"(funcall (lambda () (setq x 0) (list x y)))",
	"(labels ((g () x) (f (x) (list x (g)))) (f y))",
	"(flet ((f (y) (list x y))) (f x))",
	"(list (f x) (f y))",
	"(f (f x))",
	"(list (flet ((f (z) (list z z))) (f x)) (f y))",
	"(labels ((f (z) (if z (f nil) 'own))) (f x))",
	"(mapcar #'f (list x y))",
	"(list (funcall #'f x) (apply #'f (list y)))",
	"(let ((f 1)) (f x))",
	"(progn (defun q01f (z) (list z x)) (list (q01f y) (q01f x)))",
	"(progn (defmacro q01m (z) (list 'list z 'x)) (q01m y))",
	"(progn (defun q01c () (setq x (list x))) (q01c) (q01c) x)",
	"(progn (defdynamic x y) (list x (dynamic x)))",
	"(dynamic-let ((x 5)) (list x (dynamic x)))",
	"(list (catch 'k (setq x 1) (throw 'k (f y))) x)",
	"(list (block f (return-from f (f x))) y)",
	"(list (ignore-errors (setq x 7) (car y)) x)",
	"(car x)",
	"(f)",
	"(f x y)",
	"(g x)",
	"(h (f x))",
	"(list (flet ((h (z) (f z))) (h x)) (mapcar #'h (list x y)))",
	"(list x z)",
	"(setq z x)",
	"(list (dotimes (x 2) (f x)) x)",
	"(let ((r nil)) (dolist (x (list 1 2)) (setq r (cons (f x) r))) (list r x))",
	"`(x ,x ,(f y))",
	"(list (symbolp 'x) (eval 'x) (eval '(f y)))",
	"(catch 'k (with-handler (lambda (c) (throw 'k (list x (f y)))) (car 5)))",
	"(progn (defglobal q01v x) (setq x 0) (list q01v x))",
	"(progn (defgeneric q01g (a)) (defmethod q01g ((a <integer>)) (list a y)) (q01g x))",
	"(list (let ((x 1)) (flet ((f (x) x)) (f y))) x)",
	"(list (setf x 3) x)",
	"(progn (incf x) (list x y))",
	"(list (car (list x)) ((lambda (x y) (list x y)) y x))",
}

// extend makes the World with the variables x and y and the function f in one of the ways a host can.
func extend(w *l.World, x, y l.Node, f l.Callable) *l.World {
	switch sym.Choice("extension", 4) {
	case 1:
		return w.Let(&l.Pair{Key: S("x"), Value: x}).Let(&l.Pair{Key: S("y"), Value: y}).Flet(l.Functions{S("f"): f, S("h"): second})
	case 2:
		return w.Flet(l.Functions{S("f"): f, S("h"): second}).Let(l.Variables{S("x"): x, S("y"): y})
	case 3:
		hidden := l.Functions{S("f"): l.Function1(func(context.Context, *l.World, l.Node) (l.Node, error) { panic("hidden") })}
		return w.Let(l.Variables{S("x"): l.Null}).Flet(hidden).Let(l.Variables{S("x"): x, S("y"): y}).Flet(l.Functions{S("f"): f, S("h"): second})
	}
	return w.Let(l.Variables{S("x"): x, S("y"): y}).Flet(l.Functions{S("f"): f, S("h"): second})
}

var second = l.Function1(func(_ context.Context, _ *l.World, a l.Node) (l.Node, error) { return l.List(S("h"), a), nil })

func wrapper(trace *[]l.Node) l.Function1 {
	return func(_ context.Context, _ *l.World, a l.Node) (l.Node, error) {
		*trace = append(*trace, a)
		return l.List(S("f"), a), nil
	}
}

func errText(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

// firstLine of an error: the forms it passed through follow.
func firstLine(err error) string {
	s, _ := line(errText(err))
	return s
}

// Q01_Extension: an extended interpreter behaves as the let and flet around the program, and the original is as before.
func Q01_Extension() {
	src := extended[sym.Choice("program", len(extended))]
	a, b := l.Integer(sym.Int64("a")), l.Integer(sym.Int64("b"))
	var t1, t2 []l.Node
	base := newWorld()
	if sym.Choice("first", 2) == 1 {
		base = l.New() // nothing evaluated before
		base.SetStdout(Out)
	}
	w := extend(base, a, b, wrapper(&t1))
	before := base.Stdout()
	r, err := w.Interpret(ctx, src)
	other := newWorld().Flet(l.Functions{S("host"): wrapper(&t2)}).Let(l.Variables{S("va"): a, S("vb"): b})
	want, werr := other.Interpret(ctx, "(let ((x va) (y vb)) (flet ((f (q) (host q)) (h (q) (list 'h q))) "+src+"))")
	sym.ObserveStr("err", errText(err))
	sym.ObserveStr("werr", errText(werr))
	sym.Assert((err == nil) == (werr == nil), "an error in one of them")
	if err == nil {
		sym.Assert(sameValue(r, want), "another value")
	} else {
		sym.Assert(firstLine(err) == firstLine(werr), "another error")
	}
	sym.Assert(len(t1) == len(t2), "the number of calls of the host")
	for i := range t1 {
		sym.Assert(sameValue(t1[i], t2[i]), "the arguments of the host")
	}
	for _, name := range []string{"x", "y", "z", "f", "h", "va"} {
		_, err := base.Get(S(name))
		sym.Assert(err != nil, "a variable of the extension in the original")
		_, err = base.GetFunc(S(name))
		sym.Assert(err != nil, "a function of the extension in the original")
		_, err = base.Interpret(ctx, name)
		sym.Assert(err != nil, "a variable of the extension in the original")
	}
	sym.Assert(base.Stdout() == before, "the standard output of the original")
	_, err = base.Interpret(ctx, "(car 5)")
	sym.Assert(err != nil, "a handler in the original")
	r, err = base.Interpret(ctx, "(progn (set-property 1 'p 'q) (list (property 'p 'q) (cadr '(1 2)) (catch 'k (with-handler (lambda (c) (throw 'k (instancep c (class <domain-error>)))) (car 5)))))")
	sym.ObserveStr("later", errText(err))
	sym.Assert(err == nil && printed(r) == "(1 2 t)", "another program in the original")
}

// Q01_Definitions: what is defined within an extension keeps its variables and functions when it is called from the
// original, also when the original defines others of the same name.
func Q01_Definitions() {
	a, b, v := l.Integer(sym.Int64("a")), l.Integer(sym.Int64("b")), l.Integer(sym.Int64("v"))
	var trace []l.Node
	w := extend(W, a, b, wrapper(&trace))
	_, err := w.Interpret(ctx, "(defun q01f (z) (setq x (list x z)) (f x)) (defmacro q01m (z) (list 'quote (list x z))) (defgeneric q01g (z)) (defmethod q01g ((z <integer>)) (list x y z))")
	sym.Assert(err == nil, "defined")
	src := []string{
		"(let ((x 1) (y 2)) (q01f v))",
		"(flet ((f (z) 'other)) (q01f v))",
		"(list (q01m v) (q01m x))",
		"(let ((x 1)) (q01g v))",
		"(progn (defun f (z) 'other) (list (q01f v) (f v)))",
		"(mapcar #'q01f (list v v))",
	}
	k := sym.Choice("use", len(src))
	r, err := run(src[k], "v", v)
	sym.ObserveStr("err", errText(err))
	sym.Assert(err == nil, "evaluated")
	first := l.List(S("f"), l.List(a, v))
	want := []l.Node{
		first, first, l.List(l.List(a, S("v")), l.List(a, S("x"))), l.List(a, b, v), l.List(first, S("other")),
		l.List(l.List(S("f"), l.List(a, v)), l.List(S("f"), l.List(l.List(a, v), v))),
	}[k]
	sym.Assert(sameValue(r, want), "the definition made within the extension")
}

type instance struct {
	w                       *l.World
	out                     *sink
	fun, mac, dyn, prop, gf l.Node // nil unless defined
	redefined               bool
}

// Q01_Instances: definitions in one of two interpreters are not seen in the other.
func Q01_Instances() {
	var ws [2]*instance
	for i := range ws {
		ws[i] = &instance{w: l.New(), out: &sink{}}
		ws[i].w.SetStdout(ws[i].out)
	}
	written := [2]string{}
	for i := 0; i < tierDepth(2); i++ {
		k := sym.Choice("instance", 2)
		p := ws[k]
		v := l.Integer(sym.Int64("v"))
		src := ""
		switch sym.Choice("op", 8) {
		case 0:
			src, p.fun = "(defun q01f () v)", v
		case 1:
			src, p.mac = "(defmacro q01m () (list 'quote v))", v
		case 2:
			src, p.dyn = "(defdynamic q01d v)", v
		case 3:
			src, p.prop = "(set-property v 'a 'b)", v
		case 4:
			src, p.gf = "(defgeneric q01g (a)) (defmethod q01g ((a <integer>)) v)", v
		case 5:
			src = "(format (standard-output) \"x\")"
			written[k] += "x"
		case 6:
			src, p.redefined = "(defun cadr (x) v) (defun car (x) 'mine) (defmacro when (x &rest y) ''mine) (defmethod report-condition ((c <domain-error>) (s <object>)) 'mine)", true
		case 7:
			src = "(list (catch 'k (with-handler (lambda (c) (throw 'k c)) (car v))) (ignore-errors (throw 'none 1)) (dynamic-let ((q01d v)) (ignore-errors (dynamic q01d))))"
		}
		if _, err := p.w.Let(l.Variables{S("v"): v}).Interpret(ctx, src); err != nil {
			sym.ObserveStr("err", err.Error())
			sym.Assert(p.redefined, "evaluated")
		}
	}
	for k, p := range ws {
		for _, c := range []struct {
			src  string
			want l.Node
		}{{"(q01f)", p.fun}, {"(q01m)", p.mac}, {"(dynamic q01d)", p.dyn}, {"(q01g 1)", p.gf}} {
			r, err := p.w.Interpret(ctx, c.src)
			sym.Assert((err == nil) == (c.want != nil), "what is defined in "+c.src)
			sym.Assert(err != nil || sameValue(r, c.want), "the value of "+c.src)
		}
		sym.Assert(string(p.out.b) == written[k], "the standard output")
		r, err := p.w.Interpret(ctx, "(list (car '(1 2)) (cadr '(1 2)) (when t 3))")
		sym.Assert(err == nil, "built-in functions")
		if p.redefined {
			e := listElems(r)
			sym.Assert(e[0] == l.Node(S("mine")) && e[2] == l.Node(S("mine")), "the functions redefined")
			continue
		}
		sym.Assert(printed(r) == "(1 2 3)", "built-in functions")
		r, err = p.w.Interpret(ctx, "(property 'a 'b)")
		sym.Assert((err == nil) == (p.prop != nil), "the property")
		sym.Assert(err != nil || sameValue(r, p.prop), "the value of the property")
	}
}

// Q01_Nested: an evaluation in one interpreter from within another leaves the latter's bindings, handlers and targets.
func Q01_Nested() {
	a, b := l.Integer(sym.Int64("a")), l.Integer(sym.Int64("b"))
	inner := l.New()
	inner.SetStdout(&sink{})
	src := []string{
		"b", "(car b)", "(throw 'k b)", "(return-from k b)", "(with-handler (lambda (c) 1) (car b))", "(ignore-errors (throw 'k b))",
		"(dynamic-let ((q01d b)) (list (dynamic q01d)))", "(setq a b)", "(progn (defdynamic q01d b) b)", "(catch 'k (throw 'k b))", "(block k (return-from k b))",
		"(defun q01f () b)", "(with-standard-input (create-string-input-stream \"z\") (read-char))", "(unwind-protect (car b) (car b))", "(signal-condition 5 nil)", "(dynamic q01d)",
	}[sym.Choice("inner", 16)]
	host := l.Function0(func(ctx context.Context, _ *l.World) (l.Node, error) {
		r, err := inner.Let(l.Variables{S("b"): b}).Interpret(ctx, src)
		if err != nil {
			return S("failed"), nil
		}
		return l.List(S("value"), r), nil
	})
	w := W.Flet(l.Functions{S("host"): host}).Let(l.Variables{S("a"): a})
	r, err := w.Interpret(ctx, `(progn (defdynamic q01d 1) (defun q01f () 'outer)
(dynamic-let ((q01d a)) (with-standard-input (create-string-input-stream "y")
(catch 'k (block k (with-handler (lambda (c) (throw 'k (list 'handled a)))
(let ((v (host))) (list 'in (dynamic q01d) a (q01f) (read-char) (catch 'j (throw 'j a)) (car a) v)))))))) `)
	sym.ObserveStr("err", errText(err))
	sym.Assert(err == nil && sameValue(r, l.List(S("handled"), a)), "the handler, the targets and the bindings of the outer interpreter")
	r, err = w.Interpret(ctx, `(list (dynamic q01d) (dynamic-let ((q01d a)) (host) (dynamic q01d)) (q01f) (with-standard-input (create-string-input-stream "yz") (host) (read-char)) (dynamic q01d) (catch 'k (host) 'passed) (block k (host) 'passed))`)
	sym.ObserveStr("err", errText(err))
	sym.Assert(err == nil && sameValue(r, l.List(l.Integer(1), a, S("outer"), l.Rune('y'), l.Integer(1), S("passed"), S("passed"))), "what is bound in the outer interpreter")
}

// Q01_Callbacks: host functions of every type get exactly the evaluated arguments, and their results and errors are
// those of the call.
func Q01_Callbacks() {
	a, b := l.Integer(sym.Int64("a")), l.Integer(sym.Int64("b"))
	var got []l.Node
	calls := 0
	fail := sym.Choice("fail", 2) == 1
	failure := fmt.Errorf("failure of the host")
	reply := func(args ...l.Node) (l.Node, error) {
		calls++
		got = args
		if fail {
			return nil, failure
		}
		return l.List(append([]l.Node{S("result")}, args...)...), nil
	}
	type C = context.Context
	kinds := []l.Callable{
		l.Function0(func(C, *l.World) (l.Node, error) { return reply() }),
		l.Function1(func(_ C, _ *l.World, x l.Node) (l.Node, error) { return reply(x) }),
		l.Function2(func(_ C, _ *l.World, x, y l.Node) (l.Node, error) { return reply(x, y) }),
		&l.Function{C: 3, F: func(_ C, _ *l.World, x []l.Node) (l.Node, error) { return reply(x...) }},
		&l.Function{F: func(_ C, _ *l.World, x []l.Node) (l.Node, error) { return reply(x...) }},
		&l.Function{Min: 1, Max: 2, F: func(_ C, _ *l.World, x []l.Node) (l.Node, error) { return reply(x...) }},
		&l.Function{Min: 2, F: func(_ C, _ *l.World, x []l.Node) (l.Node, error) { return reply(x...) }},
		&l.Function{Max: 1, F: func(_ C, _ *l.World, x []l.Node) (l.Node, error) { return reply(x...) }},
	}
	min := []int{0, 1, 2, 3, 0, 1, 2, 0}
	max := []int{0, 1, 2, 3, 9, 2, 9, 1}
	k := sym.Choice("kind", len(kinds))
	n := sym.Choice("arguments", 5)
	args := []string{"a", "(car (list b))", "(rec a)", "'(a . b)"}[:n]
	want := []l.Node{a, b, a, &l.Cons{Car: S("a"), Cdr: S("b")}}[:n]
	list := strings.Join(args, " ")
	src := []string{
		"(host " + list + ")", "(funcall #'host " + list + ")", "(apply #'host (list " + list + "))", "(apply (function host) " + list + " nil)",
		"(car (mapcar (lambda (x) (host " + list + ")) '(1)))", "(let ((h #'host)) (funcall h " + list + "))", "(flet ((g () (host " + list + "))) (g))",
	}[sym.Choice("call", 7)]
	if n == 0 && strings.HasPrefix(src, "(apply (f") {
		return
	}
	var trace []l.Node
	r, err := hosted(&trace).Flet(l.Functions{S("host"): kinds[k]}).Let(l.Variables{S("a"): a, S("b"): b}).Interpret(ctx, src)
	if n < min[k] || n > max[k] {
		sym.Assert(err != nil && calls == 0, "a call with a wrong number of arguments")
		return
	}
	sym.Assert(calls == 1, "the function is called once")
	sym.Assert(len(got) == n, "the number of arguments")
	for i, x := range got {
		sym.Assert(sameValue(x, want[i]), "the arguments")
	}
	if n >= 3 {
		sym.Assert(len(trace) == 1 && sameValue(trace[0], a), "the arguments are evaluated once")
	}
	if fail {
		sym.Assert(err != nil && strings.Contains(err.Error(), failure.Error()), "the error of the host")
		return
	}
	sym.Assert(err == nil && sameValue(r, l.List(append([]l.Node{S("result")}, want...)...)), "the result of the host")
}

// Q01_Forms: the forms of a text are evaluated in order up to the first which fails, however the text is given.
func Q01_Forms() {
	a := l.Integer(sym.Int64("a"))
	forms := []string{"(rec a)", "(setq x (rec 2))", "(car (rec x))", "(rec (car 5))", "x", "(defun q01f () (rec 'f))", "(q01f)", ""}
	src := ""
	for i := 0; i < tierDepth(3); i++ {
		src += forms[sym.Choice("form", len(forms))] + []string{" ", "\n; comment\n"}[i%2]
	}
	var outcome [3]l.Node
	var errs [3]error
	var traces [3][]l.Node
	for k := range outcome {
		base := l.New()
		w := base.Flet(l.Functions{S("rec"): l.Function1(func(_ context.Context, _ *l.World, n l.Node) (l.Node, error) {
			traces[k] = append(traces[k], n)
			return n, nil
		})}).Let(l.Variables{S("a"): a, S("x"): l.Integer(1)})
		switch k {
		case 0:
			outcome[k], errs[k] = w.Interpret(ctx, src)
		case 1:
			outcome[k], errs[k] = w.InterpretBytes(ctx, []byte(src))
		case 2:
			nodes, err := readAll(src)
			sym.Assert(err == nil, "read")
			outcome[k] = l.Null
			for _, n := range nodes {
				if outcome[k], errs[k] = w.InterpretNodes(ctx, []l.Node{n}); errs[k] != nil {
					break
				}
			}
		}
	}
	for k := 1; k < 3; k++ {
		sym.Assert(errText(errs[0]) == errText(errs[k]), "the error")
		sym.Assert(errs[0] != nil || sameValue(outcome[0], outcome[k]), "the value of the last form")
		sym.Assert(len(traces[0]) == len(traces[k]), "the forms evaluated")
		for i := range traces[0] {
			sym.Assert(sameValue(traces[0][i], traces[k][i]), "the forms evaluated")
		}
	}
}

// Q01_Range: Range shows each visible variable exactly once, with the value a program sees, and stops when it is told to.
func Q01_Range() {
	w := l.New()
	_, err := w.Interpret(context.Background(), "(defglobal q01r 9)")
	sym.Assert(err == nil, "defglobal")
	n := 1 + sym.Choice("scopes", 3)
	names := []l.Symbol{S("x"), S("y"), S("q01r")}
	inner := w
	for i := 0; i < n; i++ {
		v := l.Integer(sym.Int64("v"))
		k := sym.Choice("scope", 5)
		switch k {
		case 0, 1, 2:
			inner = inner.Let(&l.Pair{Key: names[k], Value: v})
		case 3:
			inner = inner.Let(l.Variables{names[0]: v, names[1]: l.Null})
		case 4:
			inner = inner.Flet(l.Functions{names[0]: second})
		}
	}
	var seen []l.Symbol
	inner.Range(func(name l.Symbol, value l.Node) bool {
		for _, s := range seen {
			sym.Assert(s != name, "a variable is shown once")
		}
		seen = append(seen, name)
		r, err := inner.Get(name)
		sym.Assert(err == nil && r == value, "the value a program sees")
		return true
	})
	for _, name := range names {
		_, err := inner.Get(name)
		shown := false
		for _, s := range seen {
			shown = shown || s == name
		}
		sym.Assert(shown == (err == nil), "every visible variable is shown")
	}
	stop := 1 + sym.Choice("stop", 3)
	count := 0
	inner.Range(func(l.Symbol, l.Node) bool {
		count++
		return count < stop
	})
	want := stop
	if len(seen) < stop {
		want = len(seen)
	}
	sym.Assert(count == want, "Range stops when it is told to")
}
