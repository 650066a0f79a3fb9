package h

import (
	"context"
	"errors"
	"strings"

	l "github.com/hymkor/gmnlisp"
	"gmnverif/sym"
)

// paramForms are the ways to make the function f with the parameters P and to call it with the arguments A.
var paramForms = []string{
	"(defun f (P) B) (list (f A))",
	"(defun f (P) B) (f A)",
	"(list ((lambda (P) B) A))",
	"(list (funcall (lambda (P) B) A))",
	"(list (apply (lambda (P) B) (list A)))",
	"(flet ((f (P) B)) (list (f A)))",
	"(labels ((f (P) B)) (list (f A)))",
	"(labels ((g () (f A)) (f (P) B)) (list (g)))",
	"(defun f (P) B) (funcall #'f A)",
	"(defun f (P) B) (apply #'f (list A))",
	"(defun f (P) (if k (progn B) (progn (setq k 1) (f A)))) (list (apply #'f '(Q)))",
	"(labels ((f (P) (if k (progn B) (progn (setq k 1) (f A))))) (apply #'f '(Q)))",
	"(flet ((f (P) B)) (mapcar (lambda (x) (f A)) '(1)))",
	"(defun f (P) B) (with-handler (lambda (c) (throw 'c (kind c))) (catch 'c (f A)))",
	"(let ((f (lambda (P) B))) (funcall f A))",
}

// oneNil makes one of the values nil, or none of them.
func oneNil(kv []any) []any {
	if i := sym.Choice("nil", len(kv)/2+1); i < len(kv)/2 {
		kv[2*i+1] = l.Null
	}
	return kv
}

// perhapsNil makes the first of the values nil or leaves it; the thorough tier does what oneNil does.
func perhapsNil(kv []any) []any {
	if sym.Thorough() {
		return oneNil(kv)
	}
	if sym.Choice("nil", 2) == 1 {
		kv[1] = l.Null
	}
	return kv
}

func params(n, rest int) (string, string) {
	ps := []string{"p", "q", "r"}[:n]
	body := "(rec (list 'body"
	for _, p := range ps {
		body += " " + p
	}
	s := strings.Join(ps, " ")
	if rest > 0 {
		s += []string{"", " &rest s", " :rest s"}[rest]
		body += " s"
	}
	return strings.TrimSpace(s), body + "))"
}

func arguments(k int) string {
	return strings.Join([]string{"(rec a)", "(rec b)", "(rec z)", "(rec 4)"}[:k], " ")
}

// I05_User: every combination of parameters, supplied arguments and calling form.
func I05_User() {
	form := paramForms[sym.Choice("form", len(paramForms))]
	n := sym.Choice("params", 4)
	rest := sym.Choice("rest", 3)
	k := sym.Choice("args", 5)
	p, body := params(n, rest)
	src := strings.NewReplacer("P", p, "B", body, "A", arguments(k), "Q", strings.Join([]string{"7", "8", "9"}[:n], " ")).Replace(form)
	// the arguments that exceed a parameter list may or may not be evaluated
	if k > n && rest == 0 {
		src = strings.ReplaceAll(src, "(rec 4)", "4")
		for i, x := range []string{"(rec a)", "(rec b)", "(rec z)"} {
			if i >= n {
				src = strings.ReplaceAll(src, x, x[5:6])
			}
		}
	}
	agreeRef("(let ((k nil)) "+src+")", oneNil(abz())...)
}

// runRec runs src in a World with rec and returns the value, the error and what was recorded.
func runRec(src string, kv ...any) (l.Node, error, []l.Node) {
	var trace []l.Node
	vars := l.Variables{}
	for i := 0; i < len(kv); i += 2 {
		vars[S(kv[i].(string))] = kv[i+1].(l.Node)
	}
	r, err := hosted(&trace).Let(vars).Interpret(ctx, src)
	return r, err, trace
}

// I05_Methods: methods and generic functions.
func I05_Methods() {
	n := sym.Choice("params", 4)
	rest := sym.Choice("rest", 3)
	k := sym.Choice("args", 5)
	p, body := params(n, rest)
	kv := oneNil(abz())
	src := "(defgeneric f (" + p + ")) (defmethod f (" + p + ") " + body + ") "
	src += []string{"(f A)", "(apply #'f (list A))", "(funcall #'f A)", "(catch 'c (list (f A)))"}[sym.Choice("call", 4)]
	r, err, trace := runRec(strings.ReplaceAll(src, "A", strings.NewReplacer("(rec ", "", ")", "").Replace(arguments(k))), kv...)
	if k == n || k > n && rest > 0 {
		sym.Assert(err == nil && len(trace) == 1, "the method runs once")
		sym.Assert(sameValue(trace[0], expected(n, rest, k, kv)), "parameters of the method")
		if c, ok := r.(*l.Cons); ok && c.Car != S("body") {
			r = c.Car
		}
		sym.Assert(sameValue(r, trace[0]), "value of the method")
		return
	}
	sym.Assert(err != nil, "wrong number of arguments accepted")
	sym.Assert(len(trace) == 0, "the body ran")
}

// expected is the list (body p q r s) for k arguments.
func expected(n, rest, k int, kv []any) l.Node {
	vals := []l.Node{kv[1].(l.Node), kv[3].(l.Node), kv[5].(l.Node), l.Integer(4)}[:k]
	r := append([]l.Node{S("body")}, vals[:n]...)
	if rest > 0 {
		r = append(r, l.List(vals[n:]...))
	}
	return l.List(r...)
}

// I05_Macros: macros, whose parameters receive the operands unevaluated.
func I05_Macros() {
	n := sym.Choice("params", 4)
	rest := sym.Choice("rest", 3)
	k := sym.Choice("args", 5)
	p, body := params(n, rest)
	src := []string{
		"(defmacro f (P) (list 'quote B)) (f A)",
		"(defmacro f (P) (list 'quote B)) (defun g () (f A)) (g)",
		"(defmacro f (P) (list 'quote B)) (macroexpand '(f A))",
	}
	how := sym.Choice("call", len(src))
	if how == 1 {
		// an expansion that fails while a function is defined is reported when it runs
		sym.Assume(k == n || k > n && rest > 0)
	}
	r, err, trace := runRec(strings.NewReplacer("P", p, "B", body, "A", strings.Join([]string{"(u)", "v", "nil", "\"w\""}[:k], " ")).Replace(src[how]))
	if k == n || k > n && rest > 0 {
		sym.Assert(err == nil && len(trace) >= 1, "the macro runs")
		want := expected(n, rest, k, []any{"", l.List(S("u")), "", S("v"), "", l.Null})
		if k > 3 {
			c := listOf(want)
			if rest > 0 {
				var vals []l.Node
				for i, x := range []l.Node{l.List(S("u")), S("v"), l.Null, l.String("w")} {
					if i >= n {
						vals = append(vals, x)
					}
				}
				c[len(c)-1] = l.List(vals...)
			}
			want = l.List(c...)
		}
		if how == 2 {
			want = l.List(S("quote"), want)
		}
		v, e := call("equal", r, want)
		sym.Assert(e == nil && v == l.True, "operands of the macro")
		return
	}
	sym.Assert(err != nil, "wrong number of operands accepted")
	sym.Assert(len(trace) == 0, "the macro ran")
}

// I05_Host: functions of the embedding program declare their arity.
func I05_Host() {
	var got []l.Node
	ran := 0
	take := func(a ...l.Node) (l.Node, error) {
		ran++
		got = append(got, a...)
		return l.Null, nil
	}
	list := func(_ context.Context, _ *l.World, a []l.Node) (l.Node, error) { return take(a...) }
	lo, hi := 0, 9
	var f l.Callable
	switch sym.Choice("kind", 8) {
	case 0:
		f, lo, hi = l.Function0(func(context.Context, *l.World) (l.Node, error) { return take() }), 0, 0
	case 1:
		f, lo, hi = l.Function1(func(_ context.Context, _ *l.World, a l.Node) (l.Node, error) { return take(a) }), 1, 1
	case 2:
		f, lo, hi = l.Function2(func(_ context.Context, _ *l.World, a, b l.Node) (l.Node, error) { return take(a, b) }), 2, 2
	case 3:
		f, lo, hi = &l.Function{C: 3, F: list}, 3, 3
	case 4:
		f = &l.Function{F: list}
	case 5:
		f, lo = &l.Function{Min: 2, F: list}, 2
	case 6:
		f, hi = &l.Function{Max: 2, F: list}, 2
	case 7:
		f, lo, hi = &l.Function{Min: 1, Max: 3, F: list}, 1, 3
	}
	kv := oneNil(abz())
	k := sym.Choice("args", 5)
	args := []string{"a", "b", "z", "4"}[:k]
	if z := sym.Choice("literal", k+1); z < k {
		args[z] = "nil"
		if z < 3 {
			kv[2*z+1] = l.Null
		}
	}
	src := []string{"(f A)", "(funcall #'f A)", "(apply #'f (list A))", "(let ((g #'f)) (funcall g A))"}[sym.Choice("call", 4)]
	w := W.Flet(l.Functions{S("f"): f}).Let(l.Variables{S("a"): kv[1].(l.Node), S("b"): kv[3].(l.Node), S("z"): kv[5].(l.Node)})
	_, err := w.Interpret(ctx, strings.ReplaceAll(src, "A", strings.Join(args, " ")))
	if k < lo || k > hi {
		sym.Assert(isArity(err) && ran == 0, "wrong number of arguments")
		return
	}
	sym.Assert(err == nil && ran == 1, "right number of arguments")
	sym.Assert(sameValue(l.List(got...), hostArgs(args, kv)), "arguments of the host function")
}

func hostArgs(args []string, kv []any) l.Node {
	r := make([]l.Node, len(args))
	for i, a := range args {
		switch {
		case a == "nil":
			r[i] = l.Null
		case i == 3:
			r[i] = l.Integer(4)
		default:
			r[i] = kv[2*i+1].(l.Node)
		}
	}
	return l.List(r...)
}

func isArity(err error) bool {
	if err == nil {
		return false
	}
	var p l.ProgramError
	var q *l.ProgramError
	return errors.Is(err, l.ErrTooFewArguments) || errors.Is(err, l.ErrTooManyArguments) || errors.As(err, &p) || errors.As(err, &q)
}

// arities: the functions by the numbers of arguments they accept.
var arities = []struct {
	lo, hi int
	names  string
}{
	{0, 0, "create-string-output-stream error-output gensym get-internal-real-time get-internal-run-time get-universal-time internal-time-units-per-second make-hash-table standard-input standard-output exit quit abort gmn:dump-session"},
	{1, 1, "arithmetic-error-operands arithmetic-error-operation array-dimensions atom basic-array*-p basic-array-p car cdr ceiling characterp class-of close clrhash consp create-string-input-stream domain-error-expected-class domain-error-object eval evenp floatp floor functionp general-array*-p generic-function-p get-output-stream-string hash-table-count integerp last length listp load macroexpand minusp not nreverse null numberp oddp open-input-file open-output-file parse-number plusp probe-file rest reverse round sqrt stringp symbolp truncate undefined-entity-name undefined-entity-namespace zerop caar cadr cddr caddr cdddr cadddr first second third 1+ 1- return"},
	{2, 2, "/= assoc char/= char< char<= char= char> char>= cons file-length format-char format-float gethash member mod rem remhash set-car set-cdr signal-condition string/= string< string<= string= string> string>= subclassp throw nth nthcdr set-cadr set-cddr set-caddr set-cdddr set-cadddr"},
	{3, 3, "format-integer format-object set-gethash subseq set-nth set-nthcdr"},
	{1, 2, "create-array create-string"},
	{2, 3, "char-index string-index"},
	{0, 3, "read read-char read-line"},
	{0, 9, "- / * + append list string-append vector"},
	{1, 9, "max min create"},
	{2, 9, "aref elt create-list mapc mapcan mapcar mapcon mapl maplist format"},
	{3, 9, "set-aref"},
}

// I05_Builtin: every built-in function rejects the wrong numbers of arguments, and no other.
func I05_Builtin() {
	g := arities[sym.Choice("arity", len(arities))]
	names := strings.Fields(g.names)
	name := names[sym.Choice("name", len(names))]
	k := sym.Choice("args", 5)
	x := l.Node(l.Integer(sym.Int64("x")))
	ok := k >= g.lo && k <= g.hi
	arg := " x"
	if !ok {
		arg = []string{" x", " nil", " 'x", " \"\""}[sym.Choice("operand", 4)]
	}
	src := "(" + name + strings.Repeat(arg, k) + ")"
	if sym.Choice("apply", 2) == 1 {
		src = "(apply #'" + name + " (list" + strings.Repeat(arg, k) + "))"
	}
	if !ok && sym.Choice("nil", 2) == 1 {
		x = l.Null
	}
	if ok {
		x = l.Null // an improper list would be another error
		// the values are checked elsewhere; these have effects outside of the interpreter or wait for input
		for _, s := range strings.Fields("exit quit abort gmn:dump-session read read-char read-line load return throw create-list create-array create-string get-universal-time get-internal-real-time get-internal-run-time eval signal-condition macroexpand") {
			sym.Assume(s != name)
		}
	}
	_, err := W.Let(l.Variables{S("x"): x}).Interpret(ctx, src)
	if ok {
		sym.Assert(!isArity(err), "number of arguments of "+name+" rejected")
	} else {
		sym.Assert(err != nil, "number of arguments of "+name+" accepted")
	}
}

// I05_Displayed: the definition that expand-defun displays defines the same function again.
func I05_Displayed() {
	n := sym.Choice("params", 4)
	p, body := params(n, sym.Choice("rest", 3))
	body = strings.TrimSuffix(strings.TrimPrefix(body, "(rec "), ")")
	body = []string{
		body,
		"(if p0 'a) " + body,
		"`(a ,'b \"s\\\"\" #\\a ,@c ," + body + ")",
		"(let ((v '|a b|)) (cons v " + body + "))",
		"(when p0 1) (unless p0 " + body + ")",
		"(setq p0 1.5) (list p0 '(x . y) nil t " + body + ")",
		"(mapcar (lambda (x &rest y) (list x y)) " + body + ")",
		"'" + body,
	}[sym.Choice("body", 8)]
	args := ""
	k := sym.Choice("args", 5)
	for i := 0; i < k; i++ {
		args += []string{" x", " y", " 'c", " \"d\""}[i]
	}
	kv := xy()
	form := "(catch 'k (with-handler (lambda (c) (throw 'k 'refused)) (f" + args + ")))"
	out := &sink{}
	w := l.New()
	w.SetStdout(out)
	eval := func(src string) l.Node {
		vars := l.Variables{S("p0"): l.Null}
		for i := 0; i < len(kv); i += 2 {
			vars[S(kv[i].(string))] = kv[i+1].(l.Node)
		}
		r, err := w.Let(vars).Interpret(ctx, src)
		sym.Assert(err == nil, "evaluated: "+src)
		return r
	}
	eval("(defun f (" + p + ") " + body + ")")
	want := eval(form)
	eval("(expand-defun f)")
	eval("(defun f () 'nothing)")
	eval(string(out.b))
	sym.Assert(same(2, eval(form), want), "the displayed function")
}
