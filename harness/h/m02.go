package h

import (
	"fmt"

	l "github.com/hymkor/gmnlisp"
	"gmnverif/sym"
)

// kinds of arguments of a generic function, with the classes they belong to from the most specific one; in the
// model the classes c0, c1 and c2 are inserted according to the hierarchy.
type arg struct {
	node    l.Node
	classes map[string]bool
}

// above lists the proper super classes of the built-in classes used.
var above = map[string][]string{
	"<integer>": {"<number>", "<object>"}, "<float>": {"<number>", "<object>"}, "<number>": {"<object>"}, "<null>": {"<symbol>", "<list>", "<object>"},
	"<cons>": {"<list>", "<object>"}, "<list>": {"<object>"}, "<symbol>": {"<object>"}, "<string>": {"<object>"}, "<object>": {},
}

// dispatch is the model of a hierarchy of classes.
type dispatch struct{ classes []*mclass }

// under tells whether class a is b or below it.
func (d *dispatch) under(a, b string) bool {
	if a == b || b == "<object>" {
		return true
	}
	for _, c := range d.classes {
		if c.name == a {
			for _, k := range c.order() {
				if k.name == b {
					return true
				}
			}
			return false
		}
	}
	for _, k := range above[a] {
		if k == b {
			return true
		}
	}
	return false
}

type mmethod struct {
	types []string
	rest  string // class of the rest parameter or empty
}

func (m *mmethod) text(i int) string {
	s := "(defmethod g ("
	names := "i"
	for k, t := range m.types {
		if t == "" {
			s += fmt.Sprintf("p%d ", k)
		} else {
			s += fmt.Sprintf("(p%d %s) ", k, t)
		}
		names += fmt.Sprintf(" p%d", k)
	}
	if m.rest != "" {
		s += "&rest (r " + m.rest + ")"
		names += " r"
	}
	return s + fmt.Sprintf(") (let ((i %d)) (list %s)))", i, names)
}

func (m *mmethod) applicable(d *dispatch, args []string) bool {
	if len(args) < len(m.types) || m.rest == "" && len(args) > len(m.types) {
		return false
	}
	for i, a := range args {
		t := m.rest
		if i < len(m.types) {
			t = m.types[i]
		}
		if t != "" && !d.under(a, t) {
			return false
		}
	}
	return true
}

// compare: -1 when m is more specific than o, 1 when less, 0 when their classes are equal, 2 when neither is more specific.
func (m *mmethod) compare(d *dispatch, o *mmethod) int {
	a, b := m.types, o.types
	if m.rest != "" {
		a, b = append(append([]string{}, a...), m.rest), append(append([]string{}, b...), o.rest)
	}
	for i := range a {
		x, y := a[i], b[i]
		if x == "" {
			x = "<object>"
		}
		if y == "" {
			y = "<object>"
		}
		switch {
		case x == y:
		case d.under(x, y):
			return -1
		case d.under(y, x):
			return 1
		default:
			return 2
		}
	}
	return 0
}

// called checks a result of calling the generic function.
func (d *dispatch) called(methods []*mmethod, classes []string, args []l.Node, r l.Node, err error) {
	any := false
	for _, m := range methods {
		any = any || m.applicable(d, classes)
	}
	if !any {
		sym.Assert(err != nil, "no method is applicable, but there is no error")
		return
	}
	if err != nil {
		sym.ObserveStr("err", err.Error())
	}
	sym.Assert(err == nil, "a method is applicable, but there is an error")
	e := listElems(r)
	id, ok := e[0].(l.Integer)
	sym.Assert(ok && id >= 0 && int(id) < len(methods), "the value of a method")
	m := methods[id]
	sym.Assert(m.applicable(d, classes), "the method called is not applicable")
	for i, o := range methods {
		if !o.applicable(d, classes) {
			continue
		}
		c := o.compare(d, m)
		sym.Assert(c != -1, "a more specific method is not called")
		sym.Assert(c != 0 || i <= int(id), "the method was replaced by a later definition")
	}
	n := len(m.types)
	for i := 0; i < n; i++ {
		sym.Assert(rel("eql", e[1+i], args[i]), "an argument was changed")
	}
	if m.rest != "" {
		rest := listElems(e[1+n])
		sym.Assert(len(rest) == len(args)-n, "the number of rest arguments")
		for i, x := range rest {
			sym.Assert(rel("eql", x, args[n+i]), "a rest argument was changed")
		}
	}
}

func newDispatch(h int, generic string, methods []*mmethod) *dispatch {
	d := &dispatch{hierarchy(h)}
	defineAll(d.classes)
	_, err := run(generic)
	sym.Assert(err == nil, "defgeneric")
	for i, m := range methods {
		_, err := run(m.text(i))
		sym.Assert(err == nil, "defmethod")
	}
	return d
}

// argument makes an object of the class.
func argument(label, class_ string) l.Node {
	switch class_ {
	case "<integer>":
		return l.Integer(sym.Int64(label))
	case "<float>":
		f := sym.Float64(label)
		sym.Assume(f == f)
		return l.Float(f)
	case "<null>":
		return l.Null
	case "<cons>":
		return &l.Cons{Car: l.Integer(1), Cdr: l.Null}
	case "<symbol>":
		return S("s")
	case "<string>":
		return l.String(text(label, 1, ""))
	}
	return okCall("create", class(class_))
}

func pick(label string, from []string) string { return from[sym.Choice(label, len(from))] }

// M02_Single: three methods of one parameter with any classes, in any order of definition, called with an object of any class.
func M02_Single() {
	pool := []string{"", "c0", "c1", "c2", "<number>", "<integer>", "<list>", "<null>"}
	var ms []*mmethod
	for i := 0; i < 3; i++ {
		ms = append(ms, &mmethod{types: []string{pick("method", pool)}})
	}
	d := newDispatch([]int{6, 1, 4}[sym.Choice("hierarchy", 3)], "(defgeneric g (x))", ms)
	c := pick("argument", []string{"c0", "c1", "c2", "<integer>", "<float>", "<null>", "<cons>", "<symbol>"})
	a := argument("a", c)
	r, err := call("g", a)
	d.called(ms, []string{c}, []l.Node{a}, r, err)
}

// M02_Double: three methods of two parameters.
func M02_Double() {
	pool := []string{"", "c0", "c1"}
	if sym.Thorough() {
		pool = append(pool, "<integer>")
	}
	var ms []*mmethod
	for i := 0; i < 3; i++ {
		ms = append(ms, &mmethod{types: []string{pick("method", pool), pick("method", pool)}})
	}
	d := newDispatch(6, "(defgeneric g (x y))", ms)
	classes := []string{"c0", "c1", "<integer>"}
	cs := []string{pick("a", classes), pick("b", classes)}
	as := []l.Node{argument("a", cs[0]), argument("b", cs[1])}
	r, err := call("g", as...)
	d.called(ms, cs, as, r, err)
}

// M02_Rest: methods with a rest parameter.
func M02_Rest() {
	pool := []string{"<object>", "c0", "<integer>", "<number>"}
	var ms []*mmethod
	for i := 0; i < 2; i++ {
		ms = append(ms, &mmethod{types: []string{pick("method", []string{"", "<integer>", "c0"})}, rest: pick("rest", pool)})
	}
	d := newDispatch(6, "(defgeneric g (x &rest y))", ms)
	var cs []string
	var as []l.Node
	count := sym.Choice("count", 4)
	for i := 0; i < count; i++ {
		c := pick("class", []string{"<integer>", "c1", "<float>"})
		cs = append(cs, c)
		as = append(as, argument(fmt.Sprint("v", i), c))
	}
	r, err := call("g", as...)
	d.called(ms, cs, as, r, err)
}

// M02_Count: a number of arguments no method takes is an error.
func M02_Count() {
	n := 1 + sym.Choice("parameters", 3)
	m := &mmethod{types: make([]string, n)}
	params := []string{"(x)", "(x y)", "(x y z)"}[n-1]
	d := newDispatch(0, "(defgeneric g "+params+")", []*mmethod{m})
	var cs []string
	var as []l.Node
	count := sym.Choice("count", 5)
	for i := 0; i < count; i++ {
		cs = append(cs, "<integer>")
		as = append(as, argument(fmt.Sprint("v", i), "<integer>"))
	}
	r, err := call("g", as...)
	d.called([]*mmethod{m}, cs, as, r, err)
}

var genericUses = []struct{ src, want string }{
	{"(g (rec x) (rec y))", "(i x y)"},
	{"(funcall #'g x y)", "(i x y)"},
	{"(apply #'g x (list y))", "(i x y)"},
	{"(mapcar #'g (list x y) (list y x))", "((i x y) (i y x))"},
	{"(let ((f #'g)) (defmethod g ((a <integer>) (b <integer>)) 'new) (list (g x y) (funcall f x y)))", "(new new)"},
	{"(progn (defgeneric g (a b)) (ignore-errors (g x y)))", "nil"},
	{"(progn (defgeneric g (a b)) (defmethod g ((a <integer>) b) 'fresh) (g x y))", "fresh"},
	{"(let ((k 5)) (defmethod g ((a <integer>) (b <integer>)) (setq k (+ k 1)) (list k x)) (list (g 1 2) (g 3 4) k))", "((6 x) (7 x) 7)"},
	{"(progn (defmethod g ((a <integer>) (b <integer>)) (if (= b 0) 'done (list (g a 0)))) (g x 1))", "(done)"},
	{"(flet ((g (a b) 'local)) (g x y))", "local"},
	{"(list (generic-function-p #'g) (generic-function-p #'car) (generic-function-p 'g) (generic-function-p x))", "(t nil nil nil)"},
	{"(block b (g x (return-from b y)))", "y"},
	{"(catch 'c (progn (defmethod g ((a <integer>) (b <integer>)) (throw 'c (list b a))) (g x y)))", "(y x)"},
	{"(progn (defmethod g ((a <integer>) (b <integer>)) (setq a 1) (setq b 2)) (g x y) (list x y))", "(x y)"},
	{"(progn (defmethod g ((a <integer>) (b <integer>))) (list (g x y)))", "(nil)"},
}

// M02_Uses: generic functions are called like functions: operands are evaluated once in order, methods are closures.
func M02_Uses() {
	u := genericUses[sym.Choice("use", len(genericUses))]
	x, y := l.Integer(sym.Int64("x")), l.Integer(sym.Int64("y"))
	_, err := run("(defgeneric g (a b)) (defmethod g (a b) (list 'i a b))")
	sym.Assert(err == nil, "defined")
	r, err, trace := runRec(u.src, "x", x, "y", y)
	if err != nil {
		sym.ObserveStr("err", err.Error())
	}
	sym.Assert(err == nil, "called: "+u.src)
	want, err := readOne(u.want)
	sym.Assert(err == nil, "read")
	sym.Assert(sameValue(r, subst(subst(want, S("x"), x), S("y"), y)), "value: "+u.src)
	if len(trace) > 0 {
		sym.Assert(len(trace) == 2 && rel("eql", trace[0], x) && rel("eql", trace[1], y), "the operands are evaluated once, in order")
	}
}

// subst puts v in the place of the symbol s.
func subst(n l.Node, s l.Symbol, v l.Node) l.Node {
	if c, ok := n.(*l.Cons); ok {
		return &l.Cons{Car: subst(c.Car, s, v), Cdr: subst(c.Cdr, s, v)}
	}
	if n == l.Node(s) {
		return v
	}
	return n
}
