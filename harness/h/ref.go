package h

import (
	"context"
	"errors"

	l "github.com/hymkor/gmnlisp"
	"gmnverif/sym"
)

// An evaluator for the core language, written from the properties (environments are linked
// bindings, exits name the activation they leave).  The program families of I01-L01 run through
// the interpreter and through it with the same symbolic data.

type rvar struct {
	name string
	val  l.Node
	next *rvar
}

type rfun struct {
	name string
	fn   l.Node
	next *rfun
}

type rblock struct {
	name string // a block, or a tag of a tagbody
	id   *int   // activation; nil once left
	go_  bool
	next *rblock
}

type renv struct {
	v *rvar
	f *rfun
	b *rblock
}

type closure struct {
	params []string
	rest   string
	body   []l.Node
	env    renv
}

func (c *closure) Equals(n l.Node, _ l.EqlMode) bool { x, ok := n.(*closure); return ok && x == c }
func (c *closure) String() string                    { return "closure" }
func (c *closure) ClassOf() l.Class                  { return nil }

type prim string

func (c prim) Equals(n l.Node, _ l.EqlMode) bool { x, ok := n.(prim); return ok && x == c }
func (c prim) String() string                    { return string(c) }
func (c prim) ClassOf() l.Class                  { return nil }

// rmacro is a macro: its parameters are bound to the operands of the call.
type rmacro struct{ *closure }

// rvec is a vector or, with keys, a hash table.
type rvec struct {
	keys, elts []l.Node
	table      bool
}

func (c *rvec) Equals(n l.Node, _ l.EqlMode) bool { x, ok := n.(*rvec); return ok && x == c }
func (c *rvec) String() string                    { return "vector" }
func (c *rvec) ClassOf() l.Class                  { return nil }

// rcond is a condition: the name of its class and the object it is about.
type rcond struct {
	class string
	obj   l.Node
}

func (c *rcond) Equals(n l.Node, _ l.EqlMode) bool { x, ok := n.(*rcond); return ok && x == c }
func (c *rcond) String() string                    { return c.class }
func (c *rcond) ClassOf() l.Class                  { return nil }

const (
	xError = iota
	xBlock
	xGo
	xThrow
	xContinue
)

type rexit struct {
	kind int
	id   *int
	tag  string
	val  l.Node
	cond l.Node
}

type rcatch struct {
	tag  l.Node
	id   *int
	next *rcatch
}

type rdyn struct {
	name string
	val  l.Node
	next *rdyn
}

type rhandler struct {
	fn   l.Node
	next *rhandler
}

type mach struct {
	trace    []l.Node
	global   *rvar
	funcs    *rfun
	dyn      *rdyn
	catchers *rcatch
	handler  *rhandler
	active   []*int
	steps    int
	open     bool // the outcome is not laid down
}

func (m *mach) live(id *int) bool {
	for _, a := range m.active {
		if a == id {
			return true
		}
	}
	return false
}

func (m *mach) enter() *int {
	id := new(int)
	m.active = append(m.active, id)
	return id
}

func (m *mach) leave() { m.active = m.active[:len(m.active)-1] }

func listOf(n l.Node) []l.Node {
	var r []l.Node
	for {
		c, ok := n.(*l.Cons)
		if !ok {
			return r
		}
		r = append(r, c.Car)
		n = c.Cdr
	}
}

func isNil(n l.Node) bool { return n == nil || n == l.Null }

func truth(b bool) l.Node {
	if b {
		return l.True
	}
	return l.Null
}

func (m *mach) fail(class string, obj l.Node) (l.Node, *rexit) {
	return m.signal(&rcond{class, obj}, false)
}

func (m *mach) signal(c l.Node, cont bool) (l.Node, *rexit) {
	h := m.handler
	if h == nil {
		return nil, &rexit{kind: xError, cond: c}
	}
	m.handler = h.next
	_, x := m.apply(h.fn, []l.Node{c})
	m.handler = h
	if x == nil {
		// the handler neither left nor continued
		m.open = m.open || h.next != nil
		return nil, &rexit{kind: xError, cond: c}
	}
	if x.kind == xContinue && x.cond == c {
		if cont {
			return x.val, nil
		}
		m.open = m.open || h.next != nil
		return nil, &rexit{kind: xError, cond: c}
	}
	return nil, x
}

func (m *mach) progn(body []l.Node, e renv) (l.Node, *rexit) {
	var r l.Node = l.Null
	for _, f := range body {
		var x *rexit
		if r, x = m.eval(f, e); x != nil {
			return nil, x
		}
	}
	return r, nil
}

func (m *mach) args(forms []l.Node, e renv) ([]l.Node, *rexit) {
	var r []l.Node
	for _, f := range forms {
		v, x := m.eval(f, e)
		if x != nil {
			return nil, x
		}
		r = append(r, v)
	}
	return r, nil
}

func makeClosure(n []l.Node, e renv) *closure {
	c := &closure{env: e, body: n[1:]}
	ps := listOf(n[0])
	for i := 0; i < len(ps); i++ {
		if s := ps[i].String(); s == "&rest" || s == ":rest" {
			c.rest = ps[i+1].String()
			break
		}
		c.params = append(c.params, ps[i].String())
	}
	return c
}

func (m *mach) apply(f l.Node, args []l.Node) (l.Node, *rexit) {
	if p, ok := f.(prim); ok {
		return m.prim(string(p), args)
	}
	c, ok := f.(*closure)
	if !ok {
		return m.fail("<domain-error>", f)
	}
	if len(args) < len(c.params) || len(args) > len(c.params) && c.rest == "" {
		return m.fail("<program-error>", l.Null)
	}
	e := c.env
	for i, p := range c.params {
		e.v = &rvar{p, args[i], e.v}
	}
	if c.rest != "" {
		e.v = &rvar{c.rest, l.List(args[len(c.params):]...), e.v}
	}
	return m.progn(c.body, e)
}

func (m *mach) lookup(name string, e renv) *rvar {
	for v := e.v; v != nil; v = v.next {
		if v.name == name {
			return v
		}
	}
	for v := m.global; v != nil; v = v.next {
		if v.name == name {
			return v
		}
	}
	return nil
}

func (m *mach) function(name string, e renv) l.Node {
	for f := e.f; f != nil; f = f.next {
		if f.name == name {
			return f.fn
		}
	}
	for f := m.funcs; f != nil; f = f.next {
		if f.name == name {
			return f.fn
		}
	}
	if primNames[name] {
		return prim(name)
	}
	return nil
}

var primNames = map[string]bool{"+": true, "-": true, "*": true, "/": true, "<": true, ">": true, "=": true,
	"<=": true, ">=": true, "list": true, "cons": true, "car": true, "cdr": true, "null": true, "not": true,
	"eq": true, "eql": true, "rec": true, "kind": true, "1+": true, "1-": true, "apply": true, "throw": true,
	"signal-condition": true, "return": true, "consp": true, "nth": true, "elt": true, "aref": true, "gethash": true, "vector": true, "make-hash-table": true, "cadr": true, "macroexpand": true, "append": true, "reverse": true, "length": true, "mapcar": true, "mapc": true}

func ints2(a []l.Node) (l.Integer, l.Integer, l.Node) {
	x, ok := a[0].(l.Integer)
	if !ok {
		return 0, 0, a[0]
	}
	y, ok := a[1].(l.Integer)
	if !ok {
		return 0, 0, a[1]
	}
	return x, y, nil
}

func (m *mach) prim(name string, a []l.Node) (l.Node, *rexit) {
	switch name {
	case "list":
		return l.List(a...), nil
	case "rec":
		m.trace = append(m.trace, a[0])
		return a[0], nil
	case "kind":
		if c, ok := a[0].(*rcond); ok {
			return l.List(S(c.class), c.obj), nil
		}
		return l.List(S("object"), a[0]), nil
	case "apply":
		n := len(a) - 1
		return m.apply(a[0], append(append([]l.Node{}, a[1:n]...), listOf(a[n])...))
	case "throw":
		for c := m.catchers; c != nil; c = c.next {
			if same(1, c.tag, a[0]) {
				return nil, &rexit{kind: xThrow, id: c.id, val: a[1]}
			}
		}
		return m.fail("<control-error>", l.Null)
	case "signal-condition":
		return m.signal(a[0], !isNil(a[1]))
	case "vector":
		return &rvec{elts: append([]l.Node{}, a...)}, nil
	case "make-hash-table":
		return &rvec{table: true}, nil
	case "nth", "elt", "aref", "gethash", "cadr":
		p, x := m.cell(name, a)
		if p == nil {
			return l.Null, x
		}
		return *p, nil
	case "macroexpand":
		c := a[0].(*l.Cons)
		return m.expand(m.function(c.Car.String(), renv{}).(*rmacro), c.Cdr)
	case "mapcar", "mapc":
		var r []l.Node
		for i := 0; ; i++ {
			var args []l.Node
			for _, y := range a[1:] {
				if ys := listOf(y); i < len(ys) {
					args = append(args, ys[i])
				}
			}
			if len(args) < len(a)-1 {
				break
			}
			v, x := m.apply(a[0], args)
			if x != nil {
				return nil, x
			}
			r = append(r, v)
		}
		if name == "mapc" {
			return a[1], nil
		}
		return l.List(r...), nil
	case "append":
		r := []l.Node{}
		for _, y := range a[:len(a)-1] {
			r = append(r, listOf(y)...)
		}
		var res = a[len(a)-1]
		for i := len(r) - 1; i >= 0; i-- {
			res = &l.Cons{Car: r[i], Cdr: res}
		}
		return res, nil
	}
	n := map[string]int{"cons": 2, "+": 2, "-": 2, "*": 2, "/": 2, "<": 2, ">": 2, "=": 2, "<=": 2, ">=": 2, "eq": 2, "eql": 2}[name]
	if n == 0 {
		n = 1
	}
	if len(a) != n {
		return m.fail("<program-error>", l.Null)
	}
	switch name {
	case "cons":
		return &l.Cons{Car: a[0], Cdr: a[1]}, nil
	case "car", "cdr":
		c, ok := a[0].(*l.Cons)
		if !ok {
			// a handler may continue with another argument
			v, x := m.signal(&rcond{"<domain-error>", a[0]}, true)
			if x != nil {
				return nil, x
			}
			if c, ok = v.(*l.Cons); !ok {
				m.open = m.open || m.handler != nil && m.handler.next != nil
				return nil, &rexit{kind: xError, cond: &rcond{"<domain-error>", a[0]}}
			}
		}
		if name == "car" {
			return c.Car, nil
		}
		return c.Cdr, nil
	case "null", "not":
		return truth(isNil(a[0])), nil
	case "consp":
		_, ok := a[0].(*l.Cons)
		return truth(ok), nil
	case "eq", "eql":
		return truth(same(1, a[0], a[1])), nil
	case "1+", "1-":
		a = append(a, l.Integer(1))
		name = name[1:]
	case "length":
		return l.Integer(len(listOf(a[0]))), nil
	case "reverse":
		var r l.Node = l.Null
		for _, y := range listOf(a[0]) {
			r = &l.Cons{Car: y, Cdr: r}
		}
		return r, nil
	}
	x, y, bad := ints2(a)
	if bad != nil && name == "=" {
		return truth(same(3, a[0], a[1])), nil
	}
	if bad != nil {
		return m.fail("<domain-error>", bad)
	}
	switch name {
	case "+":
		return x + y, nil
	case "-":
		return x - y, nil
	case "*":
		return x * y, nil
	case "/":
		if y == 0 {
			return m.signal(&rcond{"<division-by-zero>", l.List(x, y)}, true)
		}
		return x / y, nil
	case "<":
		return truth(x < y), nil
	case ">":
		return truth(x > y), nil
	case "<=":
		return truth(x <= y), nil
	case ">=":
		return truth(x >= y), nil
	case "=":
		return truth(x == y), nil
	}
	panic("ref: " + name)
}

// cell is the storage of a place; nil if there is none yet.
func (m *mach) cell(name string, a []l.Node) (*l.Node, *rexit) {
	obj, key := a[0], l.Node(nil)
	if name == "car" || name == "cdr" || name == "cadr" {
		if name == "cadr" {
			if c, ok := obj.(*l.Cons); ok {
				obj = c.Cdr
			}
		}
		c, ok := obj.(*l.Cons)
		if !ok {
			_, x := m.fail("<domain-error>", obj)
			return nil, x
		}
		if name == "cdr" {
			return &c.Cdr, nil
		}
		return &c.Car, nil
	}
	key = a[1]
	if name == "nth" || name == "gethash" {
		obj, key = key, obj
	}
	v, ok := obj.(*rvec)
	if !ok {
		for i := key.(l.Integer); i > 0; i-- {
			obj = obj.(*l.Cons).Cdr
		}
		return &obj.(*l.Cons).Car, nil
	}
	if !v.table {
		return &v.elts[key.(l.Integer)], nil
	}
	for i, k := range v.keys {
		if same(1, k, key) {
			return &v.elts[i], nil
		}
	}
	return nil, nil
}

// update stores f(old value) into a place.
func (m *mach) update(place l.Node, e renv, f func(l.Node) (l.Node, *rexit)) (l.Node, *rexit) {
	c, ok := place.(*l.Cons)
	if !ok {
		v := m.lookup(place.String(), e)
		if v == nil {
			return m.fail("<unbound-variable>", place)
		}
		r, x := f(v.val)
		if x == nil {
			v.val = r
		}
		return r, x
	}
	name := c.Car.String()
	if name == "dynamic" {
		old, x := m.eval(place, e)
		if x != nil {
			return nil, x
		}
		r, x := f(old)
		if x == nil {
			m.setDynamic(listOf(c.Cdr)[0].String(), r)
		}
		return r, x
	}
	a, x := m.args(listOf(c.Cdr), e)
	if x != nil {
		return nil, x
	}
	p, x := m.cell(name, a)
	if x != nil {
		return nil, x
	}
	var old l.Node = l.Null
	if p != nil {
		old = *p
	}
	r, x := f(old)
	if x != nil {
		return nil, x
	}
	if p == nil {
		v := a[1].(*rvec)
		v.keys, v.elts = append(v.keys, a[0]), append(v.elts, r)
	} else {
		*p = r
	}
	return r, nil
}

// quasi copies a template and replaces what is unquoted.
func (m *mach) quasi(n l.Node, e renv, depth int) (l.Node, *rexit) {
	c, ok := n.(*l.Cons)
	if !ok {
		return n, nil
	}
	switch c.Car {
	case l.Node(S("unquote")):
		if depth == 0 {
			return m.eval(listOf(c.Cdr)[0], e)
		}
		depth--
	case l.Node(S("quasiquote")):
		depth++
	}
	if u, ok := c.Car.(*l.Cons); ok && depth == 0 && u.Car == l.Node(S("unquote")) {
		if s, ok := listOf(u.Cdr)[0].(l.Symbol); ok && s.String()[0] == '@' {
			v := m.lookup(s.String(), e)
			r, x := m.quasi(c.Cdr, e, depth)
			if x != nil {
				return nil, x
			}
			return m.prim("append", []l.Node{v.val, r})
		}
	}
	a, x := m.quasi(c.Car, e, depth)
	if x != nil {
		return nil, x
	}
	d, x := m.quasi(c.Cdr, e, depth)
	if x != nil {
		return nil, x
	}
	return &l.Cons{Car: a, Cdr: d}, nil
}

func (m *mach) expand(f *rmacro, operands l.Node) (l.Node, *rexit) {
	c := *f.closure
	a := listOf(operands)
	if c.rest != "" && len(a) >= len(c.params) {
		c.env.v = &rvar{"@" + c.rest, l.List(a[len(c.params):]...), c.env.v}
	}
	return m.apply(&c, a)
}

func (m *mach) findBlock(name string, go_ bool, e renv) *int {
	for b := e.b; b != nil; b = b.next {
		if b.go_ == go_ && b.name == name {
			if m.live(b.id) {
				return b.id
			}
			return nil
		}
	}
	return nil
}

// eval evaluates n in e.
func (m *mach) eval(n l.Node, e renv) (l.Node, *rexit) {
	m.steps++
	if m.steps > 10000 {
		panic("ref: too many steps")
	}
	c, ok := n.(*l.Cons)
	if !ok {
		s, ok := n.(l.Symbol)
		if !ok || n == l.Null || n == l.True {
			return n, nil
		}
		v := m.lookup(s.String(), e)
		if v == nil {
			return m.fail("<unbound-variable>", s)
		}
		return v.val, nil
	}
	a := listOf(c.Cdr)
	head, ok := c.Car.(l.Symbol)
	if !ok {
		f, x := m.eval(c.Car, e)
		if x != nil {
			return nil, x
		}
		args, x := m.args(a, e)
		if x != nil {
			return nil, x
		}
		return m.apply(f, args)
	}
	name := head.String()
	f := m.function(name, e)
	if f == nil {
		if r, x, ok := m.special(name, a, e); ok {
			return r, x
		}
		return m.fail("<undefined-function>", head)
	}
	if f, ok := f.(*rmacro); ok {
		form, x := m.expand(f, c.Cdr)
		if x != nil {
			return nil, x
		}
		return m.eval(form, e)
	}
	if name == "return" {
		v, x := m.eval(a[0], e)
		if x != nil {
			return nil, x
		}
		return m.returnFrom("nil", v, e)
	}
	args, x := m.args(a, e)
	if x != nil {
		return nil, x
	}
	return m.apply(f, args)
}

func (m *mach) returnFrom(name string, v l.Node, e renv) (l.Node, *rexit) {
	id := m.findBlock(name, false, e)
	if id == nil {
		return m.fail("<control-error>", l.Null)
	}
	return nil, &rexit{kind: xBlock, id: id, val: v}
}

// binding splits (name form) or name.
func binding(n l.Node) (string, l.Node) {
	if c, ok := n.(*l.Cons); ok {
		return c.Car.String(), listOf(c.Cdr)[0]
	}
	return n.String(), l.Null
}

func (m *mach) block(name string, body func(e renv) (l.Node, *rexit), e renv) (l.Node, *rexit) {
	id := m.enter()
	e.b = &rblock{name: name, id: id, next: e.b}
	r, x := body(e)
	m.leave()
	if x != nil && x.kind == xBlock && x.id == id {
		return x.val, nil
	}
	return r, x
}

func (m *mach) special(name string, a []l.Node, e renv) (l.Node, *rexit, bool) {
	r, x := l.Node(l.Null), (*rexit)(nil)
	switch name {
	case "quote":
		r = a[0]
	case "progn":
		r, x = m.progn(a, e)
	case "prog1":
		if r, x = m.eval(a[0], e); x == nil {
			_, x = m.progn(a[1:], e)
		}
	case "prog2":
		if _, x = m.eval(a[0], e); x == nil {
			if r, x = m.eval(a[1], e); x == nil {
				_, x = m.progn(a[2:], e)
			}
		}
	case "if":
		if r, x = m.eval(a[0], e); x == nil {
			if !isNil(r) {
				r, x = m.eval(a[1], e)
			} else if len(a) > 2 {
				r, x = m.eval(a[2], e)
			} else {
				r = l.Null
			}
		}
	case "when", "unless":
		if r, x = m.eval(a[0], e); x == nil {
			if isNil(r) == (name == "unless") {
				r, x = m.progn(a[1:], e)
			} else {
				r = l.Null
			}
		}
	case "cond":
		for _, cl := range a {
			c := listOf(cl)
			if r, x = m.eval(c[0], e); x != nil {
				break
			}
			if !isNil(r) {
				if len(c) > 1 {
					r, x = m.progn(c[1:], e)
				}
				break
			}
		}
	case "and":
		r = l.True
		for _, f := range a {
			if r, x = m.eval(f, e); x != nil || isNil(r) {
				break
			}
		}
	case "or":
		for _, f := range a {
			if r, x = m.eval(f, e); x != nil || !isNil(r) {
				break
			}
		}
	case "case":
		if r, x = m.eval(a[0], e); x == nil {
			r, x = m.cases(a[1:], e, func(k l.Node) (bool, *rexit) { return same(1, r, k), nil })
		}
	case "case-using":
		var p, v l.Node
		if v, x = m.eval(a[1], e); x == nil {
			r, x = m.cases(a[2:], e, func(k l.Node) (bool, *rexit) {
				if p, x = m.eval(a[0], e); x != nil {
					return false, x
				}
				t, x := m.apply(p, []l.Node{v, k})
				return !isNil(t), x
			})
		}
	case "setq", "psetq":
		var vals []l.Node
		for i := 0; i+1 < len(a) && x == nil; i += 2 {
			if r, x = m.eval(a[i+1], e); x == nil {
				if name == "setq" {
					x = m.set(a[i].String(), r, e)
				}
				vals = append(vals, r)
			}
		}
		if name == "psetq" && x == nil {
			for i, v := range vals {
				if x = m.set(a[2*i].String(), v, e); x != nil {
					break
				}
			}
			r = l.Null
		}
	case "let":
		ne := e
		for _, b := range listOf(a[0]) {
			n, f := binding(b)
			var v l.Node
			if v, x = m.eval(f, e); x != nil {
				return nil, x, true
			}
			ne.v = &rvar{n, v, ne.v}
		}
		r, x = m.progn(a[1:], ne)
	case "let*":
		for _, b := range listOf(a[0]) {
			n, f := binding(b)
			var v l.Node
			if v, x = m.eval(f, e); x != nil {
				return nil, x, true
			}
			e.v = &rvar{n, v, e.v}
		}
		r, x = m.progn(a[1:], e)
	case "lambda":
		r = makeClosure(a, e)
	case "function":
		if r = m.function(a[0].String(), e); r == nil {
			r, x = m.fail("<undefined-function>", a[0])
		}
	case "funcall":
		var args []l.Node
		if args, x = m.args(a, e); x == nil {
			r, x = m.apply(args[0], args[1:])
		}
	case "flet":
		ne := e
		for _, d := range listOf(a[0]) {
			c := listOf(d)
			ne.f = &rfun{c[0].String(), makeClosure(c[1:], e), ne.f}
		}
		r, x = m.progn(a[1:], ne)
	case "labels":
		var fs []*rfun
		for _, d := range listOf(a[0]) {
			e.f = &rfun{d.(*l.Cons).Car.String(), nil, e.f}
			fs = append(fs, e.f)
		}
		for i, d := range listOf(a[0]) {
			fs[i].fn = makeClosure(listOf(d)[1:], e)
		}
		r, x = m.progn(a[1:], e)
	case "defun":
		m.funcs = &rfun{a[0].String(), makeClosure(a[1:], e), m.funcs}
		r = a[0]
	case "defmacro":
		m.funcs = &rfun{a[0].String(), &rmacro{makeClosure(a[1:], e)}, m.funcs}
		r = a[0]
	case "quasiquote":
		r, x = m.quasi(a[0], e, 0)
	case "incf", "decf":
		r, x = m.update(a[0], e, func(old l.Node) (l.Node, *rexit) {
			d, x := l.Node(l.Integer(1)), (*rexit)(nil)
			if len(a) > 1 {
				if d, x = m.eval(a[1], e); x != nil {
					return nil, x
				}
			}
			return m.prim(map[string]string{"incf": "+", "decf": "-"}[name], []l.Node{old, d})
		})
	case "defglobal":
		if r, x = m.eval(a[1], e); x == nil {
			m.global = &rvar{a[0].String(), r, m.global}
			r = a[0]
		}
	case "while":
		for {
			var t l.Node
			if t, x = m.eval(a[0], e); x != nil || isNil(t) {
				break
			}
			if r, x = m.progn(a[1:], e); x != nil {
				break
			}
		}
	case "dotimes":
		s := listOf(a[0])
		var n l.Node
		if n, x = m.eval(s[1], e); x != nil {
			break
		}
		for i := l.Integer(0); i < n.(l.Integer) && x == nil; i++ {
			ne := e
			ne.v = &rvar{s[0].String(), i, e.v}
			_, x = m.progn(a[1:], ne)
		}
	case "dolist":
		s := listOf(a[0])
		r, x = m.block("nil", func(e renv) (l.Node, *rexit) {
			ls, x := m.eval(s[1], e)
			if x != nil {
				return nil, x
			}
			for _, v := range listOf(ls) {
				ne := e
				ne.v = &rvar{s[0].String(), v, e.v}
				if _, x = m.progn(a[1:], ne); x != nil {
					return nil, x
				}
			}
			return l.Null, nil
		}, e)
	case "for":
		r, x = m.forLoop(a, e)
	case "block":
		r, x = m.block(a[0].String(), func(e renv) (l.Node, *rexit) { return m.progn(a[1:], e) }, e)
	case "return-from":
		// whether the value of an exit without a target is evaluated is open; the interpreter does not
		if m.findBlock(a[0].String(), false, e) == nil {
			r, x = m.fail("<control-error>", l.Null)
		} else if r, x = m.eval(a[1], e); x == nil {
			r, x = m.returnFrom(a[0].String(), r, e)
		}
	case "catch":
		var t l.Node
		if t, x = m.eval(a[0], e); x == nil {
			id := m.enter()
			m.catchers = &rcatch{t, id, m.catchers}
			r, x = m.progn(a[1:], e)
			m.catchers = m.catchers.next
			m.leave()
			if x != nil && x.kind == xThrow && x.id == id {
				r, x = x.val, nil
			}
		}
	case "tagbody":
		r, x = m.tagbody(a, e)
	case "go":
		id := m.findBlock(a[0].String(), true, e)
		if id == nil {
			r, x = m.fail("<control-error>", l.Null)
		} else {
			x = &rexit{kind: xGo, id: id, tag: a[0].String()}
		}
	case "unwind-protect":
		r, x = m.eval(a[0], e)
		if _, cx := m.progn(a[1:], e); cx != nil {
			if cx.kind != xError && cx.kind != xContinue {
				_, cx = m.fail("<control-error>", l.Null)
			}
			x = cx
		}
	case "setf":
		r, x = m.update(a[0], e, func(l.Node) (l.Node, *rexit) { return m.eval(a[1], e) })
	case "defdynamic", "set-dynamic":
		var d, f = a[0], a[1]
		if name == "set-dynamic" {
			d, f = f, d
		}
		if r, x = m.eval(f, e); x == nil {
			m.setDynamic(d.String(), r)
		}
	case "dynamic":
		for d := m.dyn; d != nil; d = d.next {
			if d.name == a[0].String() {
				return d.val, nil, true
			}
		}
		r, x = m.fail("<unbound-variable>", a[0])
	case "dynamic-let":
		old := m.dyn
		nd := m.dyn
		for _, b := range listOf(a[0]) {
			n, f := binding(b)
			var v l.Node
			if v, x = m.eval(f, e); x != nil {
				return nil, x, true
			}
			nd = &rdyn{n, v, nd}
		}
		bound := len(listOf(a[0]))
		m.dyn = nd
		r, x = m.progn(a[1:], e)
		// new variables which the body defined stay
		m.dyn = keepNew(m.dyn, nd, old, bound)
	case "with-handler":
		var h l.Node
		if h, x = m.eval(a[0], e); x == nil {
			old := m.handler
			m.handler = &rhandler{h, old}
			r, x = m.progn(a[1:], e)
			m.handler = old
		}
	case "continue-condition":
		var args []l.Node
		if args, x = m.args(a, e); x == nil {
			if len(args) < 2 {
				args = append(args, l.Null)
			}
			x = &rexit{kind: xContinue, cond: args[0], val: args[1]}
		}
	case "ignore-errors":
		r, x = m.progn(a, e)
		if x != nil && x.kind == xError {
			r, x = l.Null, nil
		}
	default:
		return nil, nil, false
	}
	if x != nil {
		r = nil
	}
	return r, x, true
}

func keepNew(cur, nd, old *rdyn, bound int) *rdyn {
	if cur == nd {
		return old
	}
	return &rdyn{cur.name, cur.val, keepNew(cur.next, nd, old, bound)}
}

func (m *mach) setDynamic(name string, v l.Node) {
	for d := m.dyn; d != nil; d = d.next {
		if d.name == name {
			d.val = v
			return
		}
	}
	m.dyn = &rdyn{name, v, m.dyn}
}

func (m *mach) cases(clauses []l.Node, e renv, match func(l.Node) (bool, *rexit)) (l.Node, *rexit) {
	for _, cl := range clauses {
		c := cl.(*l.Cons)
		if c.Car == l.True {
			return m.progn(listOf(c.Cdr), e)
		}
		for _, k := range listOf(c.Car) {
			ok, x := match(k)
			if x != nil {
				return nil, x
			}
			if ok {
				return m.progn(listOf(c.Cdr), e)
			}
		}
	}
	return l.Null, nil
}

func (m *mach) set(name string, v l.Node, e renv) *rexit {
	if b := m.lookup(name, e); b != nil {
		b.val = v
		return nil
	}
	_, x := m.fail("<unbound-variable>", S(name))
	return x
}

func (m *mach) forLoop(a []l.Node, e renv) (l.Node, *rexit) {
	ne := e
	var vars []*rvar
	var steps []l.Node
	for _, s := range listOf(a[0]) {
		c := listOf(s)
		v, x := m.eval(c[1], e)
		if x != nil {
			return nil, x
		}
		ne.v = &rvar{c[0].String(), v, ne.v}
		if len(c) > 2 {
			vars = append(vars, ne.v)
			steps = append(steps, c[2])
		}
	}
	end := listOf(a[1])
	for {
		t, x := m.eval(end[0], ne)
		if x != nil {
			return nil, x
		}
		if !isNil(t) {
			return m.progn(end[1:], ne)
		}
		if _, x = m.progn(a[2:], ne); x != nil {
			return nil, x
		}
		vals, x := m.args(steps, ne)
		if x != nil {
			return nil, x
		}
		for i, v := range vals {
			vars[i].val = v
		}
	}
}

func (m *mach) tagbody(a []l.Node, e renv) (l.Node, *rexit) {
	id := m.enter()
	for _, f := range a {
		if s, ok := f.(l.Symbol); ok {
			e.b = &rblock{name: s.String(), id: id, go_: true, next: e.b}
		}
	}
	for i := 0; i < len(a); i++ {
		if _, ok := a[i].(l.Symbol); ok {
			continue
		}
		_, x := m.eval(a[i], e)
		if x == nil {
			continue
		}
		if x.kind != xGo || x.id != id {
			m.leave()
			return nil, x
		}
		for i = 0; ; i++ {
			if s, ok := a[i].(l.Symbol); ok && s.String() == x.tag {
				break
			}
		}
	}
	m.leave()
	return l.Null, nil
}

// conditionKind is the class name and object of a condition of the interpreter.
func conditionKind(n l.Node) l.Node {
	for _, c := range []string{"<division-by-zero>", "<domain-error>", "<control-error>", "<unbound-variable>", "<undefined-function>"} {
		k, err := W.Get(S(c))
		if err != nil {
			panic(err)
		}
		if n.ClassOf() == k {
			var obj l.Node = l.Null
			switch c {
			case "<division-by-zero>":
				obj, _ = call("arithmetic-error-operands", n)
			case "<domain-error>":
				obj, _ = call("domain-error-object", n)
			case "<unbound-variable>", "<undefined-function>":
				obj, _ = call("undefined-entity-name", n)
			}
			return l.List(S(c), obj)
		}
	}
	if _, ok := n.(l.ProgramError); ok || errors.Is(asError(n), l.ErrTooFewArguments) || errors.Is(asError(n), l.ErrTooManyArguments) {
		return l.List(S("<program-error>"), l.Null)
	}
	return l.List(S("object"), n)
}

func asError(n l.Node) error {
	err, _ := n.(error)
	return err
}

// hosted is W with the recording functions.
func hosted(trace *[]l.Node) *l.World {
	return W.Flet(l.Functions{
		S("rec"): l.Function1(func(_ context.Context, _ *l.World, a l.Node) (l.Node, error) {
			*trace = append(*trace, a)
			return a, nil
		}),
		S("kind"): l.Function1(func(_ context.Context, _ *l.World, a l.Node) (l.Node, error) {
			return conditionKind(a), nil
		}),
	})
}

// agreeRef runs src with the variables kv through the interpreter and through the reference and
// compares value, recorded values in order, and the kind of error.
func agreeRef(src string, kv ...any) {
	forms, err := readAll(src)
	sym.Assert(err == nil, "program")
	agreeForms(src, forms, kv...)
}

func agreeForms(src string, forms []l.Node, kv ...any) {
	m := &mach{}
	vars := l.Variables{}
	var e renv
	for i := 0; i < len(kv); i += 2 {
		vars[S(kv[i].(string))] = kv[i+1].(l.Node)
		e.v = &rvar{kv[i].(string), kv[i+1].(l.Node), e.v}
	}
	want, x := m.progn(forms, e)
	sym.Assume(!m.open)
	var trace []l.Node
	w := hosted(&trace).Let(vars)
	got, err := w.InterpretNodes(ctx, forms)
	sym.ObserveInt("events", int64(len(trace)))
	sym.ObserveBool("error", err != nil)
	if err != nil {
		sym.ObserveStr("the error", err.Error())
	}
	if x != nil && x.cond != nil {
		sym.ObserveStr("the expected error", x.cond.String())
	}
	sym.Assert((err != nil) == (x != nil), "error or value: "+src)
	for i := range trace {
		sym.Assert(i < len(m.trace) && sameValue(trace[i], m.trace[i]), "order of effects: "+src)
	}
	sym.Assert(len(trace) == len(m.trace), "effects missing: "+src)
	if err == nil {
		sym.Assert(sameValue(got, want), "value: "+src)
		return
	}
	if x.kind != xError {
		return
	}
	c, ok := x.cond.(*rcond)
	if !ok {
		return
	}
	var n interface {
		l.Node
		error
	}
	if c.class == "<program-error>" && isArity(err) {
		return
	}
	sym.Assert(errors.As(err, &n), "error without a condition: "+src)
	sym.Assert(sameValue(conditionKind(n), l.List(S(c.class), c.obj)), "kind of error: "+src)
}

func sameValue(a, b l.Node) bool {
	if isNil(a) || isNil(b) {
		return isNil(a) && isNil(b)
	}
	x, ok := a.(*l.Cons)
	if !ok {
		return same(1, a, b)
	}
	y, ok := b.(*l.Cons)
	return ok && sameValue(x.Car, y.Car) && sameValue(x.Cdr, y.Cdr)
}
