package h

import (
	l "github.com/hymkor/gmnlisp"
	"gmnverif/sym"
)

// elem is an arbitrary integer, nil or a fresh list.
func elem(label string) l.Node {
	switch sym.Choice(label+"kind", 3) {
	case 1:
		return l.Null
	case 2:
		return l.List(l.Integer(1))
	}
	return l.Integer(sym.Int64(label))
}

// cells1 is cells with elements of several kinds.
func cells1(label string, n int, tail l.Node) (l.Node, []*l.Cons) {
	list, c := cells(label, n, tail)
	for _, x := range c {
		x.Car = elem(label)
	}
	return list, c
}

// itemKey is a key for member and assoc: keys of several kinds, among them equal objects that are not the same.
func itemKey(label string, one, other l.Node) l.Node {
	switch sym.Choice(label+"kind", 6) {
	case 1:
		return one
	case 2:
		return other
	case 3:
		return l.String("k")
	case 4:
		return l.Null
	case 5:
		return l.Rune('k')
	}
	return l.Integer(sym.Int64(label))
}

// cells makes a list of n cells holding arbitrary integers, ended by tail.
func cells(label string, n int, tail l.Node) (l.Node, []*l.Cons) {
	r := make([]*l.Cons, n)
	var list l.Node = tail
	for i := n - 1; i >= 0; i-- {
		r[i] = &l.Cons{Car: l.Integer(sym.Int64(label)), Cdr: list}
		list = r[i]
	}
	return list, r
}

// kept asserts that the cells still hold what they were made with.
type kept struct {
	c        []*l.Cons
	car, cdr []l.Node
}

func keep(c ...[]*l.Cons) *kept {
	k := &kept{}
	for _, cs := range c {
		for _, x := range cs {
			k.c, k.car, k.cdr = append(k.c, x), append(k.car, x.Car), append(k.cdr, x.Cdr)
		}
	}
	return k
}

func (k *kept) but(i int, car bool) {
	for j, x := range k.c {
		if i != j || !car {
			sym.Assert(x.Car == k.car[j], "another car was changed")
		}
		if i != j || car {
			sym.Assert(x.Cdr == k.cdr[j], "another cdr was changed")
		}
	}
}

func (k *kept) check(what string) {
	for j, x := range k.c {
		sym.Assert(x.Car == k.car[j] && x.Cdr == k.cdr[j], what+" changed its argument")
	}
}

// isFresh: the proper list r consists of the given elements in cells that are none of old.
func isFresh(what string, r l.Node, want []l.Node, old ...[]*l.Cons) {
	for i, w := range want {
		c, ok := r.(*l.Cons)
		sym.Assert(ok && c != nil, what+": result is too short")
		sym.Assert(c.Car == w, what+": wrong element")
		for _, o := range old {
			for _, x := range o {
				sym.Assert(c != x, what+": shares a cell with its argument")
			}
		}
		r = c.Cdr
		sym.ObserveInt("pos", int64(i))
	}
	sym.Assert(r == l.Null, what+": result is too long")
}

func elems(c []*l.Cons) []l.Node {
	r := make([]l.Node, len(c))
	for i, x := range c {
		r[i] = x.Car
	}
	return r
}

func okNode(n l.Node, err error, what string) l.Node {
	if err != nil {
		sym.ObserveStr("err", err.Error())
	}
	sym.Assert(err == nil, what+": error")
	sym.Assert(n != nil, what+": no object")
	return n
}

func okCall(name string, args ...l.Node) l.Node {
	r, err := call(name, args...)
	return okNode(r, err, name)
}

func notList() l.Node {
	return []l.Node{l.Integer(7), l.True, l.Float(1.5), l.Rune('a'), S("sym")}[sym.Choice("atom", 5)]
}

// E01_Access: every accessor on every list of length 0 to 4, at every 64-bit index.
func E01_Access() {
	n := sym.Choice("n", 5)
	list, c := cells1("x", n, l.Null)
	k := keep(c)
	at := func(i int) l.Node {
		if i < n {
			return c[i].Car
		}
		return l.Null
	}
	tailAt := func(i int) l.Node {
		if i < n {
			return c[i]
		}
		return l.Null
	}
	names := []string{"car", "cdr", "cadr", "caddr", "cadddr", "cddr", "cdddr", "first", "second", "third", "rest", "nth", "elt", "nthcdr", "last", "length", "listp", "consp", "null", "caar"}
	op := names[sym.Choice("op", len(names))]
	var r l.Node
	var err error
	switch op {
	case "nth", "elt", "nthcdr":
		i := sym.Int64("i")
		if op == "elt" {
			r, err = call(op, list, l.Integer(i))
		} else {
			r, err = call(op, l.Integer(i), list)
		}
		if op == "nthcdr" {
			okNode(r, err, op)
			if i <= 0 {
				sym.Assert(r == list, "nthcdr of a position that is not positive is the list itself")
			} else if i < int64(n) {
				sym.Assert(r == l.Node(c[sym.Concrete(int(i))]), "nthcdr is not the tail")
			} else {
				sym.Assert(r == l.Null, "nthcdr beyond the end")
			}
		} else if i < 0 {
			sym.Assert(err != nil, op+" accepts a negative index")
		} else if i < int64(n) {
			sym.Assert(okNode(r, err, op) == c[sym.Concrete(int(i))].Car, op+" is not the element")
		} else {
			sym.Assert(okNode(r, err, op) == l.Null, op+" beyond the end is not nil")
		}
		k.check(op)
		return
	}
	r, err = call(op, list)
	k.check(op)
	switch op {
	case "car", "cdr", "first", "rest":
		if n == 0 {
			sym.Assert(err != nil, op+" of nil is an error")
			return
		}
		okNode(r, err, op)
		if op == "car" || op == "first" {
			sym.Assert(r == c[0].Car, op)
		} else {
			sym.Assert(r == c[0].Cdr, op)
		}
	case "caar":
		in, ok := at(0).(*l.Cons)
		if !ok {
			sym.Assert(err != nil, "caar of a list of atoms")
			return
		}
		sym.Assert(okNode(r, err, op) == in.Car, op)
	case "cadr", "second":
		if err == nil || n > 1 {
			sym.Assert(okNode(r, err, op) == at(1), op)
		}
	case "caddr", "third":
		if err == nil || n > 2 {
			sym.Assert(okNode(r, err, op) == at(2), op)
		}
	case "cadddr":
		if err == nil || n > 3 {
			sym.Assert(okNode(r, err, op) == at(3), op)
		}
	case "cddr":
		if err == nil || n > 1 {
			sym.Assert(okNode(r, err, op) == tailAt(2), op)
		}
	case "cdddr":
		if err == nil || n > 2 {
			sym.Assert(okNode(r, err, op) == tailAt(3), op)
		}
	case "last":
		if n == 0 {
			sym.Assert(okNode(r, err, op) == l.Null, op)
		} else {
			sym.Assert(okNode(r, err, op) == c[n-1].Car, op)
		}
	case "length":
		sym.Assert(mustInt(r, err, op) == int64(n), op)
	case "listp":
		sym.Assert(mustBool(r, err, op), op)
	case "consp":
		sym.Assert(mustBool(r, err, op) == (n > 0), op)
	case "null":
		sym.Assert(mustBool(r, err, op) == (n == 0), op)
	}
}

// E01_Nested: caar, cadr and friends reach into lists of lists.
func E01_Nested() {
	in, c := cells("x", 1+sym.Choice("n", 2), l.Integer(sym.Int64("tail")))
	outer := &l.Cons{Car: in, Cdr: &l.Cons{Car: in, Cdr: in}}
	sym.Assert(okCall("caar", outer) == c[0].Car, "caar")
	sym.Assert(okCall("cadr", outer) == in, "cadr")
	sym.Assert(okCall("cddr", outer) == in, "cddr")
	sym.Assert(okCall("caddr", outer) == c[0].Car, "caddr")
	sym.Assert(okCall("cdddr", outer) == c[0].Cdr, "cdddr")
}

// E01_Build: constructors and functions returning new lists, with argument preservation and sharing.
func E01_Build() {
	n, m := sym.Choice("n", 5), sym.Choice("m", 3)
	a, ca := cells1("x", n, l.Null)
	b, cb := cells("y", m, l.Null)
	k := keep(ca, cb)
	ea, eb := elems(ca), elems(cb)
	switch sym.Choice("op", 7) {
	case 0:
		r, err := call("cons", a, b)
		c, ok := okNode(r, err, "cons").(*l.Cons)
		sym.Assert(ok && c.Car == a && c.Cdr == b, "cons")
		for _, x := range append(ca, cb...) {
			sym.Assert(c != x, "cons makes a new cell")
		}
		sym.Assert(okCall("car", c) == a && okCall("cdr", c) == b, "car and cdr of cons")
	case 1:
		isFresh("list", okCall("list", ea...), ea)
	case 2:
		r := okCall("reverse", a)
		w := make([]l.Node, n)
		for i := range w {
			w[i] = ea[n-1-i]
		}
		isFresh("reverse", r, w, ca)
	case 3:
		r := okCall("append", a, b)
		for i := 0; i < n; i++ {
			c, ok := r.(*l.Cons)
			sym.Assert(ok && c.Car == ea[i], "append: element")
			for _, x := range append(ca, cb...) {
				sym.Assert(c != x, "append copies all but its last argument")
			}
			r = c.Cdr
		}
		sym.Assert(r == b, "append shares its last argument")
	case 4:
		last := []l.Node{l.Null, l.Integer(sym.Int64("atom")), l.String("s"), S("sym")}[sym.Choice("last", 4)]
		r := okCall("append", a, b, last)
		for _, e := range append(ea, eb...) {
			c, ok := r.(*l.Cons)
			sym.Assert(ok && c.Car == e, "append of three: element")
			for _, x := range append(ca, cb...) {
				sym.Assert(c != x, "append of three copies all but its last argument")
			}
			r = c.Cdr
		}
		sym.Assert(r == last, "append of three: last argument")
	case 5:
		sym.Assert(okCall("append", a) == a, "append of one")
		sym.Assert(okCall("append") == l.Null, "append of nothing")
	case 6:
		i := sym.Int64("count")
		sym.Assume(i <= 3)
		e := elem("e")
		r, err := call("create-list", l.Integer(i), e)
		if i < 0 {
			sym.Assert(err != nil || r == l.Null, "create-list of a negative length")
			return
		}
		w := make([]l.Node, sym.Concrete(int(i)))
		for j := range w {
			w[j] = e
		}
		isFresh("create-list", okNode(r, err, "create-list"), w)
	}
	k.check("the operation")
}

// E01_NReverse: the reversed list, in any cells.
func E01_NReverse() {
	n := sym.Choice("n", 5)
	a, c := cells1("x", n, l.Null)
	e := elems(c)
	r := okCall("nreverse", a)
	for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
		e[i], e[j] = e[j], e[i]
	}
	isFresh("nreverse", r, e)
}

// E01_Member: member and assoc find the first occurrence.
func E01_Member() {
	n := sym.Choice("n", 4)
	a, c := cells("x", n, l.Null)
	one, other := l.List(l.Integer(1)), l.List(l.Integer(1))
	for _, y := range c {
		y.Car = itemKey("x", one, other)
	}
	k := keep(c)
	x := itemKey("key", one, other)
	r := okCall("member", x, a)
	var want l.Node = l.Null
	for i := n - 1; i >= 0; i-- {
		if same(1, c[i].Car, x) {
			want = c[i]
		}
	}
	sym.Assert(r == want, "member is the first tail whose car is the object")
	k.check("member")
}

func E01_Assoc() {
	n := sym.Choice("n", 4)
	one, other := l.List(l.Integer(1)), l.List(l.Integer(1))
	var list l.Node = l.Null
	pairs := make([]*l.Cons, n)
	var sp []*l.Cons
	for i := n - 1; i >= 0; i-- {
		pairs[i] = &l.Cons{Car: itemKey("k", one, other), Cdr: l.Integer(sym.Int64("v"))}
		c := &l.Cons{Car: pairs[i], Cdr: list}
		sp = append(sp, c)
		list = c
	}
	k := keep(pairs, sp)
	x := itemKey("key", one, other)
	r := okCall("assoc", x, list)
	var want l.Node = l.Null
	for i := n - 1; i >= 0; i-- {
		if same(1, pairs[i].Car, x) {
			want = pairs[i]
		}
	}
	sym.Assert(r == want, "assoc is the first pair with the key")
	k.check("assoc")
}

// E01_Update: set-car and friends, and setf on the same places, change exactly one cell.
func E01_Update() {
	n := 1 + sym.Choice("n", 4)
	list, c := cells("x", n, l.Null)
	if i := sym.Choice("odd", n+1); i < n {
		c[i].Car = elem("odd")
	}
	k := keep(c)
	v := elem("v")
	i := 0
	car := true
	via := sym.Choice("setf", 2) == 1
	op := sym.Choice("op", 12)
	form := func(place, direct string, idx ...any) error {
		src := "(" + direct + ")"
		if via {
			src = "(setf (" + place + ") v)"
		}
		_, err := run(src, append([]any{"v", v, "x", list}, idx...)...)
		return err
	}
	var err error
	switch op {
	case 0:
		err = form("car x", "set-car v x")
	case 1:
		car = false
		err = form("cdr x", "set-cdr v x")
	case 2:
		i = 1
		err = form("cadr x", "set-cadr v x")
	case 3:
		i = 2
		err = form("caddr x", "set-caddr v x")
	case 4:
		i = 3
		err = form("cadddr x", "set-cadddr v x")
	case 5:
		i, car = 1, false
		err = form("cddr x", "set-cddr v x")
	case 6:
		i, car = 2, false
		err = form("cdddr x", "set-cdddr v x")
	case 7, 8:
		z := sym.Int64("z")
		what := "nth z x"
		d := "set-nth v z x"
		if op == 8 {
			what, d = "elt x z", "set-elt v x z"
		}
		err = form(what, d, "z", l.Integer(z))
		if z < 0 || z >= int64(n) {
			sym.Assert(err != nil, "storing outside of the list is an error")
			k.check("a failing update")
			return
		}
		i = sym.Concrete(int(z))
	case 9:
		z := sym.Int64("z")
		sym.Assume(z > 0)
		err = form("nthcdr z x", "set-nthcdr v z x", "z", l.Integer(z))
		if z > int64(n) {
			if err == nil {
				sym.Reach("nthcdr-beyond")
			}
			k.check("an update outside of the list")
			return
		}
		i, car = sym.Concrete(int(z))-1, false
	case 10:
		i = 1
		err = form("second x", "set-cadr v x")
	case 11:
		i = 2
		err = form("third x", "set-caddr v x")
	}
	if i >= n {
		k.check("an update outside of the list")
		sym.Assert(err != nil, "an update outside of the list is an error")
		return
	}
	if err != nil {
		sym.ObserveStr("err", err.Error())
	}
	sym.Assert(err == nil, "update: error")
	k.but(i, car)
	if car {
		sym.Assert(c[i].Car == l.Node(v), "the element is not stored")
	} else {
		sym.Assert(c[i].Cdr == l.Node(v), "the tail is not stored")
	}
}

// E01_Assocf: (setf (cdr (assoc ..)) v) and (setf (assoc ..) v) store into the pair with the key.
func E01_Assocf() {
	p1 := &l.Cons{Car: l.Integer(sym.Int64("k")), Cdr: l.Integer(1)}
	p2 := &l.Cons{Car: l.Integer(sym.Int64("k")), Cdr: l.Integer(2)}
	list := l.List(p1, p2)
	key := l.Integer(sym.Int64("key"))
	v := elem("v")
	k := keep([]*l.Cons{p1, p2})
	_, err := run("(setf (cdr (assoc key x)) v)", "key", key, "x", list, "v", v)
	switch {
	case p1.Car.(l.Integer) == key:
		sym.Assert(err == nil && p1.Cdr == l.Node(v), "first pair")
		k.but(0, false)
	case p2.Car.(l.Integer) == key:
		sym.Assert(err == nil && p2.Cdr == l.Node(v), "second pair")
		k.but(1, false)
	default:
		sym.Assert(err != nil, "no pair")
		k.check("a failing update")
	}
}

// E01_Improper: a list with an atom where a list is due is an error before or at that atom.
func E01_Improper() {
	n := sym.Choice("n", 4)
	at := notList()
	list, c := cells("x", n, at)
	k := keep(c)
	ops := []string{"car", "cdr", "length", "reverse", "nreverse", "last", "append", "append3", "member", "assoc", "elt", "set-car", "set-cdr", "first", "rest", "caar"}
	op := ops[sym.Choice("op", len(ops))]
	var err error
	switch op {
	case "car", "cdr", "first", "rest", "caar":
		if n > 0 {
			return
		}
		_, err = call(op, list)
	case "append":
		_, err = call(op, list, l.Null)
	case "append3":
		_, err = call("append", l.Null, list, l.List(l.Integer(1)))
	case "member":
		x := l.Integer(sym.Int64("key"))
		for _, y := range c {
			sym.Assume(y.Car.(l.Integer) != x)
		}
		_, err = call(op, x, list)
	case "assoc":
		_, err = call(op, l.Integer(1), list)
	case "elt":
		i := sym.Int64("i")
		r, err := call(op, list, l.Integer(i))
		if i >= 0 && i < int64(n) {
			sym.Assert(okNode(r, err, op) == c[sym.Concrete(int(i))].Car, "element before the improper end")
		} else {
			sym.Assert(err != nil, "elt beyond an improper end")
		}
		return
	case "set-car", "set-cdr":
		if n > 0 {
			return
		}
		_, err = call(op, l.Integer(1), list)
	default:
		_, err = call(op, list)
	}
	sym.Assert(err != nil, op+" accepts an improper list")
	if op != "nreverse" {
		k.check(op)
	}
}

// E01_Predicates: atom, consp, listp and null partition the objects.
func E01_Predicates() {
	x := datum("x")
	if sym.Choice("cons", 2) == 1 {
		x = &l.Cons{Car: x, Cdr: datum("y")}
	}
	_, isCons := x.(*l.Cons)
	isNull := x == l.Null
	sym.Assert(rel("consp", x) == isCons, "consp")
	sym.Assert(rel("atom", x) == !isCons, "atom")
	sym.Assert(rel("listp", x) == (isCons || isNull), "listp")
	sym.Assert(rel("null", x) == isNull, "null")
	sym.Assert(rel("not", x) == isNull, "not")
}
