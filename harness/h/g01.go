package h

import (
	l "github.com/hymkor/gmnlisp"
	"gmnverif/sym"
)

// shape draws dimensions: rank 0 to 3, up to 3 (2 in rank 3) each.
func shape() []int {
	switch sym.Choice("rank", 4) {
	case 3:
		return []int{}
	case 0:
		return []int{1 + sym.Choice("d", 4)}
	case 1:
		return []int{1 + sym.Choice("d", 3), 1 + sym.Choice("d", 3)}
	}
	return []int{1 + sym.Choice("d", 2), 1 + sym.Choice("d", 2), 1 + sym.Choice("d", 2)}
}

func ints(d []int) l.Node {
	var n []l.Node
	for _, x := range d {
		n = append(n, l.Integer(x))
	}
	return l.List(n...)
}

func size(d []int) int {
	n := 1
	for _, x := range d {
		n *= x
	}
	return n
}

// filled makes an array of symbolic integers by storing each element.
func filled(d []int) (l.Node, []l.Node) {
	a := okCall("create-array", ints(d), l.Null)
	var e []l.Node
	for i := 0; i < size(d); i++ {
		x := l.Integer(sym.Int64("e"))
		okCall("set-aref", append([]l.Node{x, a}, index(ints(d), i)...)...)
		e = append(e, x)
	}
	return a, e
}

func holdsElements(a l.Node, d []int, e []l.Node, what string) {
	for i, x := range e {
		sym.Assert(okCall("aref", append([]l.Node{a}, index(ints(d), i)...)...) == x, what+": element")
	}
}

// tuple draws an index tuple over all 64-bit integers and the flat position it denotes, -1 if none.
func tuple(d []int) ([]l.Node, int) {
	var t []l.Node
	flat := 0
	in := true
	var xs []int64
	for range d {
		i := sym.Int64("i")
		xs = append(xs, i)
		t = append(t, l.Integer(i))
	}
	for k, i := range xs {
		if i < 0 || i >= int64(d[k]) {
			in = false
			break
		}
	}
	if !in {
		return t, -1
	}
	for k, i := range xs {
		flat = flat*d[k] + sym.Concrete(int(i))
	}
	return t, flat
}

// G01_New: a new array holds the initial element everywhere and reports its dimensions.
func G01_New() {
	d := shape()
	init := []l.Node{l.Integer(sym.Int64("init")), l.String("s"), l.Null, l.List(l.Integer(1))}[sym.Choice("kind", 4)]
	a := okCall("create-array", ints(d), init)
	n := okCall("array-dimensions", a)
	for _, x := range d {
		c, ok := n.(*l.Cons)
		sym.Assert(ok && c.Car == l.Node(l.Integer(x)), "dimension")
		n = c.Cdr
	}
	sym.Assert(n == l.Null, "rank")
	e := make([]l.Node, size(d))
	for i := range e {
		e[i] = init
	}
	holdsElements(a, d, e, "new array")
	b := okCall("create-array", ints(d))
	for i := range e {
		e[i] = l.Null
	}
	holdsElements(b, d, e, "array without initial element")
	sym.Assert(rel("basic-array-p", a), "basic-array-p")
	sym.Assert(rel("general-array*-p", a) == (len(d) != 1), "general-array*-p")
}

// G01_Store: one store at an arbitrary index tuple.
func G01_Store() {
	d := shape()
	a, e := filled(d)
	t, at := tuple(d)
	v := l.Integer(sym.Int64("v"))
	var err error
	if sym.Choice("setf", 2) == 1 {
		src := "(setf (aref a"
		kv := []any{"a", a, "v", v}
		for i, x := range t {
			n := string(rune('i' + i))
			src += " " + n
			kv = append(kv, n, x)
		}
		_, err = run(src+") v)", kv...)
	} else {
		_, err = call("set-aref", append([]l.Node{v, a}, t...)...)
	}
	r, rerr := call("aref", append([]l.Node{a}, t...)...)
	if at < 0 {
		sym.Assert(err != nil, "storing outside of the array is accepted")
		sym.Assert(rerr != nil, "reading outside of the array is accepted")
		holdsElements(a, d, e, "failing store")
		return
	}
	sym.Assert(err == nil, "store: error")
	sym.Assert(okNode(r, rerr, "aref") == l.Node(v), "the stored object is not read back")
	w := append([]l.Node{}, e...)
	w[at] = v
	holdsElements(a, d, w, "store")
}

// G01_Literal: array literals hold the spelt elements in row-major order.
func G01_Literal() {
	a, err := run("#2a((1 2 3)(4 5 6))")
	okNode(a, err, "literal")
	i, j := sym.Int64("i"), sym.Int64("j")
	r, err := call("aref", a, l.Integer(i), l.Integer(j))
	if i < 0 || j < 0 || i > 1 || j > 2 {
		sym.Assert(err != nil, "outside")
		return
	}
	sym.Assert(mustInt2(r, err) == i*3+j+1, "row-major order")
}

// G01_History: three stores and a read, arrays of arrays and a second array stay apart.
func G01_History() {
	d := []int{2, 2}
	a := okCall("create-array", ints(d), l.Integer(-1))
	b := okCall("create-array", ints(d), l.Integer(-1))
	var m [4]l.Node
	for i := range m {
		m[i] = l.Integer(-1)
	}
	for k := 0; k < 3; k++ {
		at := sym.Choice("at", 4)
		v := l.Node(l.Integer(sym.Int64("v")))
		if sym.Choice("array", 2) == 1 {
			v = b
		}
		okCall("set-aref", append([]l.Node{v, a}, index(ints(d), at)...)...)
		m[at] = v
		holdsElements(a, d, m[:], "history")
	}
	one := l.Node(l.Integer(-1))
	holdsElements(b, d, []l.Node{one, one, one, one}, "the other array")
}

// G01_Count: too many indexes, no index, a subscript that is no integer, an object that is no array.
func G01_Count() {
	d := shape()
	a, e := filled(d)
	var t []l.Node
	for range d {
		t = append(t, l.Integer(0))
	}
	bad := []l.Node{l.Float(0), l.Null, l.String("0"), S("a"), l.Rune(0), l.List(l.Integer(0))}[sym.Choice("bad", 6)]
	u := append([]l.Node{}, t...)
	if len(d) == 0 {
		u = append(u, bad)
	} else {
		u[sym.Choice("at", len(d))] = bad
		_, err := call("aref", a)
		sym.Assert(err != nil, "aref without index")
		_, err = call("set-aref", a, a)
		sym.Assert(err != nil, "set-aref without index")
	}
	extra := append(append([]l.Node{}, t...), l.Integer(sym.Int64("extra")))
	v := l.Integer(sym.Int64("v"))
	for _, x := range [][]l.Node{u, extra} {
		_, err := call("aref", append([]l.Node{a}, x...)...)
		sym.Assert(err != nil, "aref accepts bad indexes")
		_, err = call("set-aref", append([]l.Node{v, a}, x...)...)
		sym.Assert(err != nil, "set-aref accepts bad indexes")
	}
	_, err := call("aref", append([]l.Node{bad}, t...)...)
	sym.Assert(err != nil, "aref of no array")
	_, err = call("set-aref", append([]l.Node{v, bad}, t...)...)
	sym.Assert(err != nil, "set-aref of no array")
	_, err = call("array-dimensions", bad)
	sym.Assert(err != nil, "array-dimensions of no array")
	holdsElements(a, d, e, "failing access")
}

// G01_Dimensions: dimensions that are not positive, or whose product is not representable, are errors.
func G01_Dimensions() {
	n := 1 + sym.Choice("rank", 3)
	var d []l.Node
	ok := true
	p := int64(1)
	for i := 0; i < n; i++ {
		x := sym.Int64("d")
		sym.Assume(sym.Or(x <= 3, x >= 1<<31)) // sizes between are feasible or not depending on memory
		d = append(d, l.Integer(x))
		if x <= 0 || x >= 1<<31 {
			ok = false
		} else {
			p *= x
		}
	}
	a, err := call("create-array", l.List(d...), l.Null)
	if !ok {
		sym.Assert(err != nil, "impossible dimensions are accepted")
		return
	}
	okNode(a, err, "create-array")
	_, err = call("create-array", &l.Cons{Car: l.Integer(2), Cdr: l.Integer(2)}, l.Null)
	sym.Assert(err != nil, "improper dimensions")
	_, err = call("create-array", l.List(notList()), l.Null)
	_ = err
}

// G01_Views: aref with fewer indexes, and elt, denote the row itself: reading through it agrees with the
// whole array, and a store through it changes exactly that element.
func G01_Views() {
	d := []int{2, 3}
	if sym.Choice("rank", 2) == 1 {
		d = []int{2, 2, 2}
	}
	a, e := filled(d)
	row := sym.Int64("row")
	f := []string{"aref", "elt"}[sym.Choice("by", 2)]
	r, err := call(f, a, l.Integer(row))
	if row < 0 || row > 1 {
		sym.Assert(err != nil, "a row outside of the array")
		return
	}
	n := size(d[1:])
	at := sym.Concrete(int(row))
	holdsElements(okNode(r, err, f), d[1:], e[at*n:(at+1)*n], "row")
	k := sym.Choice("k", n)
	v := l.Integer(sym.Int64("v"))
	okCall("set-aref", append([]l.Node{v, r}, index(ints(d[1:]), k)...)...)
	w := append([]l.Node{}, e...)
	w[at*n+k] = v
	holdsElements(a, d, w, "store through a row")
}

// G01_Vector: vector and create-array agree, and vectors built from the same elements are separate.
func G01_Vector() {
	n := 1 + sym.Choice("n", 4)
	var e []l.Node
	for i := 0; i < n; i++ {
		e = append(e, l.Integer(sym.Int64("e")))
	}
	a, b := okCall("vector", e...), okCall("vector", e...)
	isSeq(a, 2, e, "vector")
	i := sym.Choice("i", n)
	v := l.Integer(sym.Int64("v"))
	okCall("set-aref", v, a, l.Integer(i))
	isSeq(b, 2, e, "the other vector")
	w := append([]l.Node{}, e...)
	w[i] = v
	isSeq(a, 2, w, "vector after a store")
}
