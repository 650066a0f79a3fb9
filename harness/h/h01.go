package h

import (
	l "github.com/hymkor/gmnlisp"
	"gmnverif/sym"
)

// hashKey is an arbitrary key; keys of one label prefix collide often.
func hashKey(label string) l.Node {
	switch sym.Choice(label+"kind", 6) {
	case 0:
		return l.Integer(sym.Int64(label))
	case 1:
		c := sym.Int32(label)
		sym.Assume(sym.And(c >= 'a', c <= 'z'))
		return l.Rune(c)
	case 2:
		b := sym.Byte(label)
		sym.Assume(sym.And(b >= 'a', b <= 'z'))
		return l.String(sym.BytesString(b))
	case 3:
		return S([]string{"a", "b"}[sym.Choice(label+"sym", 2)])
	}
	if sym.Choice(label+"float", 2) == 1 {
		f := sym.Float64(label)
		sym.Assume(f == f)
		return l.Float(f)
	}
	x, err := readOne(":a")
	sym.Assert(err == nil, "keyword")
	return x
}

func sameKey(a, b l.Node) bool { return same(2, a, b) }

// hashVal is an arbitrary value to store: an integer or nil, with any also another object.
func hashVal(any bool) l.Node {
	if any {
		switch sym.Choice("vkind", 4) {
		case 0:
			return l.String("s")
		case 1:
			return l.List(l.Null)
		case 2:
			return l.Integer(sym.Int64("v"))
		}
		return l.Null
	}
	if sym.Choice("vnil", 2) == 1 {
		return l.Null
	}
	return l.Integer(sym.Int64("v"))
}

type entry struct{ k, v l.Node }

type model struct{ e []entry }

func (m *model) find(k l.Node) int {
	for i, x := range m.e {
		if sameKey(x.k, k) {
			return i
		}
	}
	return -1
}

func (m *model) get(k l.Node) l.Node {
	if i := m.find(k); i >= 0 {
		return m.e[i].v
	}
	return l.Null
}

func (m *model) put(k, v l.Node) {
	if i := m.find(k); i >= 0 {
		m.e[i].v = v
	} else {
		m.e = append(m.e, entry{k, v})
	}
}

func (m *model) del(k l.Node) {
	if i := m.find(k); i >= 0 {
		m.e = append(m.e[:i:i], m.e[i+1:]...)
	}
}

func agree(h l.Node, m *model, probe l.Node) {
	sym.Assert(okCall("gethash", probe, h) == m.get(probe), "lookup is not the last value stored")
	sym.Assert(mustInt2(call("hash-table-count", h)) == int64(len(m.e)), "count is not the number of keys")
}

// step performs one arbitrary operation on h and m.
func step(h l.Node, m *model, k l.Node) {
	switch sym.Choice("op", 5) {
	case 0:
		v := hashVal(false)
		okCall("set-gethash", v, k, h)
		m.put(k, v)
	case 1:
		v := hashVal(false)
		_, err := run("(setf (gethash k h) v)", "k", k, "h", h, "v", v)
		sym.Assert(err == nil, "setf gethash")
		m.put(k, v)
	case 2:
		okCall("remhash", k, h)
		m.del(k)
	case 3:
		okCall("clrhash", h)
		m.e = nil
	case 4:
		agree(h, m, k)
	}
}

// H01_History: all sequences of operations over three integer keys, then every key is looked up.
func H01_History() {
	h := okCall("make-hash-table")
	m := &model{}
	n := 3
	if sym.Thorough() {
		n = 4
	}
	k := []l.Node{l.Integer(sym.Int64("k")), l.Integer(sym.Int64("k"))}
	for i := 0; i < n; i++ {
		step(h, m, k[sym.Choice("key", 2)])
	}
	probe := l.Integer(sym.Int64("probe"))
	agree(h, m, probe)
	agree(h, m, k[0])
	agree(h, m, k[1])
}

// H01_Keys: two stores and a removal under keys of every kind.
func H01_Keys() {
	h := okCall("make-hash-table")
	m := &model{}
	a, b := hashKey("a"), hashKey("b")
	va, vb := hashVal(true), hashVal(false)
	okCall("set-gethash", va, a, h)
	m.put(a, va)
	agree(h, m, a)
	agree(h, m, b)
	okCall("set-gethash", vb, b, h)
	m.put(b, vb)
	agree(h, m, a)
	agree(h, m, b)
	okCall("remhash", a, h)
	m.del(a)
	agree(h, m, a)
	agree(h, m, b)
}

// H01_Tables: two tables are separate, and values of any kind are stored as they are.
func H01_Tables() {
	h, g := okCall("make-hash-table"), okCall("make-hash-table")
	k := hashKey("k")
	v := []l.Node{l.Null, l.True, l.List(l.Integer(1)), l.String("s"), h, g, l.Float(1)}[sym.Choice("v", 7)]
	okCall("set-gethash", v, k, h)
	sym.Assert(rel("eql", okCall("gethash", k, h), v), "stored value")
	sym.Assert(okCall("gethash", k, g) == l.Null, "another table")
	sym.Assert(mustInt2(call("hash-table-count", h)) == 1 && mustInt2(call("hash-table-count", g)) == 0, "counts")
	okCall("clrhash", g)
	sym.Assert(rel("eql", okCall("gethash", k, h), v), "clearing another table")
	okCall("clrhash", h)
	sym.Assert(okCall("gethash", k, h) == l.Null && mustInt2(call("hash-table-count", h)) == 0, "clear")
}

// H01_AnyKey: every object may be offered as a key; one that is accepted is found again under itself.
func H01_AnyKey() {
	_, err := run(d01setup)
	sym.Assert(err == nil, "setup")
	h := okCall("make-hash-table")
	k := anything(sym.Choice("k", d01n))
	v := l.Integer(sym.Int64("v"))
	_, err = call("set-gethash", v, k, h)
	_, gerr := call("gethash", k, h)
	sym.Assert((err == nil) == (gerr == nil), "stored but not readable")
	if err == nil {
		sym.Assert(okCall("gethash", k, h) == l.Node(v), "not found again")
		sym.Assert(mustInt2(call("hash-table-count", h)) == 1, "count")
		printed(h)
		okCall("remhash", k, h)
	}
	sym.Assert(mustInt2(call("hash-table-count", h)) == 0, "count of an empty table")
	bad := notList()
	for _, op := range []string{"gethash", "remhash"} {
		_, err = call(op, l.Integer(1), bad)
		sym.Assert(err != nil, op+" of no table")
	}
	_, err = call("set-gethash", l.Integer(1), l.Integer(1), bad)
	sym.Assert(err != nil, "set-gethash of no table")
	_, err = call("clrhash", bad)
	sym.Assert(err != nil, "clrhash of no table")
	_, err = call("hash-table-count", bad)
	sym.Assert(err != nil, "hash-table-count of no table")
}
