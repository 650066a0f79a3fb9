package h

import (
	l "github.com/hymkor/gmnlisp"
	"gmnverif/sym"
)

// seq makes a list (kind 0), string (1) or vector (2) of n arbitrary elements.
func seq(kind, n int) (l.Node, []l.Node) {
	var e []l.Node
	switch kind {
	case 1:
		w := fewPoints("c", n)
		for _, c := range w {
			e = append(e, l.Rune(c))
		}
		return str(w), e
	}
	for i := 0; i < n; i++ {
		e = append(e, l.Integer(sym.Int64("x")))
	}
	if kind == 0 {
		return l.List(e...), e
	}
	v := okCall("vector", e...)
	return v, e
}

// fixedSeq has distinct elements counted from c.
func fixedSeq(kind, n int, c rune) (l.Node, []l.Node) {
	if kind != 1 {
		return seq(kind, n)
	}
	var w []rune
	var e []l.Node
	for i := 0; i < n; i++ {
		w = append(w, c+rune(i)*0x80)
		e = append(e, l.Rune(w[i]))
	}
	return str(w), e
}

func isSeq(r l.Node, kind int, want []l.Node, what string) {
	switch kind {
	case 0:
		for _, w := range want {
			c, ok := r.(*l.Cons)
			sym.Assert(ok && c.Car == w, what+": element")
			r = c.Cdr
		}
		sym.Assert(r == l.Null, what+": too long")
	case 1:
		var w []rune
		for _, c := range want {
			w = append(w, rune(c.(l.Rune)))
		}
		sameRunes(r, w, what)
	case 2:
		d := okCall("array-dimensions", r)
		c, ok := d.(*l.Cons)
		sym.Assert(ok && c.Car == l.Node(l.Integer(len(want))) && c.Cdr == l.Null, what+": dimensions")
		for i, w := range want {
			sym.Assert(okCall("aref", r, l.Integer(i)) == w, what+": element")
		}
	}
}

// E03_Elt: elt at every 64-bit index.
func E03_Elt() {
	kind, n := sym.Choice("kind", 3), sym.Choice("n", 5)
	s, e := seq(kind, n)
	i := sym.Int64("i")
	r, err := call("elt", s, l.Integer(i))
	switch {
	case i >= 0 && i < int64(n):
		sym.Assert(okNode(r, err, "elt") == e[sym.Concrete(int(i))], "elt is not the element at the position")
	case kind == 0 && i >= 0:
		sym.Assert(okNode(r, err, "elt") == l.Null, "elt beyond the end of a list is not nil")
	default:
		sym.Assert(err != nil, "elt accepts a position outside of the sequence")
	}
	isSeq(s, kind, e, "the argument of elt")
	if kind < 2 {
		sym.Assert(mustInt2(call("length", s)) == int64(n), "length")
	}
}

// E03_Subseq: subseq for all 64-bit bounds.
func E03_Subseq() {
	kind, n := sym.Choice("kind", 2), sym.Choice("n", 5)
	s, e := seq(kind, n)
	i, j := sym.Int64("i"), sym.Int64("j")
	r, err := call("subseq", s, l.Integer(i), l.Integer(j))
	if i < 0 || j < i || j > int64(n) {
		sym.Assert(err != nil, "subseq accepts bounds outside of the sequence")
	} else {
		a, b := sym.Concrete(int(i)), sym.Concrete(int(j))
		okNode(r, err, "subseq")
		isSeq(r, kind, e[a:b], "subseq")
		for x, ok := s.(*l.Cons); ok; x, ok = x.Cdr.(*l.Cons) {
			for y, ok := r.(*l.Cons); ok; y, ok = y.Cdr.(*l.Cons) {
				sym.Assert(x != y, "subseq shares a cell with its argument")
			}
		}
	}
	isSeq(s, kind, e, "the argument of subseq")
}

// E03_SetElt: storing through set-elt and setf elt changes exactly one position.
func E03_SetElt() {
	kind, n := sym.Choice("kind", 3), sym.Choice("n", 5)
	s, e := seq(kind, n)
	i := sym.Int64("i")
	var v l.Node = l.Integer(sym.Int64("v"))
	if kind == 1 {
		v = l.Rune(fewPoints("v", 1)[0])
	}
	src := []string{"(progn (set-elt v s i) s)", "(progn (setf (elt s i) v) s)"}[sym.Choice("form", 2)]
	if sym.Choice("catch", 2) == 1 {
		src = "(progn (catch 'k (with-handler (lambda (c) (throw 'k 0)) " + src + ")) s)"
		r, err := run(src, "s", s, "i", l.Integer(i), "v", v)
		if i < 0 || i >= int64(n) {
			isSeq(okNode(r, err, "handled"), kind, e, "a failing store")
		}
		return
	}
	r, err := run(src, "s", s, "i", l.Integer(i), "v", v)
	if i < 0 || i >= int64(n) {
		sym.Assert(err != nil, "storing outside of the sequence is accepted")
		isSeq(s, kind, e, "a failing store")
		return
	}
	w := append([]l.Node{}, e...)
	w[sym.Concrete(int(i))] = v
	isSeq(okNode(r, err, "set-elt"), kind, w, "set-elt")
	if kind != 1 {
		sym.Assert(r == s, "set-elt replaces the sequence")
	} else {
		isSeq(s, kind, e, "the old string")
	}
}

// E03_SetSubseq: storing through setf subseq replaces exactly the addressed positions.
func E03_SetSubseq() {
	kind, n := sym.Choice("kind", 2), sym.Choice("n", 5)
	s, e := fixedSeq(kind, n, 'a')
	m := sym.Choice("m", 4)
	v, ev := fixedSeq(kind, m, 0x400)
	i, j := sym.Int64("i"), sym.Int64("j")
	var src string
	if sym.Choice("form", 2) == 0 {
		src = "(progn (setf (subseq s i j) v) s)"
	} else {
		src = "(progn (set-subseq v s i j) s)"
	}
	r, err := run(src, "s", s, "i", l.Integer(i), "j", l.Integer(j), "v", v)
	if i < 0 || j < i || j > int64(n) {
		sym.Assert(err != nil, "storing outside of the sequence is accepted")
		isSeq(s, kind, e, "a failing store")
		return
	}
	a, b := sym.Concrete(int(i)), sym.Concrete(int(j))
	okNode(r, err, "set-subseq")
	if kind == 1 {
		w := append(append(append([]l.Node{}, e[:a]...), ev...), e[b:]...)
		isSeq(r, kind, w, "set-subseq of a string")
		isSeq(s, kind, e, "the old string")
		return
	}
	w := append([]l.Node{}, e...)
	copy(w[a:b], ev)
	isSeq(r, kind, w, "set-subseq of a list")
	isSeq(v, kind, ev, "the new elements")
}

// E03_Kinds: objects that are no sequences, and positions that are no integers.
func E03_Kinds() {
	bad := []l.Node{l.Integer(1), l.True, S("a"), l.Rune('a'), l.Float(1)}[sym.Choice("bad", 5)]
	i := l.Integer(sym.Int64("i"))
	_, err := call("elt", bad, i)
	sym.Assert(err != nil, "elt of an atom")
	_, err = call("length", bad)
	sym.Assert(err != nil, "length of an atom")
	_, err = call("subseq", bad, i, i)
	sym.Assert(err != nil, "subseq of an atom")
	_, err = run("(setf (elt s i) 1)", "s", bad, "i", i)
	sym.Assert(err != nil, "setf elt of an atom")
	_, err = run("(setf (subseq s i i) nil)", "s", bad, "i", i)
	sym.Assert(err != nil, "setf subseq of an atom")
	s, _ := seq(sym.Choice("kind", 3), 2)
	at := []l.Node{l.Float(1), l.Null, l.True, S("a"), l.Rune(1), l.String("1")}[sym.Choice("at", 6)]
	_, err = call("elt", s, at)
	sym.Assert(err != nil, "elt at a position that is no integer")
	_, err = call("subseq", s, l.Integer(0), at)
	sym.Assert(err != nil, "subseq up to a position that is no integer")
	_, err = call("subseq", s, at, l.Integer(1))
	sym.Assert(err != nil, "subseq from a position that is no integer")
}
