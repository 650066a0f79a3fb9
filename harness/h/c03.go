package h

import (
	"strings"

	l "github.com/hymkor/gmnlisp"
	"gmnverif/sym"
)

// printed is the S-expression text of n as format ~s delivers it.
func printed(n l.Node) string {
	r, err := call("format", l.Null, l.String("~s"), n)
	sym.Assert(err == nil, "printable")
	s, ok := r.(l.String)
	sym.Assert(ok, "a text")
	return string(s)
}

// roundTrip asserts that the text printed for n is read back as one form equal to n.
func roundTrip(n l.Node) string {
	s := printed(n)
	forms, err := readAll(s)
	sym.Assert(err == nil, "the printed text is unreadable")
	sym.Assert(len(forms) == 1, "the printed text is one form")
	sym.Assert(sameObject(n, forms[0]), "the form read back differs")
	return s
}

// sameObject is structural equality of objects made of the kinds C03 names.
func sameObject(a, b l.Node) bool {
	switch x := a.(type) {
	case *l.Cons:
		y, ok := b.(*l.Cons)
		if !ok {
			return false
		}
		car, cdr := x.Car, x.Cdr
		return sameObject(car, y.Car) && sameObject(cdr, y.Cdr)
	case *l.Array:
		y, ok := b.(*l.Array)
		if !ok {
			return false
		}
		dx, err := call("array-dimensions", x)
		sym.Assert(err == nil, "dimensions")
		dy, err := call("array-dimensions", y)
		sym.Assert(err == nil, "dimensions")
		if !sameList(dx, dy) {
			return false
		}
		return sameElements(x, y, nil, dx)
	case l.Integer:
		y, ok := b.(l.Integer)
		return ok && x == y
	case l.String:
		y, ok := b.(l.String)
		return ok && x == y
	case l.Rune:
		y, ok := b.(l.Rune)
		return ok && x == y
	}
	return a == b
}

func sameList(a, b l.Node) bool {
	for {
		ca, oka := a.(*l.Cons)
		cb, okb := b.(*l.Cons)
		if !oka || !okb {
			return oka == okb
		}
		if ca.Car != cb.Car {
			return false
		}
		a, b = ca.Cdr, cb.Cdr
	}
}

func sameElements(x, y *l.Array, idx []l.Node, dims l.Node) bool {
	d, ok := dims.(*l.Cons)
	if !ok {
		ex, err := call("aref", append([]l.Node{x}, idx...)...)
		sym.Assert(err == nil, "element")
		ey, err := call("aref", append([]l.Node{y}, idx...)...)
		sym.Assert(err == nil, "element")
		return sameObject(ex, ey)
	}
	for i := 0; i < int(d.Car.(l.Integer)); i++ {
		if !sameElements(x, y, append(append([]l.Node{}, idx...), l.Integer(i)), d.Cdr) {
			return false
		}
	}
	return true
}

// C03_Integer: every 64-bit integer up to nine (thorough: 18) digits and those next to the extremes.
func C03_Integer() {
	x := sym.Int64("x")
	lim := int64(1_000_000_000)
	if sym.Thorough() {
		lim = 1_000_000_000_000
	}
	if sym.Choice("region", 2) == 0 {
		sym.Assume(sym.And(x > -lim, x < lim))
	} else {
		const min = -1 << 63
		sym.Assume(sym.Or(x < min+3, x > -(min+4)))
	}
	sym.ObserveStr("s", roundTrip(l.Integer(x)))
}

// C03_String: strings of up to three (thorough four) arbitrary ASCII characters.
func C03_String() {
	max := 3
	if sym.Thorough() {
		max = 4
	}
	s := text("s", sym.Choice("n", max+1), "")
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] < 0x80)
	}
	roundTrip(l.String(s))
}

// utf8Text is one arbitrary character of 1 to 4 bytes encoded in UTF-8.
func utf8Text(label string, max int) string {
	n := 1 + sym.Choice(label+"len", max)
	b := make([]byte, n)
	for i := range b {
		b[i] = sym.Byte(label)
		if i > 0 {
			sym.Assume(sym.And(b[i] >= 0x80, b[i] <= 0xBF))
		}
	}
	switch n {
	case 1:
		sym.Assume(b[0] < 0x80)
	case 2:
		sym.Assume(sym.And(b[0] >= 0xC2, b[0] <= 0xDF))
	case 3:
		sym.Assume(sym.And(b[0] >= 0xE0, b[0] <= 0xEF))
		sym.Assume(sym.Implies(b[0] == 0xE0, b[1] >= 0xA0))
		sym.Assume(sym.Implies(b[0] == 0xED, b[1] < 0xA0))
	case 4:
		sym.Assume(sym.And(b[0] >= 0xF0, b[0] <= 0xF4))
		sym.Assume(sym.Implies(b[0] == 0xF0, b[1] >= 0x90))
		sym.Assume(sym.Implies(b[0] == 0xF4, b[1] < 0x90))
	}
	return sym.BytesString(b...)
}

// C03_StringUnicode: strings of one arbitrary character of any plane between a quote, a backslash or a letter.
func C03_StringUnicode() {
	pre := []string{"", "\"", "\\", "a"}[sym.Choice("pre", 4)]
	post := []string{"", "\"", "\\", "a"}[sym.Choice("post", 4)]
	roundTrip(l.String(pre + utf8Text("c", 4) + post))
}

// C03_Char: every character of the ASCII range, and arbitrary ones up to U+10FFFF whose class is one of the
// boundaries of the printer (letters are decided by the real table for the concrete representatives).
func C03_Char() {
	c := sym.Int32("c")
	sym.Assume(sym.And(c >= 0, c < 0x80))
	roundTrip(l.Rune(c))
}

// C03_CharUnicode: the characters U+0080..U+07FF (thorough: more blocks), every one.
func C03_CharUnicode() {
	blocks := []int32{0x80, 0x100, 0x2000, 0x3040, 0x4E00, 0xD7C0, 0xE000, 0xFF00, 0xFFC0, 0x1F600, 0x10FFC0}
	b := blocks[sym.Choice("block", len(blocks))]
	c := b + int32(sym.Choice("i", 64))
	roundTrip(l.Rune(c))
}

// C03_Symbol: symbols whose name is any text of up to two (thorough three) ASCII characters, or three
// (thorough four) over the characters that have a meaning to the reader.
func C03_Symbol() {
	var s string
	n := 2
	if sym.Thorough() {
		n = 3
	}
	if sym.Choice("kind", 2) == 0 {
		s = text("s", sym.Choice("n", n+1), "")
		for i := 0; i < len(s); i++ {
			sym.Assume(s[i] < 0x80)
		}
	} else {
		s = text("s", n+1, "#|\\\"';(), a1.-:tNilxE&")
	}
	roundTrip(S(s))
}

// C03_SymbolNumber: symbols whose name looks like a number: up to four (thorough five) of + - . 0 1 9 e E # x b.
func C03_SymbolNumber() {
	n := 4
	if sym.Thorough() {
		n = 5
	}
	roundTrip(S(text("s", 1+sym.Choice("n", n), "+-.019eE#xb")))
}

// leaf is an arbitrary atom.
func leaf(label string) l.Node {
	switch sym.Choice(label+"kind", 7) {
	case 0:
		x := sym.Int64(label)
		sym.Assume(sym.And(x > -100, x < 100))
		return l.Integer(x)
	case 1:
		s := text(label, 1, "")
		sym.Assume(s[0] < 0x80)
		return l.String(s)
	case 2:
		c := sym.Int32(label)
		sym.Assume(sym.And(c >= 0x20, c < 0x7f))
		return l.Rune(c)
	case 3:
		return S(text(label, 1, "a,'`#|.;\" 1&:t@"))
	case 4:
		return l.Null
	case 5:
		return l.True
	}
	return S([]string{"quote", "quasiquote", "unquote", "function"}[sym.Choice(label+"sym", 4)])
}

// tree is an arbitrary object of at most depth conses along any path.
func tree(label string, depth int) l.Node {
	if depth == 0 || sym.Choice(label+"cons", 2) == 0 {
		return leaf(label)
	}
	return &l.Cons{Car: tree(label+"a", depth-1), Cdr: tree(label+"d", depth-1)}
}

// C03_Pair: every pair of two leaves.
func C03_Pair() {
	roundTrip(&l.Cons{Car: leaf("a"), Cdr: leaf("d")})
}

// simpleLeaf is one of a few atoms that interact with list printing.
func simpleLeaf(label string) l.Node {
	names := []string{"a", "quote", "quasiquote", "unquote", "function", ","}
	i := sym.Choice(label+"leaf", len(names)+2)
	switch i - len(names) {
	case 0:
		return l.Null
	case 1:
		return l.Integer(7)
	}
	return S(names[i])
}

func simpleTree(label string, conses *int) l.Node {
	if *conses > 0 && sym.Choice(label+"cons", 2) == 1 {
		*conses--
		car := simpleTree(label+"a", conses)
		return &l.Cons{Car: car, Cdr: simpleTree(label+"d", conses)}
	}
	return simpleLeaf(label)
}

// C03_Tree: every cons structure of up to three (thorough four) conses over the atoms of simpleLeaf.
func C03_Tree() {
	n := 3
	if sym.Thorough() {
		n = 4
	}
	roundTrip(simpleTree("t", &n))
}

// C03_Array: arrays of rank 0 to 3 with dimensions 1 and 2 and arbitrary leaves; the empty ones of each rank.
func C03_Array() {
	rank := sym.Choice("rank", 4)
	if rank > 0 && sym.Choice("empty", 2) == 1 {
		src := []string{"#()", "#2a()", "#3a()", "#2a(())", "#2a(()())", "#3a(())", "#3a((()))"}[sym.Choice("text", 7)]
		forms, err := readAll(src)
		sym.Assert(err == nil && len(forms) == 1, "readable")
		roundTrip(forms[0])
		return
	}
	dims := []l.Node{}
	idx := []l.Node{}
	for i := 0; i < rank; i++ {
		dims = append(dims, l.Integer(1+sym.Choice("dim", 2)))
		idx = append(idx, l.Integer(0))
	}
	a, err := call("create-array", l.List(dims...), smallLeaf("e"))
	sym.Assert(err == nil, "create-array")
	_, err = call("set-aref", append([]l.Node{leaf("f"), a}, idx...)...)
	sym.Assert(err == nil, "set-aref")
	roundTrip(a)
}

func smallLeaf(label string) l.Node {
	switch sym.Choice(label+"leaf", 3) {
	case 0:
		x := sym.Int64(label)
		sym.Assume(sym.And(x > -10, x < 10))
		return l.Integer(x)
	case 1:
		return S(text(label, 1, "a'( 1"))
	}
	return l.Null
}

// C03_Nested: an array in a list in an array, a string and a character beside them.
func C03_Nested() {
	in := smallLeaf("i")
	v, err := call("vector", in, S("b"))
	if sym.Choice("scalar", 2) == 1 {
		v, err = call("create-array", l.Null, in)
	}
	sym.Assert(err == nil, "vector")
	lst := l.List(v, smallLeaf("j"), v)
	o, err := call("vector", lst, v)
	sym.Assert(err == nil, "vector")
	roundTrip(&l.Cons{Car: o, Cdr: leaf("k")})
}

// C03_Prin: format-object with t is the text of ~s, and with nil the display form of strings and characters
// is their characters.
func C03_Prin() {
	x := leaf("x")
	want := printed(x)
	r, err := call("format-object", l.Null, x, l.True)
	sym.Assert(err == nil && string(r.(l.String)) == want, "format-object t")
	r, err = call("format-object", l.Null, x, l.Null)
	sym.Assert(err == nil, "format-object nil")
	d := string(r.(l.String))
	switch v := x.(type) {
	case l.String:
		sym.Assert(d == string(v), "display form of a string")
	case l.Rune:
		sym.Assert(d == string(rune(v)), "display form of a character")
	case l.Symbol:
		sym.Assert(d == v.String(), "display form of a symbol")
	default:
		sym.Assert(strings.EqualFold(d, want), "display form")
	}
}
