package h

import (
	l "github.com/hymkor/gmnlisp"
	"gmnverif/sym"
)

// codePoint is an arbitrary Unicode scalar value.
func codePoint(label string) rune {
	c := sym.Int32(label)
	sym.Assume(sym.And(c >= 0, c <= 0x10FFFF, sym.Or(c < 0xD800, c > 0xDFFF)))
	return c
}

func points(label string, n int) []rune {
	r := make([]rune, n)
	for i := range r {
		r[i] = codePoint(label)
	}
	return r
}

// fewPoints draws characters of every encoded length from small ranges, so that matches are likely.
func fewPoints(label string, n int) []rune {
	r := make([]rune, n)
	for i := range r {
		c := sym.Int32(label)
		sym.Assume(sym.Or(sym.And(c >= 'a', c <= 'z'), sym.And(c >= 0x400, c <= 0x4ff)))
		r[i] = c
	}
	return r
}

func str(r []rune) l.String { return l.String(string(r)) }

// same code points
func sameRunes(n l.Node, want []rune, what string) {
	s, ok := n.(l.String)
	sym.Assert(ok, what+": not a string")
	w := string(want)
	sym.Assert(len(s) == len(w), what+": length")
	sym.Assert(string(s) == w, what+": content")
}

// F01_Append: string-append of up to three strings of arbitrary bytes is their concatenation.
func F01_Append() {
	n := sym.Choice("n", 4)
	var args []l.Node
	want := ""
	for i := 0; i < n; i++ {
		s := text("s", sym.Choice("len", 3), "")
		args = append(args, l.String(s))
		want += s
	}
	r, ok := okCall("string-append", args...).(l.String)
	sym.Assert(ok && string(r) == want, "concatenation")
	if n > 0 {
		bad := append([]l.Node{}, args...)
		bad[sym.Choice("bad", n)] = []l.Node{l.Integer(1), l.Null, l.True, l.Rune('a'), S("a"), l.List(l.Rune('a'))}[sym.Choice("kind", 6)]
		_, err := call("string-append", bad...)
		sym.Assert(err != nil, "string-append accepts an object that is no string")
	}
}

// F01_Create: create-string repeats a character.
func F01_Create() {
	n := sym.Int64("n")
	sym.Assume(n <= 4)
	c := codePoint("c")
	if sym.Choice("default", 2) == 1 {
		r, err := call("create-string", l.Integer(n))
		if n < 0 {
			sym.Assert(err != nil, "negative length")
			return
		}
		s, ok := okNode(r, err, "create-string").(l.String)
		sym.Assert(ok && len(s) == sym.Concrete(int(n)), "length of the default string")
		return
	}
	r, err := call("create-string", l.Integer(n), l.Rune(c))
	if n < 0 {
		sym.Assert(err != nil, "negative length")
		return
	}
	w := make([]rune, sym.Concrete(int(n)))
	for i := range w {
		w[i] = c
	}
	sameRunes(okNode(r, err, "create-string"), w, "create-string")
}

// F01_Length: length and elt count code points.
func F01_Length() {
	n := sym.Choice("n", 4)
	max := 3
	if n > max {
		n = max
	}
	w := points("c", n)
	s := str(w)
	sym.Assert(mustInt2(call("length", s)) == int64(n), "length is not the number of code points")
	i := sym.Int64("i")
	r, err := call("elt", s, l.Integer(i))
	if i < 0 || i >= int64(n) {
		sym.Assert(err != nil, "elt outside of the string")
		return
	}
	c, ok := okNode(r, err, "elt").(l.Rune)
	sym.Assert(ok && rune(c) == w[sym.Concrete(int(i))], "elt is not the code point")
}

func mustInt2(n l.Node, err error) int64 { return mustInt(n, err, "value") }

// F01_CharIndex: the least index at or after the start where the character occurs.
func F01_CharIndex() {
	n := sym.Choice("n", 5)
	w := fewPoints("c", n)
	x := fewPoints("x", 1)[0]
	start := int64(0)
	args := []l.Node{l.Rune(x), str(w)}
	if sym.Choice("start", 2) == 1 {
		start = sym.Int64("start")
		args = append(args, l.Integer(start))
	}
	r := okCall("char-index", args...)
	for i, c := range w {
		if int64(i) >= start && c == x {
			k, ok := r.(l.Integer)
			sym.Assert(ok && int64(k) == int64(i), "not the least index")
			return
		}
	}
	sym.Assert(r == l.Null, "the character does not occur")
}

// F01_StringIndex: the least index at or after the start where the string occurs.
func F01_StringIndex() {
	n, m := sym.Choice("n", 5), sym.Choice("m", 3)
	w, x := fewPoints("c", n), fewPoints("x", m)
	start := int64(0)
	args := []l.Node{str(x), str(w)}
	if sym.Choice("start", 2) == 1 {
		start = sym.Int64("start")
		args = append(args, l.Integer(start))
	}
	r := okCall("string-index", args...)
	for i := 0; i+m <= n; i++ {
		if int64(i) < start {
			continue
		}
		hit := true
		for j := range x {
			hit = sym.And(hit, w[i+j] == x[j])
		}
		if hit {
			k, ok := r.(l.Integer)
			sym.Assert(ok && int64(k) == int64(i), "not the least index")
			return
		}
	}
	sym.Assert(r == l.Null, "the string does not occur")
}

var stringOrder = []string{"string=", "string/=", "string<", "string<=", "string>", "string>="}
var charOrder = []string{"char=", "char/=", "char<", "char<=", "char>", "char>="}

func holds(op, cmp int) bool {
	switch op {
	case 0:
		return cmp == 0
	case 1:
		return cmp != 0
	case 2:
		return cmp < 0
	case 3:
		return cmp <= 0
	case 4:
		return cmp > 0
	}
	return cmp >= 0
}

func cmpRune(a, b rune) int {
	return int(sym.IteInt(a < b, -1, sym.IteInt(a > b, 1, 0)))
}

// F01_Chars: character comparisons are the order of the code points.
func F01_Chars() {
	a, b := codePoint("a"), codePoint("b")
	op := sym.Choice("op", 6)
	sym.Assert(rel(charOrder[op], l.Rune(a), l.Rune(b)) == holds(op, cmpRune(a, b)), charOrder[op])
}

// F01_Strings: string comparisons are the lexicographic order of the code points.
func F01_Strings() {
	n, m := sym.Choice("n", 3), sym.Choice("m", 3)
	var a, b []rune
	if n+m <= 2 || sym.Thorough() {
		a, b = points("a", n), points("b", m)
	} else {
		a, b = fewPoints("a", n), fewPoints("b", m)
	}
	cmp := 0
	for i := 0; i < n && i < m; i++ {
		if cmp = cmpRune(a[i], b[i]); cmp != 0 {
			break
		}
	}
	if cmp == 0 {
		cmp = n - m
		if n > m {
			cmp = 1
		}
	}
	op := sym.Choice("op", 6)
	sym.Assert(rel(stringOrder[op], str(a), str(b)) == holds(op, cmp), stringOrder[op])
}

// F01_Kinds: an argument of another kind is an error.
func F01_Kinds() {
	bad := []l.Node{l.Integer(sym.Int64("i")), l.Null, l.True, S("a"), l.List(l.Rune('a')), l.Float(1)}[sym.Choice("kind", 6)]
	first := sym.Choice("first", 2) == 0
	try := func(name string, good l.Node) {
		var err error
		if first {
			_, err = call(name, bad, good)
		} else {
			_, err = call(name, good, bad)
		}
		sym.Assert(err != nil, name+" accepts an object of another kind")
	}
	op := sym.Choice("op", 6)
	try(stringOrder[op], l.String("a"))
	try(charOrder[op], l.Rune('a'))
	_, err := call("char-index", bad, l.String("a"))
	sym.Assert(err != nil, "char-index of another kind")
	_, err = call("char-index", l.Rune('a'), bad)
	sym.Assert(err != nil, "char-index in another kind")
	_, err = call("string-index", bad, l.String("a"))
	sym.Assert(err != nil, "string-index of another kind")
	_, err = call("string-index", l.String("a"), bad)
	sym.Assert(err != nil, "string-index in another kind")
	_, err = call("create-string", l.Integer(1), bad)
	sym.Assert(err != nil, "create-string of another kind")
	sym.Assert(!rel("stringp", bad) && !rel("characterp", bad), "predicates")
	sym.Assert(rel("stringp", l.String("a")) && rel("characterp", l.Rune('a')) && !rel("stringp", l.Rune('a')) && !rel("characterp", l.String("a")), "predicates")
}

// F01_Case: the order of strings that agree up to the case of their letters is still that of the code points.
func F01_Case() {
	pick := func(label string, most int) []rune {
		r := make([]rune, sym.Choice("length of "+label, most+1))
		for i := range r {
			r[i] = []rune("aAbB")[sym.Choice(label, 4)]
		}
		return r
	}
	most := 2
	if sym.Thorough() {
		most = 3
	}
	a, b := pick("a", most), pick("b", 2)
	cmp := 0
	for i := 0; i < len(a) && i < len(b); i++ {
		if cmp = cmpRune(a[i], b[i]); cmp != 0 {
			break
		}
	}
	if cmp == 0 {
		cmp = len(a) - len(b)
		if len(a) > len(b) {
			cmp = 1
		}
	}
	op := sym.Choice("op", 6)
	sym.Assert(rel(stringOrder[op], str(a), str(b)) == holds(op, cmp), stringOrder[op])
}
