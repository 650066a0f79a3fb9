package h

import (
	"math"
	"strconv"
	"strings"

	l "github.com/hymkor/gmnlisp"
	"gmnverif/sym"
)

func convert(x l.Node, class string) (l.Node, error) { return run("(convert x "+class+")", "x", x) }

func converted(x l.Node, class string) l.Node {
	r, err := convert(x, class)
	sym.Assert(err == nil, "converted")
	return r
}

// O01_Characters: characters become their code points and back, and symbols of that name.
func O01_Characters() {
	c := codePoint("c")
	n := converted(l.Rune(c), "<integer>")
	sym.Assert(mustInt(n, nil, "code point") == int64(c), "the code point")
	sym.Assert(rel("eql", converted(n, "<character>"), l.Rune(c)), "the character again")
	sym.Assert(rel("eql", converted(l.Rune(c), "<character>"), l.Rune(c)), "a character as a character")
	s := converted(l.Rune(c), "<symbol>")
	sym.Assert(rel("eq", s, S(string(c))), "the symbol of a character")
}

// O01_Integers: an integer becomes a character exactly if it is a code point, a float nearest to it and its decimal
// notation, which becomes the integer again.
func O01_Integers() {
	i := sym.Int64("i")
	n := l.Integer(i)
	c, err := convert(n, "<character>")
	valid := sym.And(i >= 0, i <= 0x10FFFF, sym.Or(i < 0xD800, i > 0xDFFF))
	sym.Assert((err == nil) == valid, "exactly the code points become characters")
	if err == nil {
		sym.Assert(rel("eql", converted(c, "<integer>"), n), "the integer again")
	}
	sym.Assert(rel("eql", converted(n, "<integer>"), n), "an integer as an integer")
	f := converted(n, "<float>")
	sym.Assert(float64(f.(l.Float)) == float64(i), "the float")
}

// O01_Decimal: the decimal notation of every integer becomes the integer again.
func O01_Decimal() {
	i := sym.Int64("i")
	n := l.Integer(i)
	s := converted(n, "<string>")
	sym.Assert(rel("eql", converted(s, "<integer>"), n), "the integer again")
	sym.Assert(printed(n) == string(s.(l.String)), "the decimal notation is not the printed one")
}

// O01_Floats: a float becomes the integer of its integral part; what is no integer of 64 bits is an error.
func O01_Floats() {
	f := sym.Float64("f")
	sym.Assert(math.Float64bits(float64(converted(l.Float(f), "<float>").(l.Float))) == math.Float64bits(f), "a float as a float")
	n, err := convert(l.Float(f), "<integer>")
	fits := sym.And(f >= -9223372036854775808.0, f < 9223372036854775808.0)
	sym.Assert((err == nil) == fits, "exactly the floats of 64 bits become integers")
	if err == nil {
		i, ok := n.(l.Integer)
		sym.Assert(ok && int64(i) == int64(f), "the integral part")
	}
}

var floats = []float64{0, 1, -1, 0.5, 0.1, -2.25, 1e-6, 1e-7, 123456.789, 1.0 / 3, 2.0 / 3, -1e-300, 5e-324, 1e22, 1e23, 1.7976931348623157e308, 123456789.123456789, 0.30000000000000004, 4503599627370497.5, 1e15, -9007199254740993}

// O01_FloatText: the notation of a float becomes that float again.
func O01_FloatText() {
	f := floats[sym.Choice("f", len(floats))]
	switch sym.Choice("change", 4) {
	case 1:
		f = math.Nextafter(f, 1)
	case 2:
		f = math.Sqrt(math.Abs(f))
	case 3:
		f = -f / 10
	}
	s := converted(l.Float(f), "<string>")
	sym.Assert(float64(converted(s, "<float>").(l.Float)) == f, "the float again")
	x, err := readOne(string(s.(l.String)))
	sym.Assert(err == nil && float64(x.(l.Float)) == f, "the notation reads as the float")
}

// isDecimal tells whether s is the decimal notation of an integer.
func isDecimal(s string) bool {
	if s != "" && (s[0] == '-' || s[0] == '+') {
		s = s[1:]
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return s != ""
}

// isFloat tells whether s is the decimal notation of a float or an integer.
func isFloat(s string) bool {
	if i := strings.IndexAny(s, "eE"); i >= 0 {
		if !isDecimal(s[i+1:]) {
			return false
		}
		s = s[:i]
	}
	if i := strings.IndexByte(s, '.'); i >= 0 {
		if i+1 < len(s) && (s[i+1] == '-' || s[i+1] == '+') {
			return false
		}
		s = s[:i] + s[i+1:]
	}
	return isDecimal(s)
}

func numberText(s string) {
	n, err := convert(l.String(s), "<integer>")
	i, ierr := strconv.ParseInt(s, 10, 64)
	ok := isDecimal(s) && ierr == nil
	sym.Assert((err == nil) == ok, "exactly the notations of integers of 64 bits become integers")
	if ok {
		sym.Assert(n == l.Node(l.Integer(i)), "the integer")
	}
	x, err := convert(l.String(s), "<float>")
	sym.Assert((err == nil) == isFloat(s), "exactly the notations of numbers become floats")
	if err == nil {
		f, _ := strconv.ParseFloat(s, 64)
		sym.Assert(math.Float64bits(float64(x.(l.Float))) == math.Float64bits(f), "the nearest float")
	}
}

// O01_Numbers: strings become numbers exactly if they are the notation of one.
func O01_Numbers() { numberText(text("text", sym.Choice("length", tierDepth(4)), "07.-+eExna _")) }

// O01_NumberWords: texts that begin like numbers.
func O01_NumberWords() {
	s := []string{"inf", "-inf", "+Inf", "nan", "NaN", "infinity", "Infinity", "0x10", "0x1p-2", "1_000", "0b1", "0o7", "1e", "1e5", "1e-5", "--1", "1/2", "0x1_0p0"}[sym.Choice("word", 18)]
	switch sym.Choice("change", 3) {
	case 1:
		s += string(rune(sym.Byte("last")))
	case 2:
		b := sym.Byte("first")
		sym.Assume(b < 0x80)
		s = string(rune(b)) + s
	}
	numberText(s)
}

// O01_NumberRange: integers next to the bounds of 64 bits.
func O01_NumberRange() {
	s := []string{"", "-", "+"}[sym.Choice("sign", 3)] + []string{"922337203685477580", "0922337203685477580", "92233720368547758", "1844674407370955161", "999999999999999999"}[sym.Choice("digits", 5)] + text("end", 1+sym.Choice("more", 2), "0123456789")
	numberText(s)
}

// O01_Symbols: a string becomes the symbol of that name, whose name is the string.
func O01_Symbols() {
	s := ""
	if sym.Choice("empty", 2) == 0 {
		s = utf8Text("s", 4) + text("t", sym.Choice("more", 2), "")
	}
	n := converted(l.String(s), "<symbol>")
	sym.Assert(rel("eq", n, S(s)), "the symbol")
	sym.Assert(rel("eq", converted(n, "<symbol>"), n), "a symbol as a symbol")
	back, ok := converted(n, "<string>").(l.String)
	sym.Assert(ok && string(back) == s, "the name")
	back, ok = converted(l.String(s), "<string>").(l.String)
	sym.Assert(ok && string(back) == s, "a string as a string")
}

// O01_Text: a string becomes the list and the vector of its characters.
func O01_Text() {
	var e []l.Node
	r := points("r", sym.Choice("length", tierDepth(4)))
	for _, c := range r {
		e = append(e, l.Rune(c))
	}
	isSeq(converted(str(r), "<list>"), 0, e, "the list")
	isSeq(converted(str(r), "<general-vector>"), 2, e, "the vector")
}

// O01_Sequences: lists and vectors become each other, holding the same objects in order; the source is left as it is.
func O01_Sequences() {
	n := sym.Choice("length", tierDepth(4))
	list, c := cells("e", n, l.Null)
	for i := range c {
		if sym.Choice("nil", 2) == 1 {
			c[i].Car = l.Null
		}
	}
	want := elems(c)
	vec := converted(list, "<general-vector>")
	isSeq(vec, 2, want, "the vector")
	sym.Assert(rel("eq", converted(vec, "<general-vector>"), vec), "a vector as a vector")
	sym.Assert(rel("eq", converted(list, "<list>"), list), "a list as a list")
	back := converted(vec, "<list>")
	isFresh("the list", back, want, c)
	isSeq(back, 0, want, "the list")
	isSeq(list, 0, want, "the source")
	if n > 0 {
		v := l.Integer(sym.Int64("v"))
		k := sym.Choice("position", n)
		_, err := run("(setf (elt vec k) v)", "vec", vec, "k", l.Integer(k), "v", v)
		sym.Assert(err == nil, "stored")
		isSeq(list, 0, want, "a store changes the list")
		isSeq(back, 0, want, "a store changes the list")
		want[k] = v
		isSeq(vec, 2, want, "the vector changed")
	}
}

// O01_Nested: the elements of a sequence are not converted.
func O01_Nested() {
	_, err := run(d01setup)
	sym.Assert(err == nil, "setup")
	a := anything(sym.Choice("a", d01n))
	r, err := run("(convert (convert (list a (list a a) (vector a)) <general-vector>) <list>)", "a", a)
	sym.Assert(err == nil, "converted")
	e := listElems(r)
	sym.Assert(len(e) == 3, "the number of elements")
	sym.Assert(rel("eq", e[0], a), "the element")
	in := listElems(e[1])
	sym.Assert(len(in) == 2 && rel("eq", in[0], a) && rel("eq", in[1], a), "the element which is a list")
	sym.Assert(rel("eq", okCall("elt", e[2], l.Integer(0)), a), "the element which is a vector")
}

var targets = []string{"<integer>", "<float>", "<character>", "<string>", "<symbol>", "<list>", "<general-vector>", "<object>", "<function>", "<cons>", "<null>", "undefined", "5", "nil"}

func convertible(o l.Node) string {
	switch x := o.(type) {
	case l.Integer:
		return "<integer> <float> <character> <string>"
	case l.Float:
		return "<integer> <float> <string>"
	case l.Rune:
		return "<integer> <character> <symbol>"
	case l.String:
		return "<string> <symbol> <list> <general-vector>" // s and S are no numbers
	case *l.Cons:
		if sym.Or(x.Cdr == l.Null, class("<cons>") == x.Cdr.ClassOf()) {
			return "<list> <general-vector>"
		}
		return "<list>"
	case l.Symbol:
		if l.IsNone(o) {
			return "<symbol> <string> <list> <general-vector>"
		}
		return "<symbol> <string>"
	}
	if rel("eq", o.ClassOf(), class("<array>")) {
		if len(listElems(okCall("array-dimensions", o))) == 1 {
			return "<list> <general-vector>"
		}
	}
	return ""
}

// O01_Table: of every kind of object exactly the conversions of the table are defined, and give an object of the class.
func O01_Table() {
	_, err := run(d01setup)
	sym.Assert(err == nil, "setup")
	o := anything(sym.Choice("object", d01n))
	t := targets[sym.Choice("class", len(targets))]
	r, err := convert(o, t)
	defined := false
	for _, c := range strings.Fields(convertible(o)) {
		defined = defined || c == t
	}
	sym.Assert((err == nil) == defined, "exactly the conversions of the table are defined")
	if err == nil && t != "<general-vector>" {
		b, err := run("(instancep r (class "+t+"))", "r", r)
		sym.Assert(err == nil && b == l.True, "an object of the class")
	}
}

// O01_Improper: a dotted list does not become a vector.
func O01_Improper() {
	tail := smallDatum("tail")
	sym.Assume(tail != l.Null)
	list, _ := cells("e", 1+sym.Choice("length", 3), tail)
	_, err := convert(list, "<general-vector>")
	sym.Assert(err != nil, "a dotted list became a vector")
}
