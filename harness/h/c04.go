package h

import (
	"math"
	"strconv"

	l "github.com/hymkor/gmnlisp"
	"gmnverif/sym"
)

// readOne reads a text that must hold one form.
func readOne(s string) (l.Node, error) {
	forms, err := readAll(s)
	if err != nil {
		return nil, err
	}
	sym.Assert(len(forms) == 1, "one form")
	return forms[0], nil
}

// C04_Decimal: an optional minus sign and 1 to 18 arbitrary digits denote their value, to the reader and to
// parse-number.
func C04_Decimal() {
	n := 1 + sym.Choice("n", 18)
	d := text("d", n, "")
	var want int64
	for i := 0; i < n; i++ {
		sym.Assume(sym.And(d[i] >= '0', d[i] <= '9'))
		want = want*10 + int64(d[i]-'0')
	}
	if sym.Choice("minus", 2) == 1 {
		d, want = "-"+d, -want
	}
	var x l.Node
	var err error
	if sym.Choice("by", 2) == 0 {
		x, err = readOne(d)
	} else {
		x, err = call("parse-number", l.String(d))
	}
	sym.Assert(err == nil, "readable")
	v, ok := x.(l.Integer)
	sym.Assert(ok && int64(v) == want, "the value of the digits")
}

// C04_Boundary: nineteen digits around the 64-bit limits: within them the exact integer, beyond them an
// object that prints as the same digits and is no machine integer.
func C04_Boundary() {
	d := text("d", 2, "0123456789")
	head := []string{"92233720368547758", "92233720368547757", "99999999999999999"}[sym.Choice("head", 3)]
	neg := sym.Choice("minus", 2) == 1
	s := head + d
	if neg {
		s = "-" + s
	}
	tail := int64(d[0]-'0')*10 + int64(d[1]-'0')
	var h int64
	for i := range head {
		h = h*10 + int64(head[i]-'0')
	}
	fits := h < 92233720368547758 || h == 92233720368547758 && (tail <= 7 || tail == 8 && neg)
	var x l.Node
	var err error
	if sym.Choice("by", 2) == 0 {
		x, err = readOne(s)
	} else {
		x, err = call("parse-number", l.String(s))
	}
	sym.Assert(err == nil, "readable")
	v, ok := x.(l.Integer)
	sym.Assert(ok == fits, "a machine integer exactly when it fits")
	if ok {
		w := h*100 + tail
		if neg {
			w = -w
		}
		sym.Assert(int64(v) == w, "the value of the digits")
	} else {
		sym.Assert(x.String() == s, "the digits of a big integer")
	}
}

// C04_Radix: #x with up to 15, #o with up to 20 and #b with up to 24 (thorough 62) arbitrary digits.
func C04_Radix() {
	kind := sym.Choice("kind", 6)
	pre := []string{"#x", "#X", "#o", "#O", "#b", "#B"}[kind]
	max := []int{15, 20, 24}[kind/2]
	if sym.Thorough() && kind/2 == 2 {
		max = 62
	}
	n := 1 + sym.Choice("n", max)
	sym.Assume(n < 4 || n > max-2 || n%4 == 0)
	d := text("d", n, "")
	for i := 2; i < n-1; i++ {
		sym.Assume(kind/2 != 0 || d[i] <= '9')
	}
	var want uint64
	for i := 0; i < n; i++ {
		c := d[i]
		switch kind / 2 {
		case 0:
			sym.Assume(sym.Or(sym.And(c >= '0', c <= '9'), sym.And(c >= 'a', c <= 'f'), sym.And(c >= 'A', c <= 'F')))
			v := sym.IteInt(c <= '9', int64(c)-'0', sym.IteInt(c >= 'a', int64(c)-'a'+10, int64(c)-'A'+10))
			want = want<<4 | uint64(v)
		case 1:
			sym.Assume(sym.And(c >= '0', c <= '7'))
			want = want<<3 | uint64(c-'0')
		case 2:
			sym.Assume(sym.And(c >= '0', c <= '1'))
			want = want<<1 | uint64(c-'0')
		}
	}
	x, err := readOne(pre + d)
	sym.Assert(err == nil, "readable")
	v, ok := x.(l.Integer)
	sym.Assert(ok && uint64(v) == want, "the value of the digits")
}

const (
	kSymbol = iota
	kInt
	kFloat
)

// numberKind is the reference classification of a token.
func numberKind(s string) int {
	i := 0
	sign := byte(0)
	if i < len(s) && (s[i] == '-' || s[i] == '+') {
		sign = s[i]
		i++
	}
	digits := func() bool {
		j := i
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			i++
		}
		return i > j
	}
	if !digits() {
		return kSymbol
	}
	if i == len(s) {
		if sign == '+' {
			return kSymbol
		}
		return kInt
	}
	if s[i] == '.' {
		i++
		digits()
		if i == len(s) {
			return kFloat
		}
	}
	if s[i] != 'e' && s[i] != 'E' {
		return kSymbol
	}
	i++
	if i < len(s) && (s[i] == '-' || s[i] == '+') {
		i++
	}
	if digits() && i == len(s) {
		return kFloat
	}
	return kSymbol
}

// C04_Class: every token of up to four (thorough five) characters of + - . 0 1 9 e E x a _ /: an integer, a float
// or a symbol exactly as the grammar says; parse-number agrees.
func C04_Class() {
	max := 4
	if sym.Thorough() {
		max = 5
	}
	s := text("s", 1+sym.Choice("n", max), "+-.019eExa_/")
	k := numberKind(s)
	x, err := readOne(s)
	sym.Assert(err == nil, "readable")
	switch k {
	case kSymbol:
		y, ok := x.(l.Symbol)
		sym.Assert(ok && y.String() == s, "a symbol")
	case kInt:
		v, ok := x.(l.Integer)
		sym.Assert(ok, "an integer")
		w, err := strconv.ParseInt(s, 10, 64)
		sym.Assert(err == nil && int64(v) == w, "the value")
	case kFloat:
		v, ok := x.(l.Float)
		sym.Assert(ok, "a float")
		w, err := strconv.ParseFloat(s, 64)
		sym.Assert(err == nil && math.Float64bits(float64(v)) == math.Float64bits(w), "the nearest float")
	}
	p, err := call("parse-number", l.String(s))
	if k == kSymbol {
		sym.Assert(err != nil, "parse-number rejects what the reader does not read as a number")
	} else {
		sym.Assert(err == nil && p.Equals(x, l.EQUAL), "parse-number agrees with the reader")
	}
}

// C04_ClassHash: tokens # followed by a radix letter and up to three characters of 0 1 2 7 8 9 a f g x -.
func C04_ClassHash() {
	r := sym.Choice("r", 6)
	s := "#" + []string{"x", "X", "o", "O", "b", "B"}[r] + text("s", sym.Choice("n", 4), "012789afgx-")
	base := []int{16, 8, 2}[r/2]
	ok := len(s) > 2
	var want int64
	for i := 2; i < len(s); i++ {
		d := 99
		switch c := s[i]; {
		case c >= '0' && c <= '9':
			d = int(c - '0')
		case c >= 'a' && c <= 'f':
			d = int(c-'a') + 10
		}
		ok = ok && d < base
		want = want*int64(base) + int64(d)
	}
	x, err := readOne(s)
	if ok {
		sym.Assert(err == nil, "readable")
		v, isInt := x.(l.Integer)
		sym.Assert(isInt && int64(v) == want, "the value of the digits")
	} else if err == nil {
		_, isInt := x.(l.Integer)
		_, isFloat := x.(l.Float)
		sym.Assert(!isInt && !isFloat, "not a number")
	}
	p, err := call("parse-number", l.String(s))
	sym.Assert((err == nil) == ok, "parse-number agrees")
	if ok {
		v, isInt := p.(l.Integer)
		sym.Assert(isInt && int64(v) == want, "parse-number's value")
	}
}

// C04_Float: decimal notations with up to three digits on either side of the point and exponents of one digit.
func C04_Float() {
	s := []string{"", "-", "+"}[sym.Choice("sign", 3)] + text("i", 1, "0159") + "." + text("f", sym.Choice("n", 3), "012357")
	if sym.Choice("exp", 2) == 1 {
		s += []string{"e", "E"}[sym.Choice("e", 2)] + []string{"", "-", "+"}[sym.Choice("esign", 3)] + text("x", 1, "0129")
	}
	x, err := readOne(s)
	sym.Assert(err == nil, "readable")
	v, ok := x.(l.Float)
	sym.Assert(ok, "a float")
	w, err := strconv.ParseFloat(s, 64)
	sym.Assert(err == nil && math.Float64bits(float64(v)) == math.Float64bits(w), "the nearest float")
}

// C04_FormatRadix: ~b ~o ~x and format-integer write every integer in digits that read back as it
// (magnitudes below 2^20, and those above 2^61, in base 16 the outermost 256).
func C04_FormatRadix() {
	k := sym.Choice("base", 3)
	base := []int{2, 8, 16}[k]
	x := sym.Int64("x")
	const min = -1 << 63
	if sym.Choice("region", 2) == 0 {
		sym.Assume(sym.And(x > -1<<20, x < 1<<20))
	} else {
		if base == 16 {
			sym.Assume(sym.Or(x > -(min+1)-256, x < min+256))
		}
		sym.Assume(sym.Or(x > 1<<61, x < -1<<61))
	}
	var r l.Node
	var err error
	if sym.Choice("by", 2) == 0 {
		r, err = call("format", l.Null, l.String([]string{"~b", "~o", "~x"}[k]), l.Integer(x))
	} else {
		r, err = call("format-integer", l.Null, l.Integer(x), l.Integer(base))
	}
	sym.Assert(err == nil, "formattable")
	s := string(r.(l.String))
	neg := len(s) > 0 && s[0] == '-'
	sym.Assert(neg == (x < 0), "the sign")
	if neg {
		s = s[1:]
	}
	sym.Assert(len(s) >= 1 && (len(s) == 1 || s[0] != '0'), "digits without leading zero")
	sym.Assume(x != min)
	y, err := readOne([]string{"#b", "#o", "#x"}[k] + s)
	v, ok := y.(l.Integer)
	sym.Assert(err == nil && ok, "readable")
	want := x
	if neg {
		want = -x
	}
	sym.Assert(int64(v) == want, "reading is the inverse of printing")
}

// C04_FormatDecimal: ~d, format-integer 10, ~a and conversion to a string write the same digits.
func C04_FormatDecimal() {
	x := sym.Int64("x")
	lim := int64(100_000_000)
	const min = -1 << 63
	sym.Assume(sym.Or(sym.And(x > -lim, x < lim), x < min+3, x > -(min+4)))
	var r l.Node
	var err error
	switch sym.Choice("by", 4) {
	case 0:
		r, err = call("format", l.Null, l.String("~d"), l.Integer(x))
	case 1:
		r, err = call("format-integer", l.Null, l.Integer(x), l.Integer(10))
	case 2:
		r, err = call("format", l.Null, l.String("~a"), l.Integer(x))
	case 3:
		r, err = run("(convert x <string>)", "x", l.Integer(x))
	}
	sym.Assert(err == nil, "formattable")
	y, err := readOne(string(r.(l.String)))
	v, ok := y.(l.Integer)
	sym.Assert(err == nil && ok && int64(v) == x, "reading is the inverse of printing")
}

// C04_RadixBoundary: hexadecimal, octal and binary tokens around the 63-, 64- and 65-bit limits with an
// arbitrary last digit: the machine integer when it fits, else the big integer of exactly that value.
func C04_RadixBoundary() {
	kind := sym.Choice("kind", 3)
	pre := []string{"#x", "#o", "#b"}[kind]
	base := []uint64{16, 8, 2}[kind]
	ones := []string{"7fffffffffffffF", "77777777777777777777", "11111111111111111111111111111111111111111111111111111111111111"}[kind]
	half := []string{"800000000000000", "100000000000000000000", "100000000000000000000000000000000000000000000000000000000000000"}[kind]
	full := []string{"FFFFFFFFFFFFFFF", "177777777777777777777", "111111111111111111111111111111111111111111111111111111111111111"}[kind]
	over := []string{"1000000000000000", "200000000000000000000", "1000000000000000000000000000000000000000000000000000000000000000"}[kind]
	i := sym.Choice("head", 4)
	d := uint64(sym.Choice("d", []int{8, 8, 2}[kind]))
	s := pre + []string{ones, half, full, over}[i] + strconv.FormatUint(d, 10)
	var x l.Node
	var err error
	if sym.Choice("by", 2) == 0 {
		x, err = readOne(s)
	} else {
		x, err = call("parse-number", l.String(s))
	}
	sym.Assert(err == nil, "readable")
	v, ok := x.(l.Integer)
	sym.Assert(ok == (i == 0), "a machine integer exactly when it fits")
	switch i {
	case 0:
		sym.Assert(uint64(v) == 1<<63-base+d, "the value of the digits")
	case 1:
		sym.Assert(x.String() == strconv.FormatUint(1<<63+d, 10), "the value of a 64-bit token")
	case 2:
		sym.Assert(x.String() == strconv.FormatUint(-base+d, 10), "the value of a 64-bit token")
	case 3:
		sym.Assert(x.String() == "184467440737095516"+strconv.FormatUint(16+d, 10), "the value of a 65-bit token")
	}
}
