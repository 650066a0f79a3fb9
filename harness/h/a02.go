package h

import (
	"math"

	l "github.com/hymkor/gmnlisp"
	"gmnverif/sym"
)

// A02_ModRem: (mod a b) and (rem a b) of every pair of integers with b not 0.
func A02_ModRem() {
	a, b := sym.Int64("a"), sym.Int64("b")
	sym.Assume(b != 0)
	want := a % b
	if sym.Choice("op", 2) == 0 {
		n, err := run("(rem a b)", "a", l.Integer(a), "b", l.Integer(b))
		sym.Assert(mustInt(n, err, "rem") == want, "rem")
		return
	}
	adj := sym.IteInt(sym.And(want != 0, (want < 0) != (b < 0)), want+b, want)
	n, err := run("(mod a b)", "a", l.Integer(a), "b", l.Integer(b))
	sym.Assert(mustInt(n, err, "mod") == adj, "mod")
}

// A02_ModIdentity: divisors 1 2 3 4 5 7 8 10 16 (thorough also 6 9 11 100 1000) and their negatives,
// every dividend: the residue lies in [0,|b|) with the divisor's sign (mod), has the dividend's sign
// (rem), and both are congruent.
func A02_ModIdentity() {
	a := sym.Int64("a")
	bs := []int64{1, 2, 3, 4, 5, 7, 8, 10, 16, 6, 9, 11, 100, 1000}
	lim := 9
	if sym.Thorough() {
		lim = len(bs)
	}
	b := bs[sym.Choice("b", lim)]
	if sym.Choice("neg", 2) == 1 {
		b = -b
	}
	A, B := l.Integer(a), l.Integer(b)
	n, err := run("(mod a b)", "a", A, "b", B)
	m := mustInt(n, err, "mod")
	if b > 0 {
		sym.Assert(sym.And(m >= 0, m < b), "mod range")
	} else {
		sym.Assert(sym.And(m <= 0, m > b), "mod range")
	}
	n, err = run("(rem a b)", "a", A, "b", B)
	r := mustInt(n, err, "rem")
	sym.Assert(sym.Or(r == 0, (r < 0) == (a < 0)), "rem sign")
	sym.Assert(sym.Or(m == r, m == r+b), "mod and rem differ by the divisor")
}

// A02_ZeroDivisor: mod and rem by 0, 0.0 or -0.0 of every integer and float.
func A02_ZeroDivisor() {
	zero := []l.Node{l.Integer(0), l.Float(0), l.Float(math.Copysign(0, -1))}[sym.Choice("zero", 3)]
	var a l.Node = l.Integer(sym.Int64("a"))
	if sym.Choice("float", 2) == 1 {
		a = l.Float(sym.Float64("f"))
	}
	n, err := call([]string{"mod", "rem"}[sym.Choice("op", 2)], a, zero)
	isDivisionByZero(n, err)
}

// A02_Rounding: floor ceiling truncate round on every integer and on every float within the
// 64-bit range.
func A02_Rounding() {
	op := sym.Choice("op", 4)
	name := []string{"floor", "ceiling", "truncate", "round"}[op]
	if sym.Choice("int", 2) == 1 {
		a := sym.Int64("a")
		n, err := run("("+name+" a)", "a", l.Integer(a))
		sym.Assert(mustInt(n, err, name) == a, name+" of an integer")
		return
	}
	f := sym.Float64("f")
	sym.Assume(f >= -9.2e18)
	sym.Assume(f <= 9.2e18)
	n, err := run("("+name+" f)", "f", l.Float(f))
	r := mustInt(n, err, name)
	var want float64
	switch op {
	case 0:
		want = math.Floor(f)
	case 1:
		want = math.Ceil(f)
	case 2:
		want = math.Trunc(f)
	case 3:
		want = math.RoundToEven(f)
	}
	sym.Assert(r == int64(want), name+" of a float")
}

// A02_Predicates: evenp oddp zerop plusp minusp on every integer, zerop plusp minusp on every float,
// and all of them false on non-numbers.
func A02_Predicates() {
	op := sym.Choice("op", 5)
	name := []string{"evenp", "oddp", "zerop", "plusp", "minusp"}[op]
	switch sym.Choice("kind", 3) {
	case 0:
		a := sym.Int64("a")
		n, err := run("("+name+" a)", "a", l.Integer(a))
		want := []bool{a&1 == 0, a&1 == 1, a == 0, a > 0, a < 0}[op]
		sym.Assert(mustBool(n, err, name) == want, name)
	case 1:
		sym.Assume(op >= 2)
		f := sym.Float64("f")
		n, err := run("("+name+" f)", "f", l.Float(f))
		want := []bool{false, false, f == 0, f > 0, f < 0}[op]
		sym.Assert(mustBool(n, err, name) == want, name)
	case 2:
		bad := nonNumbers()
		n, err := call(name, bad[sym.Choice("bad", len(bad))])
		sym.Assert(err != nil || l.IsNone(n), name+" of a non-number")
	}
}

// A02_FloatMod: mod and rem with a float operand (all floats, all integers): the library remainder,
// for mod moved to the divisor's sign.
func A02_FloatMod() {
	vals := []float64{1, -1, 2, -2, 3, 0.5, -0.25, 10, 7.5, -7.5}
	x := vals[sym.Choice("x", len(vals))]
	y := vals[sym.Choice("y", len(vals))]
	var a, b l.Node = l.Float(x), l.Float(y)
	switch sym.Choice("int", 3) {
	case 1:
		sym.Assume(x == math.Trunc(x))
		a = l.Integer(int64(x))
	case 2:
		sym.Assume(y == math.Trunc(y))
		b = l.Integer(int64(y))
	}
	want := math.Mod(x, y)
	if sym.Choice("op", 2) == 0 {
		n, err := call("rem", a, b)
		sym.Assert(mustFloat(n, err, "rem") == want, "float rem")
		return
	}
	if want != 0 && (want < 0) != (y < 0) {
		want += y
	}
	n, err := call("mod", a, b)
	sym.Assert(mustFloat(n, err, "mod") == want, "float mod")
}
