package h

import (
	l "github.com/hymkor/gmnlisp"
	"gmnverif/sym"
)

func relInt(op int, a, b int64) bool {
	switch op {
	case 0:
		return a < b
	case 1:
		return a <= b
	case 2:
		return a > b
	case 3:
		return a >= b
	case 4:
		return a == b
	}
	return a != b
}

func relFloat(op int, a, b float64) bool {
	switch op {
	case 0:
		return a < b
	case 1:
		return a <= b
	case 2:
		return a > b
	case 3:
		return a >= b
	case 4:
		return a == b
	}
	return a != b
}

var relNames = []string{"<", "<=", ">", ">=", "=", "/="}

// A03_Pairs: every pair of integers.
func A03_Pairs() {
	a, b := sym.Int64("a"), sym.Int64("b")
	op := sym.Choice("op", 6)
	n, err := run("("+relNames[op]+" a b)", "a", l.Integer(a), "b", l.Integer(b))
	sym.Assert(mustBool(n, err, "r") == relInt(op, a, b), relNames[op])
	sym.Assert(sym.Or(l.IsNone(n), n == l.True), "truth value is t or nil")
}

// A03_Floats: every pair of non-NaN numbers of which at least one is a float; an integer is
// compared as the float nearest to it.
func A03_Floats() {
	var x, y float64
	var a, b l.Node
	k := sym.Choice("kind", 3)
	if k == 1 {
		i := sym.Int64("a")
		x, a = float64(i), l.Integer(i)
	} else {
		x = sym.Float64("x")
		a = l.Float(x)
	}
	if k == 2 {
		i := sym.Int64("b")
		y, b = float64(i), l.Integer(i)
	} else {
		y = sym.Float64("y")
		b = l.Float(y)
	}
	sym.Assume(sym.And(x == x, y == y))
	op := sym.Choice("op", 6)
	n, err := run("("+relNames[op]+" a b)", "a", a, "b", b)
	sym.Assert(mustBool(n, err, "r") == relFloat(op, x, y), relNames[op])
}

// A03_Chain: chains of one to four (thorough five) arbitrary integers.
func A03_Chain() {
	max := 4
	if sym.Thorough() {
		max = 5
	}
	n := 1 + sym.Choice("n", max)
	op := sym.Choice("op", 5)
	var v []int64
	var args []l.Node
	for i := 0; i < n; i++ {
		x := sym.Int64("v")
		v = append(v, x)
		args = append(args, l.Integer(x))
	}
	want := true
	for i := 0; i+1 < n; i++ {
		want = sym.And(want, relInt(op, v[i], v[i+1]))
	}
	r, err := call(relNames[op], args...)
	sym.Assert(mustBool(r, err, "r") == want, "chain "+relNames[op])
}

// A03_ChainMixed: chains of three in which each element is an arbitrary integer or float.
func A03_ChainMixed() {
	op := sym.Choice("op", 5)
	var v []float64
	var isF []bool
	var ints []int64
	var args []l.Node
	for i := 0; i < 3; i++ {
		if sym.Choice("float", 2) == 1 {
			f := sym.Float64("f")
			sym.Assume(f == f)
			v, isF, ints = append(v, f), append(isF, true), append(ints, 0)
			args = append(args, l.Float(f))
		} else {
			x := sym.Int64("v")
			v, isF, ints = append(v, float64(x)), append(isF, false), append(ints, x)
			args = append(args, l.Integer(x))
		}
	}
	want := true
	for i := 0; i+1 < 3; i++ {
		if !isF[i] && !isF[i+1] {
			want = sym.And(want, relInt(op, ints[i], ints[i+1]))
		} else {
			want = sym.And(want, relFloat(op, v[i], v[i+1]))
		}
	}
	r, err := call(relNames[op], args...)
	sym.Assert(mustBool(r, err, "r") == want, "mixed chain "+relNames[op])
}

// A03_MaxMin: max and min of one to four integers.
func A03_MaxMin() {
	n := 1 + sym.Choice("n", 4)
	isMax := sym.Choice("max", 2) == 1
	var v []int64
	var args []l.Node
	for i := 0; i < n; i++ {
		x := sym.Int64("v")
		v = append(v, x)
		args = append(args, l.Integer(x))
	}
	name := "min"
	if isMax {
		name = "max"
	}
	r, err := call(name, args...)
	got := mustInt(r, err, name)
	member, bound := false, true
	for _, x := range v {
		member = sym.Or(member, x == got)
		if isMax {
			bound = sym.And(bound, got >= x)
		} else {
			bound = sym.And(bound, got <= x)
		}
	}
	sym.Assert(member, name+" returns one of its arguments")
	sym.Assert(bound, name+" bounds every argument")
}

// A03_MaxMinMixed: max and min of an integer (below 2^53) and a float.
func A03_MaxMinMixed() {
	i, f := sym.Int64("i"), sym.Float64("f")
	sym.Assume(f == f)
	sym.Assume(i > -1<<53)
	sym.Assume(i < 1<<53)
	isMax := sym.Choice("max", 2) == 1
	name := "min"
	if isMax {
		name = "max"
	}
	args := []l.Node{l.Integer(i), l.Float(f)}
	if sym.Choice("swap", 2) == 1 {
		args[0], args[1] = args[1], args[0]
	}
	r, err := call(name, args...)
	sym.Assert(err == nil, "error")
	var got float64
	switch v := r.(type) {
	case l.Integer:
		sym.Assert(int64(v) == i, "another integer")
		got = float64(i)
	case l.Float:
		sym.Assert(float64(v) == f, "another float")
		got = f
	default:
		sym.Assert(false, "not a number")
	}
	sym.ObserveFloat("r", got)
	if isMax {
		sym.Assert(sym.And(got >= float64(i), got >= f), "max bounds")
	} else {
		sym.Assert(sym.And(got <= float64(i), got <= f), "min bounds")
	}
}

// A03_NonNumber: in a chain of two or three operands whose earlier pairs are related, a symbol, list,
// nil or t raises a domain error that names it (< <= > >= and max, min).
func A03_NonNumber() {
	names := []string{"<", "<=", ">", ">=", "max", "min"}
	op := sym.Choice("op", 6)
	n := 2 + sym.Choice("n", 2)
	pos := sym.Choice("pos", 3)
	sym.Assume(pos < n)
	bads := nonNumbers()
	bad := bads[sym.Choice("bad", len(bads))]
	var args []l.Node
	var prev int64
	for i := 0; i < n; i++ {
		if i == pos {
			args = append(args, bad)
			continue
		}
		x := sym.Int64("v")
		if i > 0 && i < pos && op < 4 {
			sym.Assume(relInt(op, prev, x))
		}
		prev = x
		args = append(args, l.Integer(x))
	}
	r, err := call(names[op], args...)
	isDomainError(r, err, bad)
}
