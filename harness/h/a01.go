package h

import (
	"errors"

	l "github.com/hymkor/gmnlisp"
	"gmnverif/sym"
)

// A01_AddSubMul: all pairs of 64-bit integers through (+ a b) (- a b) (* a b).
func A01_AddSubMul() {
	a, b := sym.Int64("a"), sym.Int64("b")
	switch sym.Choice("op", 3) {
	case 0:
		n, err := run("(+ a b)", "a", l.Integer(a), "b", l.Integer(b))
		sym.Assert(mustInt(n, err, "+") == a+b, "sum")
	case 1:
		n, err := run("(- a b)", "a", l.Integer(a), "b", l.Integer(b))
		sym.Assert(mustInt(n, err, "-") == a-b, "difference")
	case 2:
		n, err := run("(* a b)", "a", l.Integer(a), "b", l.Integer(b))
		sym.Assert(mustInt(n, err, "*") == a*b, "product")
	}
}

// A01_Fold: all quadruples of integers, + - * / of zero to four operands evaluated left to right.
func A01_Fold() {
	v := []int64{sym.Int64("a"), sym.Int64("b"), sym.Int64("c"), sym.Int64("d")}
	n := sym.Choice("n", 5)
	args := []l.Node{}
	for _, x := range v[:n] {
		args = append(args, l.Integer(x))
	}
	var want int64
	op := sym.Choice("op", 4)
	switch op {
	case 0:
		for _, x := range v[:n] {
			want += x
		}
		r, err := call("+", args...)
		sym.Assert(mustInt(r, err, "+") == want, "sum of n")
	case 1:
		want = 1
		for _, x := range v[:n] {
			want *= x
		}
		r, err := call("*", args...)
		sym.Assert(mustInt(r, err, "*") == want, "product of n")
	case 2:
		sym.Assume(n >= 1)
		if n == 1 {
			want = -v[0]
		} else {
			want = v[0]
			for _, x := range v[1:n] {
				want -= x
			}
		}
		r, err := call("-", args...)
		sym.Assert(mustInt(r, err, "-") == want, "difference of n")
	case 3:
		sym.Assume(n >= 2)
		want = v[0]
		for _, x := range v[1:n] {
			sym.Assume(x != 0)
			want /= x
		}
		r, err := call("/", args...)
		sym.Assert(mustInt(r, err, "/") == want, "quotient of n")
	}
}

// A01_DivideZero: an integer, float or negative zero divisor, at any of the positions 2..4,
// raises division-by-zero.
func A01_DivideZero() {
	zero := []l.Node{l.Integer(0), l.Float(0), -l.Float(0)}[sym.Choice("zero", 3)]
	var first l.Node = l.Integer(sym.Int64("a"))
	if sym.Bool("float") {
		first = l.Float(sym.Float64("f"))
	}
	args := []l.Node{first}
	for i := sym.Choice("pos", 3); i > 0; i-- {
		args = append(args, l.Integer(1))
	}
	args = append(args, zero)
	n, err := call("/", args...)
	isDivisionByZero(n, err)
}

func isDivisionByZero(n l.Node, err error) {
	sym.Assert(err != nil, "division by zero returned a value")
	var ae *l.ArithmeticError
	sym.Assert(errors.As(err, &ae), "not an arithmetic error")
	sym.Assert(ae.ClassOf().Name().String() == "<division-by-zero>", "not division-by-zero")
}

// A01_Mixed: two operands, at least one a float, all float values and all integers.
func A01_Mixed() {
	var x, y float64
	var a, b l.Node
	ai, bi := sym.Bool("a is integer"), sym.Bool("b is integer")
	sym.Assume(!ai || !bi)
	if ai {
		i := sym.Int64("a")
		x, a = float64(i), l.Integer(i)
	} else {
		x = sym.Float64("x")
		a = l.Float(x)
	}
	if bi {
		i := sym.Int64("b")
		y, b = float64(i), l.Integer(i)
	} else {
		y = sym.Float64("y")
		b = l.Float(y)
	}
	var want float64
	var r l.Node
	var err error
	switch sym.Choice("op", 4) {
	case 0:
		want = x + y
		r, err = run("(+ a b)", "a", a, "b", b)
	case 1:
		want = x - y
		r, err = run("(- a b)", "a", a, "b", b)
	case 2:
		want = x * y
		r, err = run("(* a b)", "a", a, "b", b)
	case 3:
		sym.Assume(y != 0)
		want = x / y
		r, err = run("(/ a b)", "a", a, "b", b)
	}
	sym.Assert(sym.SameFloat(mustFloat(r, err, "r"), want), "float result")
}

// A01_Negate: (- x) of every integer and every non-zero float.
func A01_Negate() {
	if sym.Bool("float") {
		x := sym.Float64("x")
		sym.Assume(x != 0)
		r, err := run("(- x)", "x", l.Float(x))
		sym.Assert(sym.SameFloat(mustFloat(r, err, "r"), -x), "float negation")
	} else {
		x := sym.Int64("x")
		r, err := run("(- x)", "x", l.Integer(x))
		sym.Assert(mustInt(r, err, "r") == -x, "negation")
	}
}

// A01_IncDec: 1+ 1- incf decf on every integer (and every delta) agree with + and -,
// and incf/decf store the result.
func A01_IncDec() {
	x, d := sym.Int64("x"), sym.Int64("d")
	codes := []string{
		"(1+ x)", "(1- x)", "(incf x)", "(decf x)", "(incf x d)", "(decf x d)",
		"(progn (incf x) x)", "(progn (decf x) x)", "(progn (incf x d) x)", "(progn (decf x d) x)",
	}
	wants := []int64{x + 1, x - 1, x + 1, x - 1, x + d, x - d, x + 1, x - 1, x + d, x - d}
	k := sym.Choice("k", len(codes))
	r, err := run(codes[k], "x", l.Integer(x), "d", l.Integer(d))
	sym.Assert(mustInt(r, err, codes[k]) == wants[k], codes[k])
}

// A01_MixedFold: three operands, the float at any position: the integers before it are
// combined as integers.
func A01_MixedFold() {
	a, b := sym.Int64("a"), sym.Int64("b")
	f := sym.Float64("f")
	pos := sym.Choice("pos", 3)
	A, B, F := l.Integer(a), l.Integer(b), l.Float(f)
	op := sym.Choice("op", 3)
	name := []string{"+", "-", "*"}[op]
	var want float64
	ap := func(x, y float64) float64 {
		switch op {
		case 0:
			return x + y
		case 1:
			return x - y
		}
		return x * y
	}
	ip := func(x, y int64) int64 {
		switch op {
		case 0:
			return x + y
		case 1:
			return x - y
		}
		return x * y
	}
	var r l.Node
	var err error
	switch pos {
	case 0:
		want = ap(ap(f, float64(a)), float64(b))
		r, err = call(name, F, A, B)
	case 1:
		want = ap(ap(float64(a), f), float64(b))
		r, err = call(name, A, F, B)
	case 2:
		want = ap(float64(ip(a, b)), f)
		r, err = call(name, A, B, F)
	}
	sym.Assert(sym.SameFloat(mustFloat(r, err, "r"), want), "mixed fold")
}

// nonNumbers are operands of every type other than numbers, strings and characters.
func nonNumbers() []l.Node {
	return []l.Node{
		l.Null, l.True, S("a"), l.List(l.Integer(1), l.Integer(2)), l.NewKeyword(":k"),
		&l.Cons{Car: l.Integer(1), Cdr: l.Integer(2)},
	}
}

// A01_NonNumber: a symbol, list, nil or t at any of up to three positions is a domain error,
// whatever the other operands (integer or float) are.
func A01_NonNumber() {
	op := []string{"+", "-", "*", "/"}[sym.Choice("op", 4)]
	n := 1 + sym.Choice("n", 3)
	if op == "/" {
		sym.Assume(n >= 2)
	}
	pos := sym.Choice("pos", 3)
	sym.Assume(pos < n)
	bad := nonNumbers()
	b := bad[sym.Choice("bad", len(bad))]
	args := []l.Node{}
	for i := 0; i < n; i++ {
		switch {
		case i == pos:
			args = append(args, b)
		case sym.Bool("float"):
			f := sym.Float64("f")
			sym.Assume(f != 0)
			args = append(args, l.Float(f))
		default:
			v := sym.Int64("v")
			sym.Assume(v != 0)
			args = append(args, l.Integer(v))
		}
	}
	// an integer quotient of zero is no divisor here: divisors are the literal operands
	r, err := call(op, args...)
	isDomainError(r, err, b)
}

func isDomainError(r l.Node, err error, object l.Node) {
	sym.Assert(err != nil, "a wrong operand gave a value")
	var de *l.DomainError
	sym.Assert(errors.As(err, &de), "not a domain error")
	sym.Assert(de.Object != nil && de.Object.Equals(object, l.STRICT), "domain error names another object")
}

// A01_Handler: arithmetic that succeeds never calls an established handler.
func A01_Handler() {
	a, f := sym.Int64("a"), sym.Float64("f")
	sym.Assume(f != 0)
	sym.Assume(a != 0)
	codes := []string{"(+ a f)", "(+ f a)", "(- a f)", "(- f a)", "(* a f)", "(* f a)", "(/ a f)", "(/ f a)",
		"(< a f)", "(< f a)", "(> a f)", "(>= f a)", "(= a f)"}
	k := sym.Choice("k", len(codes))
	r, err := run("(let ((z 0)) (with-handler (lambda (c) (setq z 1)) "+codes[k]+") z)",
		"a", l.Integer(a), "f", l.Float(f))
	sym.Assert(mustInt(r, err, "handler") == 0, "handler called by "+codes[k])
}
