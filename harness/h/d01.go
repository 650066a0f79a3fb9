package h

import (
	l "github.com/hymkor/gmnlisp"
	"gmnverif/sym"
)

var preds = []string{"eq", "eql", "equal", "equalp"}

func rel(p string, a ...l.Node) bool {
	r, err := call(p, a...)
	sym.Assert(err == nil, p+" fails")
	sym.Assert(r == l.Null || r == l.True, p+" is neither t nor nil")
	return r == l.True
}

// fold is letter case folding of ASCII text.
func fold(s string) string {
	b := make([]byte, len(s))
	for i := 0; i < len(s); i++ {
		c := s[i]
		b[i] = byte(sym.IteInt(sym.And(c >= 'A', c <= 'Z'), int64(c)+32, int64(c)))
	}
	return sym.BytesString(b...)
}

// same is the reference relation on data; mode 0 eq, 1 eql, 2 equal, 3 equalp.
func same(mode int, a, b l.Node) bool {
	switch x := a.(type) {
	case l.Integer:
		switch y := b.(type) {
		case l.Integer:
			return x == y
		case l.Float:
			return mode == 3 && float64(x) == float64(y)
		}
		return false
	case l.Float:
		switch y := b.(type) {
		case l.Float:
			return x == y
		case l.Integer:
			return mode == 3 && float64(x) == float64(y)
		}
		return false
	case l.Rune:
		y, ok := b.(l.Rune)
		if !ok {
			return false
		}
		return x == y || mode == 3 && lower(x) == lower(y)
	case l.String:
		y, ok := b.(l.String)
		if !ok {
			return false
		}
		if mode == 3 {
			return fold(string(x)) == fold(string(y))
		}
		return x == y
	case *l.Cons:
		y, ok := b.(*l.Cons)
		if !ok || mode < 2 {
			return ok && x == y
		}
		return same(mode, x.Car, y.Car) && same(mode, x.Cdr, y.Cdr)
	case *l.Array:
		y, ok := b.(*l.Array)
		if !ok || mode < 2 {
			return ok && x == y
		}
		dx, _ := call("array-dimensions", x)
		dy, _ := call("array-dimensions", y)
		if !sameList(dx, dy) {
			return false
		}
		for i := 0; i < arrayLen(dx); i++ {
			ex, err := call("aref", append([]l.Node{x}, index(dx, i)...)...)
			sym.Assert(err == nil, "element")
			ey, err := call("aref", append([]l.Node{y}, index(dx, i)...)...)
			sym.Assert(err == nil, "element")
			if !same(mode, ex, ey) {
				return false
			}
		}
		return true
	}
	return a == b
}

func lower(r l.Rune) l.Rune {
	return l.Rune(sym.IteInt(sym.And(r >= 'A', r <= 'Z'), int64(r)+32, int64(r)))
}

func arrayLen(dims l.Node) int {
	n := 1
	for c, ok := dims.(*l.Cons); ok; c, ok = c.Cdr.(*l.Cons) {
		n *= int(c.Car.(l.Integer))
	}
	return n
}

// index is the i-th index tuple in row-major order.
func index(dims l.Node, i int) []l.Node {
	var d []int
	for c, ok := dims.(*l.Cons); ok; c, ok = c.Cdr.(*l.Cons) {
		d = append(d, int(c.Car.(l.Integer)))
	}
	r := make([]l.Node, len(d))
	for k := len(d) - 1; k >= 0; k-- {
		r[k] = l.Integer(i % d[k])
		i /= d[k]
	}
	return r
}

// datum is an arbitrary atom: any 64-bit integer, any non-NaN float, an ASCII character, an ASCII string of
// up to two bytes, a symbol, a keyword, nil or t.
func datum(label string) l.Node {
	switch sym.Choice(label+"kind", 8) {
	case 0:
		return l.Integer(sym.Int64(label))
	case 1:
		f := sym.Float64(label)
		sym.Assume(f == f)
		return l.Float(f)
	case 2:
		c := sym.Int32(label)
		sym.Assume(sym.And(c >= 0, c < 0x80))
		return l.Rune(c)
	case 3:
		s := text(label, sym.Choice(label+"n", 3), "")
		for i := 0; i < len(s); i++ {
			sym.Assume(s[i] < 0x80)
		}
		return l.String(s)
	case 4:
		return S([]string{"a", "A", "b", "nil ", ":a"}[sym.Choice(label+"sym", 5)])
	case 5:
		x, err := readOne([]string{":a", ":b", "9223372036854775808", "9223372036854775809"}[sym.Choice(label+"key", 4)])
		sym.Assert(err == nil, "readable")
		return x
	case 6:
		return l.Null
	}
	return l.True
}

// D01_Atoms: all four predicates on every pair of atoms.
func D01_Atoms() {
	a, b := datum("a"), datum("b")
	mode := sym.Choice("pred", 4)
	if _, big := a.(l.BigInt); big && mode == 0 {
		return // eq of big integers is unspecified
	}
	_, ba := a.(l.BigInt)
	_, bb := b.(l.BigInt)
	want := same(mode, a, b)
	if ba && bb {
		want = a.String() == b.String()
	} else if ba || bb {
		want = false
	}
	sym.Assert(rel(preds[mode], a, b) == want, preds[mode]+" is not the reference relation")
	sym.Assert(rel(preds[mode], b, a) == want, preds[mode]+" is not symmetric")
}

// D01_Transitive: transitivity on arbitrary atoms; equalp on integers that a float represents exactly.
func D01_Transitive() {
	num := func(label string) l.Node {
		switch sym.Choice(label+"kind", 3) {
		case 0:
			x := sym.Int64(label)
			sym.Assume(sym.And(x >= -1<<53, x <= 1<<53))
			return l.Integer(x)
		case 1:
			f := sym.Float64(label)
			sym.Assume(f == f)
			return l.Float(f)
		}
		return l.Rune('a' + sym.Choice(label+"c", 2)*('A'-'a'))
	}
	a, b, c := num("a"), num("b"), num("c")
	p := preds[sym.Choice("pred", 4)]
	if rel(p, a, b) && rel(p, b, c) {
		sym.Reach("chain")
		sym.Assert(rel(p, a, c), p+" is not transitive")
	}
}

// twin builds two objects of one shape with leaves drawn independently: shape 0 (x . y), 1 (x y), 2 #(x y),
// 3 #2a((x)(y)), 4 ((x . y)), 5 #((x) "s"), 6 (#(x) . y).
func twin(shape int, x, y l.Node) l.Node {
	mk := func(dims []l.Node, e ...l.Node) l.Node {
		a, err := call("create-array", l.List(dims...), l.Null)
		sym.Assert(err == nil, "create-array")
		for i, v := range e {
			_, err = call("set-aref", append([]l.Node{v, a}, index(l.List(dims...), i)...)...)
			sym.Assert(err == nil, "set-aref")
		}
		return a
	}
	switch shape {
	case 0:
		return &l.Cons{Car: x, Cdr: y}
	case 1:
		return l.List(x, y)
	case 2:
		return mk([]l.Node{l.Integer(2)}, x, y)
	case 3:
		return mk([]l.Node{l.Integer(2), l.Integer(1)}, x, y)
	case 4:
		return l.List(&l.Cons{Car: x, Cdr: y})
	case 5:
		return mk([]l.Node{l.Integer(2)}, l.List(x), y)
	case 6:
		return &l.Cons{Car: mk([]l.Node{l.Integer(1)}, x), Cdr: y}
	}
	return mk([]l.Node{l.Integer(1), l.Integer(2)}, x, y)
}

// smallDatum is an atom whose relations differ between the predicates.
func smallDatum(label string) l.Node {
	switch sym.Choice(label+"kind", 5) {
	case 0:
		return l.Integer(sym.Int64(label))
	case 1:
		f := sym.Float64(label)
		sym.Assume(f == f)
		return l.Float(f)
	case 2:
		s := text(label, 1, "")
		sym.Assume(s[0] < 0x80)
		return l.String(s)
	case 3:
		c := sym.Int32(label)
		sym.Assume(sym.And(c >= 0x20, c < 0x7f))
		return l.Rune(c)
	}
	return l.Null
}

// D01_Structure: structures of eight shapes with arbitrary leaves: every predicate is the reference relation.
func D01_Structure() {
	i, j := sym.Choice("i", 8), sym.Choice("j", 8)
	var a, b l.Node
	if i == j {
		x, y := smallDatum("x"), smallDatum("y")
		x2, y2 := smallDatum("x2"), y
		if sym.Choice("which", 2) == 1 {
			x2, y2 = x, x2
		}
		a, b = twin(i, x, y), twin(j, x2, y2)
	} else {
		x := smallDatum("x")
		a, b = twin(i, x, l.Null), twin(j, x, l.Null)
	}
	mode := sym.Choice("pred", 4)
	sym.Assert(rel(preds[mode], a, b) == same(mode, a, b), preds[mode]+" is not the reference relation")
	sym.Assert(rel(preds[mode], a, a), preds[mode]+" is not reflexive")
	sym.Assert(rel(preds[mode], b, a) == same(mode, a, b), preds[mode]+" is not symmetric")
}

// anything is an object of any kind a program can get hold of; equal i gives distinct but alike objects.
func anything(i int) l.Node {
	src := []string{
		`1`, `1.0`, `"s"`, `#\s`, `'s`, `:s`, `nil`, `t`, `(list 1 2)`, `(list 1 2)`, `(cons 1 2)`, `(vector 1 2)`, `(vector 1 2)`,
		`(create-array '(2 2) 0)`, `(create-array () 1)`, `(create-array () 1)`, `(create-array () 2)`, `(function car)`, `(function cdr)`, `(function list)`, `(function read-char)`, `(lambda (x) x)`, `(lambda (x) x)`,
		`(class <integer>)`, `(class <object>)`, `(class d01c)`, `(create (class d01c) 'x 1 'y nil)`, `(create (class d01c) 'x 1 'y nil)`,
		`(create (class d01c) 'x 1)`, `(create (class d01c) 'y 1)`, `(create (class d01d) 'x 1 'y nil)`,
		`(create-string-input-stream "a")`, `(create-string-input-stream "a")`, `(create-string-output-stream)`, `(create-string-output-stream)`,
		`(standard-input)`, `(standard-output)`, `(error-output)`, `(make-hash-table)`, `(make-hash-table)`, `99999999999999999999`, `99999999999999999999`,
		`(catch 'e (with-handler (lambda (c) (throw 'e c)) (car 1)))`, `(catch 'e (with-handler (lambda (c) (throw 'e c)) (car 2)))`,
		`(catch 'e (with-handler (lambda (c) (throw 'e c)) (/ 1 0)))`, `(catch 'e (with-handler (lambda (c) (throw 'e c)) undefinedvar))`,
		`(catch 'e (with-handler (lambda (c) (throw 'e c)) (undefinedfun)))`, `(catch 'e (with-handler (lambda (c) (throw 'e c)) (error "x")))`,
		`(catch 'e (with-handler (lambda (c) (throw 'e c)) (parse-number "x")))`, `(catch 'e (with-handler (lambda (c) (throw 'e c)) (car)))`,
		`(catch 'e (with-handler (lambda (c) (throw 'e c)) (read-char (create-string-input-stream ""))))`,
		`(catch 'e (with-handler (lambda (c) (throw 'e c)) (close 1)))`,
		`(catch 'e (with-handler (lambda (c) (throw 'e c)) (return-from nowhere 1)))`,
		`(function d01g)`, `(gensym)`, `(list #'car (make-hash-table))`, `(list #'car (make-hash-table))`, `(vector #'car (make-hash-table))`,
		`(vector #'car (make-hash-table))`, `"S"`, `#\S`, `(list "s")`, `(list "S")`, `(vector #\s)`, `(vector #\S)`, `(vector (list 1))`, `(vector (list 1))`,
	}
	if i < 0 {
		return l.Integer(len(src))
	}
	n, err := run(src[i])
	sym.Assert(err == nil, "constructed: "+src[i])
	return n
}

const d01setup = `(defclass d01c () ((x :initarg x) (y :initarg y)))
(defclass d01d () ((x :initarg x) (y :initarg y)))
(defgeneric d01g (x))`

var d01n = int(anything(-1).(l.Integer))

// D01_AnyPair: on any two objects of any kind every predicate answers t or nil, is reflexive and symmetric,
// and the four form the hierarchy.
func D01_AnyPair() {
	_, err := run(d01setup)
	sym.Assert(err == nil, "setup")
	a := anything(sym.Choice("a", d01n))
	b := anything(sym.Choice("b", d01n))
	weaker := true
	for i := 3; i >= 0; i-- {
		r := rel(preds[i], a, b)
		sym.Assert(!r || weaker, preds[i]+" holds but a weaker predicate does not")
		sym.Assert(rel(preds[i], b, a) == r, preds[i]+" is not symmetric")
		weaker = r
	}
	for _, p := range preds {
		sym.Assert(rel(p, a, a), p+" is not reflexive")
	}
	if weaker {
		sym.Assert(printed(a) == printed(b) || a.ClassOf() == b.ClassOf(), "eq objects of different classes")
	}
}

// D01_Instances: equal on two instances holds exactly when the class is the same and each slot is unbound in
// both or holds equal objects.
func D01_Instances() {
	_, err := run(d01setup)
	sym.Assert(err == nil, "setup")
	vals := []string{"", "nil", "1", "1.0", `"a"`, `"A"`, "(list 1)"}
	mk := func(label string) (l.Node, string, string, string) {
		c := []string{"d01c", "d01d"}[sym.Choice(label+"class", 2)]
		x, y := sym.Choice(label+"x", len(vals)), sym.Choice(label+"y", 3)
		src := "(create (class " + c + ")"
		if x > 0 {
			src += " 'x " + vals[x]
		}
		if y > 0 {
			src += " 'y " + vals[y]
		}
		n, err := run(src + ")")
		if err != nil {
			sym.ObserveStr("err", err.Error())
		}
		sym.Assert(err == nil, "created")
		return n, c, vals[x], vals[y]
	}
	a, ca, xa, ya := mk("a")
	b, cb, xb, yb := mk("b")
	sym.Assert(rel("equal", a, b) == (ca == cb && xa == xb && ya == yb), "equal on instances")
	sym.Assert(!rel("eq", a, b) && !rel("eql", a, b), "distinct instances")
	sym.Assert(rel("eq", a, a) && rel("eql", a, a) && rel("equal", a, a) && rel("equalp", a, a), "reflexive")
}

// D01_Many: with several arguments the predicates hold when every further argument is related to the first.
func D01_Many() {
	n := 1 + sym.Choice("n", 4)
	args := make([]l.Node, n)
	for i := range args {
		args[i] = l.Integer(sym.Int64("x"))
		if sym.Choice("float", 2) == 1 {
			args[i] = l.Float(float64(i % 2))
		}
	}
	mode := sym.Choice("pred", 4)
	want := true
	for _, x := range args[1:] {
		if !same(mode, args[0], x) {
			want = false
		}
	}
	sym.ObserveBool("want", want)
	sym.Assert(rel(preds[mode], args...) == want, "several arguments")
}

// D01_Unicode: equalp ignores letter case beyond ASCII, equal does not.
func D01_Unicode() {
	pairs := [][2]rune{{'é', 'É'}, {'ж', 'Ж'}, {'ω', 'Ω'}, {'é', 'e'}, {'あ', 'ア'}, {'ß', 's'}, {'1', '１'}, {'\u0400', '\u0450'}, {'ǆ', 'Ǆ'}}
	i := sym.Choice("pair", len(pairs))
	alike := i < 3 || i > 6
	a, b := pairs[i][0], pairs[i][1]
	sym.Assert(rel("equalp", l.Rune(a), l.Rune(b)) == alike, "characters")
	sym.Assert(rel("equalp", l.String("x"+string(a)), l.String("X"+string(b))) == alike, "strings")
	sym.Assert(!rel("equal", l.Rune(a), l.Rune(b)) && !rel("equal", l.String(a), l.String(b)), "equal")
	sym.Assert(!rel("eql", l.Rune(a), l.Rune(b)) && !rel("eql", l.String(a), l.String(b)), "eql")
}
