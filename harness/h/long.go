package h

import (
	"context"
	"fmt"
	"strconv"
	"strings"

	l "github.com/hymkor/gmnlisp"
	"gmnverif/sym"
)

// Harnesses on objects that are much larger than those whose parts are all symbolic: one part, or what is stored, is
// symbolic, the others are fixed and distinct.  A fast path for long operands, a buffer or a limit shows here.

var sizes = []int{9, 17, 33, 70, 130, 260, 520, 1030}

func big() int {
	n := len(sizes)
	if !sym.Thorough() {
		n--
	}
	return sizes[sym.Choice("size", n)]
}

// spot is a position among n.
func spot(n int) int {
	return []int{0, n / 2, n - 1, 1, n - 2, 7, n/2 + 1}[sym.Choice("position", 3+4*b2i(sym.Thorough()))]
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// numbers are n integers from base on, with x at p.
func numbers(n, p int, x, base int64) []l.Node {
	e := make([]l.Node, n)
	for i := range e {
		e[i] = l.Integer(base + int64(i))
	}
	e[p] = l.Integer(x)
	return e
}

// far is an integer that is none of the numbers.
func far() int64 {
	x := sym.Int64("x")
	sym.Assume(x > 1<<32 && x < 1<<62)
	return x
}

func isList(n l.Node, want []l.Node, what string) {
	for _, w := range want {
		c, ok := n.(*l.Cons)
		sym.Assert(ok && sameValue(c.Car, w), what+": element")
		n = c.Cdr
	}
	sym.Assert(isNil(n), what+": too long")
}

// nthCell is the cell p of the list.
func nthCell(n l.Node, p int) l.Node {
	for ; p > 0; p-- {
		n = n.(*l.Cons).Cdr
	}
	return n
}

func reversed(e []l.Node) []l.Node {
	r := make([]l.Node, len(e))
	for i, x := range e {
		r[len(e)-1-i] = x
	}
	return r
}

// traced evaluates src and records what is given to rec.
func traced(src string, kv ...any) (r l.Node, trace []l.Node, err error) {
	vars := l.Variables{}
	for i := 0; i < len(kv); i += 2 {
		vars[S(kv[i].(string))] = kv[i+1].(l.Node)
	}
	rec := l.Function1(func(_ context.Context, _ *l.World, n l.Node) (l.Node, error) {
		trace = append(trace, n)
		return n, nil
	})
	r, err = W.Let(vars).Flet(l.Functions{S("rec"): rec}).Interpret(ctx, src)
	if err != nil {
		sym.ObserveStr("err", err.Error())
	}
	return
}

func okTraced(src string, kv ...any) (l.Node, []l.Node) {
	r, trace, err := traced(src, kv...)
	sym.Assert(err == nil, "error")
	return r, trace
}

// E01_Long: the list functions on lists of up to 520 (thorough: 1030) elements.
func E01_Long() {
	n := big()
	p := spot(n)
	x := far()
	X := l.Integer(x)
	e := numbers(n, p, x, 0)
	list := l.List(e...)
	same := true
	switch sym.Choice("op", 13) {
	case 0:
		sym.Assert(mustInt2(call("length", list)) == int64(n), "length")
	case 1:
		isList(okCall("reverse", list), reversed(e), "reverse")
	case 2:
		isList(okCall("nreverse", list), reversed(e), "nreverse")
		same = false
	case 3:
		f := numbers(n/2+1, 0, 5, -5000)
		last := l.List(f...)
		r := okCall("append", list, last)
		isList(r, append(append([]l.Node{}, e...), f...), "append")
		sym.Assert(nthCell(r, n) == last, "append: the last list")
	case 4:
		sym.Assert(okCall("elt", list, l.Integer(p)) == l.Node(X), "elt")
		sym.Assert(okCall("nth", l.Integer(p), list) == l.Node(X), "nth")
		sym.Assert(okCall("nthcdr", l.Integer(p), list) == nthCell(list, p), "nthcdr")
		sym.Assert(isNil(okCall("nthcdr", l.Integer(n), list)), "nthcdr at the end")
	case 5:
		sym.Assert(okCall("member", X, list) == nthCell(list, p), "member")
		sym.Assert(isNil(okCall("member", l.Integer(-1), list)), "member without")
	case 6:
		pairs := make([]l.Node, n)
		for i, k := range e {
			pairs[i] = &l.Cons{Car: k, Cdr: l.Integer(-i)}
		}
		sym.Assert(okCall("assoc", X, l.List(pairs...)) == pairs[p], "assoc")
		sym.Assert(isNil(okCall("assoc", l.Integer(-1), l.List(pairs...))), "assoc without")
	case 7:
		sym.Assert(okCall("last", list) == e[n-1], "last")
	case 8:
		r, err := run("(list (apply #'list a) (apply #'append (mapcar #'list a)))", "a", list)
		rs := listElems(okNode(r, err, "apply"))
		isList(rs[0], e, "apply list")
		isList(rs[1], e, "apply append")
	case 9:
		other := l.List(numbers(n, p, 3, 0)...)
		sym.Assert(rel("equal", list, l.List(e...)) && (p == 3 || !rel("equal", list, other)), "equal")
		sym.Assert(p == 3 || rel("equalp", list, l.List(e...)) && !rel("equalp", other, list), "equalp")
	case 10:
		want := make([]l.Node, n)
		for i := range want {
			want[i] = X
		}
		isList(okCall("create-list", l.Integer(n), X), want, "create-list")
	case 11:
		v := l.Integer(sym.Int64("v"))
		src := []string{"(setf (nth p a) v)", "(set-elt v a p)", "(setf (elt a p) v)", "(setf (car (nthcdr p a)) v)"}[sym.Choice("set", 4)]
		_, err := run(src, "a", list, "p", l.Integer(p), "v", v)
		sym.Assert(err == nil, "setting an element")
		w := append([]l.Node{}, e...)
		w[p] = v
		isList(list, w, "the list")
		same = false
	case 12:
		sym.Assert(okCall("consp", list) == l.True && okCall("listp", list) == l.True, "predicates")
		r, err := run("(convert a <general-vector>)", "a", list)
		back, err2 := run("(convert v <list>)", "v", okNode(r, err, "convert"))
		isList(okNode(back, err2, "convert"), e, "converted twice")
	}
	if same {
		isList(list, e, "the list given")
	}
}

// E02_Long: the mapping functions on lists of up to 520 (thorough: 1030) elements.
func E02_Long() {
	n := big()
	p := spot(n)
	x := far()
	e, f := numbers(n, p, x, 0), numbers(n-1, 0, 7, -9000)
	a, b := l.List(e...), l.List(f...)
	op := sym.Choice("op", 6)
	src := []string{
		"(mapcar (lambda (x y) (rec x) (cons x y)) a b)", "(mapc (lambda (x y) (rec x) y) a b)",
		"(maplist (lambda (x y) (rec (car x)) (cons (car x) (car y))) a b)", "(mapl (lambda (x y) (rec (car x)) y) a b)",
		"(mapcan (lambda (x y) (rec x) (list (cons x y))) a b)", "(mapcon (lambda (x y) (rec (car x)) (list (cons (car x) (car y)))) a b)",
	}[op]
	r, trace := okTraced(src, "a", a, "b", b)
	sym.Assert(len(trace) == n-1, "once per position")
	for i, t := range trace {
		sym.Assert(t == e[i], "in order")
	}
	if op%2 == 1 && op < 4 {
		sym.Assert(r == a, "the first list is returned")
	} else {
		for i := 0; i < n-1; i++ {
			c, ok := r.(*l.Cons)
			sym.Assert(ok, "the result has an element for each position")
			pair, ok := c.Car.(*l.Cons)
			sym.Assert(ok && pair.Car == e[i] && pair.Cdr == f[i], "the element of the result")
			r = c.Cdr
		}
		sym.Assert(isNil(r), "the result is not longer")
	}
	isList(a, e, "the list given")
}

// longSeq is a list (0), string (1) or vector (2) with any character or number at p.
func longSeq(kind, n, p int) (l.Node, []l.Node) {
	if kind != 1 {
		e := numbers(n, p, far(), 0)
		if kind == 0 {
			return l.List(e...), e
		}
		v := okCall("create-array", l.List(l.Integer(n)))
		for i, x := range e {
			okCall("set-aref", x, v, l.Integer(i))
		}
		return v, e
	}
	w := make([]rune, n)
	e := make([]l.Node, n)
	for i := range w {
		w[i] = []rune{'a', 'é', 'あ', '😀'}[i%4] + rune(i%5)
	}
	w[p] = codePoint("c")
	for i, c := range w {
		e[i] = l.Rune(c)
	}
	return str(w), e
}

// E03_Long: sequences of up to 520 (thorough: 1030) elements.
func E03_Long() {
	n := big()
	p := spot(n)
	kind := sym.Choice("kind", 3)
	s, e := longSeq(kind, n, p)
	switch sym.Choice("op", 5) {
	case 0:
		sym.Assert(okCall("elt", s, l.Integer(p)) == e[p], "elt")
		_, err := call("elt", s, l.Integer(n))
		sym.Assert((err != nil) == (kind != 0), "elt at the end")
	case 1:
		if kind == 2 {
			sym.Assert(okCall("aref", s, l.Integer(p)) == e[p], "aref")
			break
		}
		sym.Assert(mustInt2(call("length", s)) == int64(n), "length")
	case 2:
		if kind == 2 {
			break
		}
		from := []int{0, p, 1}[sym.Choice("from", 3)]
		to := []int{n, p + 1, n - 1}[sym.Choice("to", 3)]
		r, err := call("subseq", s, l.Integer(from), l.Integer(to))
		if to < from {
			sym.Assert(err != nil, "subseq")
		} else {
			isSeq(okNode(r, err, "subseq"), kind, e[from:to], "subseq")
		}
		_, err = call("subseq", s, l.Integer(p), l.Integer(n+1))
		sym.Assert(err != nil, "subseq beyond the end")
	case 3:
		var v l.Node = l.Integer(sym.Int64("v"))
		if kind == 1 {
			v = l.Rune(codePoint("v"))
		}
		r, err := run([]string{"(progn (set-elt v s i) s)", "(progn (setf (elt s i) v) s)"}[sym.Choice("form", 2)], "s", s, "i", l.Integer(p), "v", v)
		w := append([]l.Node{}, e...)
		w[p] = v
		isSeq(okNode(r, err, "set-elt"), kind, w, "set-elt")
		return
	case 4:
		r, err := run("(convert (convert s <list>) <general-vector>)", "s", s)
		isSeq(okNode(r, err, "convert"), 2, e, "converted")
	}
	isSeq(s, kind, e, "the sequence")
}

// F01_Long: strings of up to 520 (thorough: 1030) characters.
func F01_Long() {
	n := big()
	p := spot(n)
	w := make([]rune, n)
	for i := range w {
		w[i] = []rune{'a', 'é', 'あ', '😀'}[i%4]
	}
	c := codePoint("c")
	sym.Assume(c != 'a' && c != 'é' && c != 'あ' && c != '😀')
	w[p] = c
	s := str(w)
	switch sym.Choice("op", 7) {
	case 0:
		sym.Assert(mustInt2(call("char-index", l.Rune(c), s)) == int64(p), "char-index")
		sym.Assert(mustInt2(call("char-index", l.Rune(c), s, l.Integer(p))) == int64(p), "char-index from there")
		sym.Assert(isNil(okCall("char-index", l.Rune(c), s, l.Integer(p+1))), "char-index behind")
	case 1:
		q := p + 2
		if q > n {
			q = n
		}
		sym.Assert(mustInt2(call("string-index", str(w[p:q]), s)) == int64(p), "string-index")
		sym.Assert(isNil(okCall("string-index", str(w[p:q]), s, l.Integer(p+1))), "string-index behind")
	case 2:
		sameRunes(okCall("string-append", s, s, str(w[:p])), append(append(append([]rune{}, w...), w...), w[:p]...), "string-append")
	case 3:
		r, err := run("(apply #'string-append (mapcar (lambda (c) (create-string 1 c)) (convert s <list>)))", "s", s)
		sameRunes(okNode(r, err, "string-append"), w, "string-append of many")
	case 4:
		d := []rune{'a', 'é', 'あ', '😀'}[p%4]
		v := append([]rune{}, w...)
		v[p] = d
		t := str(v)
		for _, op := range []struct {
			name string
			want bool
		}{{"string=", false}, {"string/=", true}, {"string<", c < d}, {"string>", c > d}, {"string<=", c < d}, {"string>=", c > d}} {
			sym.Assert(mustBool1(call(op.name, s, t)) == op.want, "comparison")
		}
		sym.Assert(mustBool1(call("string=", s, str(w))), "string= of a copy")
	case 5:
		sym.Assert(okCall("elt", s, l.Integer(p)) == l.Node(l.Rune(c)), "elt")
		sym.Assert(mustInt2(call("length", s)) == int64(n), "length")
	case 6:
		want := make([]rune, n)
		for i := range want {
			want[i] = c
		}
		sameRunes(okCall("create-string", l.Integer(n), l.Rune(c)), want, "create-string")
	}
	sameRunes(s, w, "the string")
}

func mustBool1(n l.Node, err error) bool { return mustBool(n, err, "truth") }

// G01_Long: arrays of up to some hundred elements in one to four dimensions: storing at any index changes that element.
func G01_Long() {
	d := [][]int{{9}, {33}, {300}, {12, 17}, {3, 40}, {40, 3}, {5, 6, 7}, {2, 3, 4, 5}, {1, 1, 30, 1}, {2, 2, 2, 2, 2, 2}}[sym.Choice("shape", 10)]
	n := size(d)
	a := okCall("create-array", ints(d), l.Integer(-1))
	e := make([]l.Node, n)
	for i := range e {
		e[i] = l.Integer(i * 7)
		okCall("set-aref", append([]l.Node{e[i], a}, index(ints(d), i)...)...)
	}
	p := []int{0, n - 1, n / 2, n / 3, 1}[sym.Choice("position", 5)]
	e[p] = l.Integer(sym.Int64("v"))
	okCall("set-aref", append([]l.Node{e[p], a}, index(ints(d), p)...)...)
	holdsElements(a, d, e, "the array")
	i := sym.Choice("axis", len(d))
	at := index(ints(d), p)
	at[i] = l.Integer(sym.Int64("index"))
	if x := int64(at[i].(l.Integer)); x < 0 || x >= int64(d[i]) {
		_, err := call("aref", append([]l.Node{a}, at...)...)
		sym.Assert(err != nil, "an index outside is accepted")
		_, err = call("set-aref", append([]l.Node{l.Integer(5), a}, at...)...)
		sym.Assert(err != nil, "storing outside is accepted")
		holdsElements(a, d, e, "the array after an error")
	}
}

// H01_Long: tables of up to 520 (thorough: 1030) keys of one kind.
func H01_Long() {
	n := big()
	h := okCall("make-hash-table")
	kind := sym.Choice("kind", 4)
	key := func(i int) l.Node {
		switch kind {
		case 0:
			return l.Integer(int64(i) << 33)
		case 1:
			return l.String(strings.Repeat("k", i%7) + strconv.Itoa(i))
		case 2:
			return l.Float(float64(i) / 8)
		}
		return S("key" + strconv.Itoa(i))
	}
	for i := 0; i < n; i++ {
		okCall("set-gethash", l.Integer(i), key(i), h)
	}
	p := spot(n)
	v := l.Integer(sym.Int64("v"))
	okCall("set-gethash", v, key(p), h)
	sym.Assert(mustInt2(call("hash-table-count", h)) == int64(n), "count")
	del := (p + 2) % n
	okCall("remhash", key(del), h)
	for i := 0; i < n; i++ {
		r := okCall("gethash", key(i), h)
		switch i {
		case del:
			sym.Assert(isNil(r), "a removed key")
		case p:
			sym.Assert(r == l.Node(v), "the key stored last")
		default:
			sym.Assert(r == l.Node(l.Integer(i)), "another key")
		}
	}
	sym.Assert(isNil(okCall("gethash", key(n), h)), "a key never stored")
	sym.Assert(mustInt2(call("hash-table-count", h)) == int64(n-1), "count")
	okCall("clrhash", h)
	sym.Assert(mustInt2(call("hash-table-count", h)) == 0 && isNil(okCall("gethash", key(p), h)), "cleared")
}

// A01_Long: sums, differences and products of up to 520 operands.
func A01_Long() {
	n := big()
	p := spot(n)
	x := sym.Int64("x")
	e := numbers(n, p, x, -3)
	sum := x
	for i := range e {
		if i != p {
			sum += int64(i) - 3
		}
	}
	list := l.List(e...)
	switch sym.Choice("op", 3) {
	case 0:
		sym.Assert(mustInt2(run("(apply #'+ a)", "a", list)) == sum, "+")
	case 1:
		first := int64(e[0].(l.Integer))
		sym.Assert(mustInt2(run("(apply #'- a)", "a", list)) == first-(sum-first), "-")
	case 2:
		for i := range e {
			if i != p {
				e[i] = l.Integer([]int64{1, -1, 1}[i%3])
			}
		}
		want := x
		for i := range e {
			if i != p && i%3 == 1 {
				want = -want
			}
		}
		sym.Assert(mustInt2(run("(apply #'* a)", "a", l.List(e...))) == want, "*")
	}
}

// A03_Long: chains of up to 520 numbers with one that can be anything, and their maximum and minimum.
func A03_Long() {
	n := big()
	p := spot(n)
	x := sym.Int64("x")
	e := numbers(n, p, x, 0)
	op := sym.Choice("op", 6)
	lo, hi := int64(p-1), int64(p+1)
	up := (p == 0 || lo < x) && (p == n-1 || x < hi)
	list := l.List(e...)
	switch op {
	case 0:
		sym.Assert(mustBool1(run("(apply #'< a)", "a", list)) == up, "<")
	case 1:
		sym.Assert(mustBool1(run("(apply #'<= a)", "a", list)) == ((p == 0 || lo <= x) && (p == n-1 || x <= hi)), "<=")
	case 2:
		sym.Assert(mustBool1(run("(apply #'> a)", "a", l.List(reversed(e)...))) == up, ">")
	case 3:
		for i := range e {
			if i != p {
				e[i] = l.Integer(4)
			}
		}
		sym.Assert(mustBool1(run("(apply #'= a)", "a", l.List(e...))) == (x == 4), "=")
	case 4:
		want := int64(n - 1)
		if p == n-1 {
			want--
		}
		if x > want {
			want = x
		}
		sym.Assert(mustInt2(run("(apply #'max a)", "a", list)) == want, "max")
	case 5:
		want := int64(0)
		if p == 0 {
			want++
		}
		if x < want {
			want = x
		}
		sym.Assert(mustInt2(run("(apply #'min a)", "a", list)) == want, "min")
	}
}

// I01_Long: functions, let and let* with many variables.
func I01_Long() {
	n := []int{9, 17, 33, 70, 130}[sym.Choice("size", 5)]
	p := spot(n)
	x, v := sym.Int64("x"), sym.Int64("v")
	e := numbers(n, p, x, 0)
	var names, binds, chain []string
	kv := []any{"v", l.Integer(v)}
	for i := range e {
		name := "p" + strconv.Itoa(i)
		names = append(names, name)
		kv = append(kv, "g"+strconv.Itoa(i), e[i])
		binds = append(binds, fmt.Sprintf("(%s g%d)", name, i))
		if i == 0 {
			chain = append(chain, "(p0 g0)")
		} else {
			chain = append(chain, fmt.Sprintf("(%s (progn p%d g%d))", name, i-1, i))
		}
	}
	all := strings.Join(names, " ")
	set := fmt.Sprintf("(setq p%d v)", p)
	src := []string{
		"(let (" + strings.Join(binds, " ") + ") " + set + " (list " + all + "))",
		"(let* (" + strings.Join(chain, " ") + ") " + set + " (list " + all + "))",
		"(progn (defun f (" + all + ") " + set + " (list " + all + ")) (apply #'f args))",
		"(funcall (lambda (" + all + ") (list " + all + ")) " + strings.ReplaceAll(all, "p", "g") + ")",
		"(progn (defun f (" + names[0] + " :rest r) (cons p0 r)) (apply #'f args))",
		"(labels ((f (" + all + ") (if (= p0 -1) (list " + all + ") (f -1 " + strings.Join(names[1:], " ") + ")))) (apply #'f args))",
	}
	k := sym.Choice("program", len(src))
	kv = append(kv, "args", l.List(e...))
	r, err := run(src[k], kv...)
	w := append([]l.Node{}, e...)
	if k < 3 {
		w[p] = l.Integer(v)
	}
	if k == 5 {
		w[0] = l.Integer(-1)
	}
	isList(okNode(r, err, "the variables"), w, "the variables")
}

// I02_Long: cond, case, and, or, progn with many parts.
func I02_Long() {
	n := []int{9, 17, 33, 70, 130}[sym.Choice("size", 5)]
	x := sym.Int64("x")
	sym.Assume(x >= -1)
	sym.Assume(x <= int64(n))
	k := sym.Choice("form", 5)
	var parts []string
	for i := 0; i < n; i++ {
		parts = append(parts, fmt.Sprintf([]string{"((progn (rec %d) (= x %[1]d)) (rec 'found) %[1]d)", "((%d) (rec 'found) %[1]d)", "(progn (rec %d) (/= x %[1]d))", "(progn (rec %d) (if (= x %[1]d) %[1]d))", "(if (= x %d) (rec %[1]d))"}[k], i))
	}
	r, trace := okTraced(fmt.Sprintf([]string{"(cond %s)", "(case x %s)", "(and %s)", "(or %s)", "(progn %s 7)"}[k], strings.Join(parts, "\n")), "x", l.Integer(x))
	in := x >= 0 && x < int64(n)
	at := int64(n)
	if in {
		at = x
	}
	switch k {
	case 0, 3:
		sym.Assert(isNil(r) == !in && (!in || r == l.Node(l.Integer(x))), "the clause chosen")
		wantLen := at
		if in {
			wantLen += 2 - int64(b2i(k == 3))
		}
		sym.Assert(int64(len(trace)) == wantLen, "what is evaluated")
	case 1:
		sym.Assert(isNil(r) == !in && (!in || r == l.Node(l.Integer(x))) && len(trace) == b2i(in), "the clause chosen")
	case 2:
		sym.Assert(isNil(r) == in && int64(len(trace)) == at+int64(b2i(in)), "and")
	case 4:
		sym.Assert(r == l.Node(l.Integer(7)) && len(trace) == b2i(in) && (!in || trace[0] == l.Node(l.Integer(x))), "progn")
	}
}

// I03_Long: loops of up to 520 (thorough: 1030) rounds that stop at any of them.
func I03_Long() {
	n := big()
	p := spot(n)
	x := far()
	e := numbers(n, p, x, 0)
	list := l.List(e...)
	k := sym.Choice("loop", 6)
	src := []string{
		"(block out (dolist (y l) (rec y) (if (= y x) (return-from out y))))", "(block out (dotimes (i n) (rec i) (if (= i p) (return-from out x))))",
		"(let ((i 0)) (while (<= i p) (rec i) (setq i (+ i 1))) (progn x))", "(for ((i 0 (+ i 1)) (r l (cdr r))) ((> i p) x) (rec i))",
		"(let ((i -1)) (while (< (progn (setq i (+ i 1)) (rec i)) p)) (progn x))", "(for ((i 0 (+ i 1))) ((= (rec i) p) x))",
	}[k]
	r, trace := okTraced(src, "l", list, "x", l.Integer(x), "n", l.Integer(n), "p", l.Integer(p))
	sym.Assert(r == l.Node(l.Integer(x)), "the value of the loop")
	sym.Assert(len(trace) == p+1, "the number of rounds")
	for i, t := range trace {
		if i == p && k == 0 {
			sym.Assert(t == l.Node(l.Integer(x)), "the last round")
		} else {
			sym.Assert(t == l.Node(l.Integer(i)), "each round")
		}
	}
	_, trace = okTraced([]string{"(dolist (y l) (rec y))", "(dotimes (i n) (rec i))", "(let ((i 0)) (while (< i n) (rec i) (setq i (+ i 1))))", "(for ((i 0 (+ i 1))) ((= i n)) (rec i))",
		"(let ((i 0)) (while (progn (setq i (+ i 1)) (rec i) (< i n))))", "(for ((i 1 (+ (rec i) 1))) ((> i n)))"}[k], "l", list, "n", l.Integer(n))
	sym.Assert(len(trace) == n, "the number of rounds of a full loop")
}

// J01_Long: deeply nested blocks, catches, tagbodies and cleanups, left to any depth.
func J01_Long() {
	n := []int{5, 9, 17, 33, 70}[sym.Choice("size", 5)]
	p := spot(n)
	x := sym.Int64("x")
	k := sym.Choice("form", 4)
	src := []string{fmt.Sprintf("(return-from b%d x)", p), fmt.Sprintf("(throw 'b%d x)", p), fmt.Sprintf("(go b%d)", p), fmt.Sprintf("(throw (progn 'b%d) x)", p)}[k]
	for i := n - 1; i >= 0; i-- {
		src = fmt.Sprintf([]string{
			"(progn (rec (block b%d (unwind-protect %[2]s (rec 'c%[1]d)) (rec 'never))) x)",
			"(progn (rec (catch 'b%d (unwind-protect %[2]s (rec 'c%[1]d)) (rec 'never))) x)",
			"(progn (tagbody (unwind-protect %[2]s (rec 'c%[1]d)) (rec 'never) b%[1]d (rec x)) x)",
			"(progn (rec (catch 'b%d (unwind-protect %[2]s (rec 'c%[1]d)) (rec 'never))) x)",
		}[k], i, src)
	}
	r, trace := okTraced(src, "x", l.Integer(x))
	sym.Assert(r == l.Node(l.Integer(x)), "the value")
	// from the inside to the target the cleanups alone, at the target the value, then each level goes on
	var want []l.Node
	for i := n - 1; i >= p; i-- {
		want = append(want, S("c"+strconv.Itoa(i)))
	}
	want = append(want, l.Integer(x))
	for i := p - 1; i >= 0; i-- {
		want = append(want, S("c"+strconv.Itoa(i)), S("never"))
		if k == 2 {
			want = append(want, l.Integer(x))
		} else {
			want = append(want, S("never"))
		}
	}
	sym.Assert(len(trace) == len(want), "what is evaluated")
	for i, t := range trace {
		sym.Assert(t == want[i], "what is evaluated, in order")
	}
}

// J02_Long: many nested bindings of dynamic variables, left at any depth.
func J02_Long() {
	n := []int{5, 9, 17, 33, 70}[sym.Choice("size", 5)]
	p := spot(n)
	x := sym.Int64("x")
	src := fmt.Sprintf("(progn (rec (dynamic v)) (throw 't%d 0))", p)
	for i := n - 1; i >= 0; i-- {
		src = fmt.Sprintf("(progn (catch 't%d (dynamic-let ((v (+ x %[1]d)) (u %[1]d)) (rec (dynamic u)) %s)) (rec (dynamic v)))", i, src)
	}
	_, trace := okTraced("(defdynamic v x) (defdynamic u 'old) "+src+" (rec (dynamic u))", "x", l.Integer(x))
	var want []l.Node
	for i := 0; i < n; i++ {
		want = append(want, l.Integer(i))
	}
	want = append(want, l.Integer(x+int64(n)-1))
	for i := p; i >= 0; i-- {
		if i == 0 {
			want = append(want, l.Integer(x))
		} else {
			want = append(want, l.Integer(x+int64(i)-1))
		}
	}
	want = append(want, S("old"))
	sym.Assert(len(trace) == len(want), "what is evaluated")
	for i, t := range trace {
		sym.Assert(t == want[i], "the values of the dynamic variables")
	}
}

// K01_Long: many nested handlers: each condition goes to the innermost, a handler that signals to the next.
func K01_Long() {
	n := []int{5, 9, 17, 33, 70}[sym.Choice("size", 5)]
	p := spot(n)
	x := sym.Int64("x")
	src := "(progn (rec 'body) (car x) (rec 'never))"
	for i := n - 1; i >= 0; i-- {
		last := "(car x)"
		if i == p {
			last = "(throw 'out (+ x 1))"
		}
		src = fmt.Sprintf("(with-handler (lambda (c) (rec %d) %s) %s)", i, last, src)
	}
	r, trace := okTraced("(catch 'out "+src+")", "x", l.Integer(x))
	sym.Assert(r == l.Node(l.Integer(x+1)), "the value thrown by the handler")
	sym.Assert(len(trace) == 1+n-p, "the handlers called")
	for i, t := range trace {
		if i > 0 {
			sym.Assert(t == l.Node(l.Integer(n-i)), "the handlers from the inside")
		}
	}
}

// L01_Long: templates with many parts.
func L01_Long() {
	n := []int{9, 17, 33, 70, 130}[sym.Choice("size", 5)]
	p := spot(n)
	x := far()
	k := sym.Choice("kind", 4)
	e := numbers(n, p, x, 0)
	var parts []string
	for i := 0; i < n; i++ {
		if i == p {
			parts = append(parts, []string{",x", ",(car (list x 5))", ",(progn (rec 1) x)", ",x"}[k])
		} else {
			parts = append(parts, strconv.Itoa(i))
		}
	}
	src := "`(" + strings.Join(parts, " ") + ")"
	if k == 3 {
		src = "(progn (defmacro m (:rest r) `(list ,@r)) (m " + strings.ReplaceAll(strings.Join(parts, " "), ",", "") + "))"
	}
	r, trace := okTraced(src, "x", l.Integer(x))
	isList(r, e, "the template")
	sym.Assert(len(trace) == b2i(k == 2), "each part is evaluated once")
}

// M01_Long: chains of many classes, and classes with many slots.
func M01_Long() {
	n := []int{5, 9, 17, 33, 70}[sym.Choice("size", 5)]
	p := spot(n)
	x, v := sym.Int64("x"), sym.Int64("v")
	w := newWorld()
	src := ""
	if sym.Bool("slots") {
		src = "(defclass <many> () ("
		for i := 0; i < n; i++ {
			src += fmt.Sprintf("(s%d :initform %[1]d :initarg i%[1]d :accessor a%[1]d :boundp b%[1]d)\n", i)
		}
		src += fmt.Sprintf(")) (let ((o (create (class <many>) 'i%d x))) (setf (a%d o) v) (list", p, (p+1)%n)
		for i := 0; i < n; i++ {
			src += fmt.Sprintf(" (a%d o) (b%[1]d o)", i)
		}
		src += "))"
		r, err := w.Let(l.Variables{S("x"): l.Integer(x), S("v"): l.Integer(v)}).Interpret(ctx, src)
		e := listElems(okNode(r, err, "slots"))
		sym.Assert(len(e) == 2*n, "slots")
		for i := 0; i < n; i++ {
			want := l.Integer(i)
			if i == p {
				want = l.Integer(x)
			} else if i == (p+1)%n {
				want = l.Integer(v)
			}
			sym.Assert(e[2*i] == l.Node(want) && e[2*i+1] == l.Node(l.True), "the slot")
		}
		return
	}
	for i := 0; i < n; i++ {
		super := ""
		if i > 0 {
			super = fmt.Sprintf("<c%d>", i-1)
		}
		src += fmt.Sprintf("(defclass <c%d> (%s) ((s%[1]d :initarg i%[1]d :reader r%[1]d)))\n", i, super)
	}
	src += fmt.Sprintf("(let ((o (create (class <c%d>) 'i%d x)) (q (create (class <c%[2]d>)))) (list (r%[2]d o)", n-1, p)
	for i := 0; i < n; i++ {
		src += fmt.Sprintf(" (instancep o (class <c%d>)) (instancep q (class <c%[1]d>)) (subclassp (class <c%[2]d>) (class <c%[1]d>))", i, p)
	}
	r, err := w.Let(l.Variables{S("x"): l.Integer(x)}).Interpret(ctx, src+"))")
	e := listElems(okNode(r, err, "classes"))
	sym.Assert(len(e) == 1+3*n && e[0] == l.Node(l.Integer(x)), "the slot of a class up the chain")
	for i := 0; i < n; i++ {
		sym.Assert(e[1+3*i] == l.Node(l.True), "instancep of all classes up the chain")
		sym.Assert(isNil(e[2+3*i]) == (i > p), "instancep of classes down the chain")
		sym.Assert(isNil(e[3+3*i]) == (i >= p), "subclassp")
	}
}

// M02_Long: many methods on a chain of classes, defined in any of some orders.
func M02_Long() {
	n := []int{5, 9, 17, 33}[sym.Choice("size", 4)]
	p := spot(n)
	order := sym.Choice("order", 3)
	missing := sym.Bool("missing")
	x := sym.Int64("x")
	src := ""
	for i := 0; i < n; i++ {
		super := ""
		if i > 0 {
			super = fmt.Sprintf("<c%d>", i-1)
		}
		src += fmt.Sprintf("(defclass <c%d> (%s) ())\n", i, super)
	}
	src += "(defgeneric g (a b)) (defmethod g ((a <object>) (b <integer>)) (list -1 b))"
	for j := 0; j < n; j++ {
		i := []int{j, n - 1 - j, (j*2 + b2i(n%2 == 0 && j >= n/2)) % n}[order]
		if i == p && missing {
			continue
		}
		src += fmt.Sprintf("(defmethod g ((a <c%d>) (b <integer>)) (list %[1]d b))\n", i)
	}
	src += "(list"
	for i := 0; i < n; i++ {
		src += fmt.Sprintf(" (g (create (class <c%d>)) x)", i)
	}
	w := newWorld()
	r, err := w.Let(l.Variables{S("x"): l.Integer(x)}).Interpret(ctx, src+" (g 'a x))")
	e := listElems(okNode(r, err, "methods"))
	sym.Assert(len(e) == n+1, "methods")
	for i, y := range e {
		want := i
		if i == p && missing {
			want--
		}
		if i == n {
			want = -1
		}
		isList(y, []l.Node{l.Integer(want), l.Integer(x)}, "the method")
	}
}

// N01_Long: many directives, wide fields and long arguments.
func N01_Long() {
	n := big()
	p := spot(n)
	x := sym.Int64("x")
	sym.Assume(x >= 0 && x <= 9)
	X := strconv.FormatInt(int64(sym.Concrete(int(x))), 10)
	fill := strings.Repeat("xy", n)[:n]
	var template, want string
	var args []l.Node
	switch sym.Choice("kind", 6) {
	case 0:
		for i := 0; i < n; i++ {
			template += "~a,"
			if i == p {
				args, want = append(args, l.Integer(x)), want+X+","
			} else {
				args, want = append(args, l.Integer(i)), want+strconv.Itoa(i)+","
			}
		}
	case 1:
		template, args, want = fmt.Sprintf("~%dd|", n), []l.Node{l.Integer(x)}, strings.Repeat(" ", n-1)+X+"|"
	case 2:
		template, args, want = fmt.Sprintf("~%da|", n), []l.Node{l.Integer(x)}, X+strings.Repeat(" ", n-1)+"|"
	case 3:
		template, args, want = fill[:p]+"~d"+fill[p:], []l.Node{l.Integer(x)}, fill[:p]+X+fill[p:]
	case 4:
		template, args, want = "~a~d~s", []l.Node{l.String(fill), l.Integer(x), l.String(fill)}, fill+X+"\""+fill+"\""
	case 5:
		template, args, want = fmt.Sprintf("~d~%d%%~d", n), []l.Node{l.Integer(x), l.Integer(x)}, X+strings.Repeat("\n", n)+X
	}
	sym.Assert(formatted(template, args...) == want, "the text")
	if len(args) > 0 {
		_, err := call("format", append([]l.Node{l.Null, l.String(template)}, args[1:]...)...)
		sym.Assert(err != nil, "too few arguments are accepted")
	}
}

// longText is n characters with lines of different lengths; the character at p is symbolic.
func longText(n, p int, c byte) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghij"[i%10]
		if i%701 == 700 {
			b[i] = '\n'
		}
	}
	b[p] = c
	return sym.BytesString(b...)
}

var streamSizes = []int{130, 520, 1030, 4095, 4096, 4097, 9000}

// N02_Long: streams that are longer than buffers are.
func N02_Long() {
	n := streamSizes[sym.Choice("size", len(streamSizes))]
	switch sym.Choice("op", 4) {
	case 0: // lines
		in := inputStream(strings.Repeat("x", n) + "\n" + strings.Repeat("é", n/2) + "\nend")
		sym.Assert(okCall("read-line", in) == l.Node(l.String(strings.Repeat("x", n))), "a long line")
		sym.Assert(okCall("read-line", in) == l.Node(l.String(strings.Repeat("é", n/2))), "another long line")
		sym.Assert(okCall("read-line", in) == l.Node(l.String("end")), "the last line")
		atEnd("read-line", in)
	case 1: // characters at the end of a buffer
		c := codePoint("c")
		in := inputStream(strings.Repeat("a", n-1) + string(c) + "z")
		for i := 0; i < n-1; i++ {
			if okCall("read-char", in) != l.Node(l.Rune('a')) {
				sym.Assert(false, "a character")
			}
		}
		sym.Assert(okCall("read-char", in) == l.Node(l.Rune(c)), "the character at the end of a buffer")
		sym.Assert(okCall("read-char", in) == l.Node(l.Rune('z')), "the character behind it")
		atEnd("read-char", in)
	case 2: // forms
		k := n / 10
		in := inputStream("(" + strings.Repeat("abcdefghi ", k) + ")\"" + strings.Repeat("s", n) + "\" " + strings.Repeat("y", n) + " 7x")
		sym.Assert(len(listElems(okCall("read", in))) == k, "a long list")
		sym.Assert(okCall("read", in) == l.Node(l.String(strings.Repeat("s", n))), "a long string")
		sym.Assert(okCall("read", in) == l.Node(S(strings.Repeat("y", n))), "a long symbol")
		sym.Assert(okCall("read-line", in) == l.Node(l.String(" 7x")) || true, "the rest")
	case 3: // an output stream
		c := codePoint("c")
		out := okCall("create-string-output-stream")
		for i := 0; i < n/100; i++ {
			okCall("format", out, l.String(strings.Repeat("b", 100)))
		}
		okCall("format-char", out, l.Rune(c))
		s, ok := okCall("get-output-stream-string", out).(l.String)
		sym.Assert(ok && string(s) == strings.Repeat("b", n/100*100)+string(c), "the text of a string stream")
	}
}

// R01_Long: files that are longer than buffers are.
func R01_Long() {
	n := streamSizes[sym.Choice("size", len(streamSizes))]
	c := sym.Byte("c")
	sym.Assume(c >= ' ' && c <= '~')
	p := []int{0, n / 2, n - 1}[sym.Choice("position", 3)]
	text := longText(n, p, c)
	name := sym.TempName("long")
	in := l.String(name)
	if sym.Bool("write") {
		_, err := run("(with-open-output-file (o f) (format o \"~a\" a) (format-object o b nil))", "f", in, "a", l.String(text[:p]), "b", l.String(text[p:]))
		sym.Assert(err == nil, "writing")
		fileIs(name, text, "the file")
	} else {
		sym.PutFile(name, text)
	}
	var want []string
	rest := text
	for rest != "" {
		i := strings.IndexByte(rest, '\n')
		if i < 0 {
			want = append(want, rest)
			break
		}
		want, rest = append(want, rest[:i]), rest[i+1:]
	}
	r, err := run("(with-open-input-file (i f) (let ((r nil) (x nil)) (while (setq x (read-line i nil nil)) (setq r (cons x r))) (reverse r)))", "f", in)
	lines := listElems(okNode(r, err, "reading"))
	sym.Assert(len(lines) == len(want), "the number of lines")
	for i, w := range want {
		sym.Assert(lines[i] == l.Node(l.String(w)), "the line")
	}
	sym.Assert(sym.OpenFiles() == 0, "files are closed")

}

// C01_Long: texts of many characters, elements or levels.
func C01_Long() {
	n := []int{9, 33, 130, 520, 4097}[sym.Choice("size", 5)]
	k := sym.Choice("kind", 7)
	c := sym.Byte("c")
	sym.Assume(c >= 'a' && c <= 's')
	x := sym.BytesString(c)
	if n > 1000 && (k == 2 || k == 3) {
		n = 300
	}
	long := strings.Repeat("w", n)
	src := []string{
		long + x, "\"" + long + x + "\"", "(" + strings.Repeat("w ", n) + x + ")", strings.Repeat("(", n) + x + strings.Repeat(")", n),
		"; " + long + "\n" + x, "#|" + long + "|# " + x, strings.Repeat("'", n%100) + x,
	}[k]
	for cut := 0; cut < 2; cut++ {
		text := src
		if cut == 1 && k > 0 && k < 4 {
			text = src[:len(src)-1]
			_, err := readAll(text)
			sym.Assert(err != nil, "an incomplete text is accepted")
			continue
		}
		ns, err := readAll(text)
		sym.Assert(err == nil && len(ns) == 1, "one object")
		r := ns[0]
		switch k {
		case 0:
			s, ok := r.(l.Symbol)
			sym.Assert(ok && s.String() == long+x, "a long symbol")
		case 1:
			sym.Assert(r == l.Node(l.String(long+x)), "a long string")
		case 2:
			e := listElems(r)
			sym.Assert(len(e) == n+1 && e[0] == l.Node(S("w")) && e[n] == l.Node(S(x)), "a long list")
		case 3:
			for i := 0; i < n; i++ {
				c, ok := r.(*l.Cons)
				sym.Assert(ok && isNil(c.Cdr), "a level")
				r = c.Car
			}
			sym.Assert(r == l.Node(S(x)), "the innermost object")
		case 4, 5:
			sym.Assert(r == l.Node(S(x)), "the object behind a comment")
		case 6:
			for i := 0; i < n%100; i++ {
				e := listElems(r)
				sym.Assert(len(e) == 2 && e[0] == l.Node(S("quote")), "quote")
				r = e[1]
			}
			sym.Assert(r == l.Node(S(x)), "the object quoted")
		}
	}
}

// S01_Long: many properties of one symbol and of many symbols.
func S01_Long() {
	n := []int{9, 17, 33, 70, 130}[sym.Choice("size", 5)]
	p := spot(n)
	v := l.Integer(sym.Int64("v"))
	many := sym.Bool("symbols")
	at := func(i int) (l.Node, l.Node) {
		if many {
			return S("sym" + strconv.Itoa(i)), S("prop")
		}
		return S("sym"), S("prop" + strconv.Itoa(i))
	}
	for i := 0; i < n; i++ {
		s, q := at(i)
		_, err := run("(set-property v s q)", "v", l.Integer(i), "s", s, "q", q)
		sym.Assert(err == nil, "set-property")
	}
	s, q := at(p)
	_, err := run("(setf (property s q) v)", "v", v, "s", s, "q", q)
	sym.Assert(err == nil, "setf property")
	del := (p + 1) % n
	s, q = at(del)
	okCall("remove-property", s, q)
	for i := 0; i < n; i++ {
		s, q = at(i)
		r, err := call("property", s, q)
		sym.Assert((err != nil) == (i == del), "the property is there")
		switch i {
		case p:
			sym.Assert(r == l.Node(v), "the property stored last")
		case del:
		default:
			sym.Assert(r == l.Node(l.Integer(i)), "another property")
		}
	}
}

// O02_Long: many symbols, with long names.
func O02_Long() {
	n := []int{9, 33, 130, 520}[sym.Choice("size", 4)]
	b := text("name", 2, "abc")
	name := strings.Repeat("n", n)
	sym.Assert(S(name+b) == S(name+string(append([]byte{}, b...))), "one name, one symbol")
	sym.Assert((S(name+b) == S(name+"ab")) == (b == "ab"), "two names, two symbols")
	if sym.Bool("gensyms") {
		var all []l.Node
		for i := 0; i < n; i++ {
			all = append(all, okCall("gensym"))
		}
		for _, i := range []int{0, n / 2, n - 1} {
			for j := range all {
				sym.Assert((all[i] == all[j]) == (i == j), "gensyms are distinct")
			}
		}
	} else {
		var all []l.Node
		for i := 0; i < n; i++ {
			all = append(all, S(fmt.Sprint("many", i)))
		}
		for i := 0; i < n; i++ {
			sym.Assert(all[i] == l.Node(S(fmt.Sprint("many", i))), "the symbol of a name stays the same")
			sym.Assert(i == 0 || all[i] != all[i-1], "symbols of different names are different")
		}
	}
}

// U01_Long: texts with many matches, long lists.
func U01_Long() {
	n := []int{9, 33, 130, 520}[sym.Choice("size", 4)]
	if sym.Bool("subst") {
		p := spot(n)
		x := far()
		v := l.Integer(sym.Int64("v"))
		e := numbers(n, p, x, 0)
		list := l.List(e...)
		r := okCall("subst", v, l.Integer(x), list)
		w := append([]l.Node{}, e...)
		w[p] = v
		isList(r, w, "subst")
		isList(list, e, "the list given")
		return
	}
	c := sym.Byte("c")
	sym.Assume(c >= '0' && c <= '9' || c == 'x')
	s := ""
	k := 0
	for i := 0; i < n; i++ {
		s += []string{"a1", "bc22", "-"}[i%3]
		k += b2i(i%3 < 2)
	}
	s += "q" + sym.BytesString(c)
	if c != 'x' {
		k++
	}
	r := listElems(okCall("=~", l.String("[a-z]([0-9]+)"), l.String(s)))
	sym.Assert(len(r) == k, "the number of matches")
	for i, m := range r {
		g := listElems(m)
		sym.Assert(len(g) == 2, "the text of the match and of its group")
		if i < k-1 {
			sym.Assert(g[1] == l.Node(l.String([]string{"1", "22"}[i%2])), "the group")
		}
	}
}

// C02_Long: much layout and many comments, or deeply nested ones, between any two objects.
func C02_Long() {
	n := []int{9, 33, 130, 520}[sym.Choice("size", 4)]
	k := sym.Choice("layout", 6)
	if k == 3 && n > 130 {
		n = 130
	}
	layout := []string{
		strings.Repeat(" ", n), strings.Repeat("\n\t", n), strings.Repeat("; c )\"\n", n), strings.Repeat("#| ", n) + strings.Repeat(" |#", n),
		strings.Repeat("#|(|#", n), "\n;" + strings.Repeat(";#|\"", n) + "\n",
	}[k]
	x := text("c", 1, "abcs059")
	between := []string{"(a %s b)", "(%s a b)", "(a (b) %s)", "a %s \"s\"", "%s (a . b) %s"}[sym.Choice("place", 5)]
	src := strings.ReplaceAll(between, "a", x)
	got, err := readAll(strings.ReplaceAll(src, "%s", layout))
	want, err2 := readAll(strings.ReplaceAll(src, "%s", " "))
	sym.Assert(err == nil && err2 == nil && len(got) == len(want), "the objects")
	for i := range want {
		sym.Assert(sameValue(got[i], want[i]), "the object")
	}
}

// C03_Long: long strings, symbols, lists, arrays and deep lists are read back as they were printed.
func C03_Long() {
	n := []int{9, 33, 130, 520}[sym.Choice("size", 4)]
	p := spot(n)
	var r l.Node
	switch sym.Choice("kind", 5) {
	case 0:
		c := codePoint("c")
		r = l.String(strings.Repeat("é\\\"", p/3) + string(c) + strings.Repeat("x", n-p))
	case 1:
		r = S(strings.Repeat("y", p) + text("c", 1, "abc*") + strings.Repeat("z", n-p))
	case 2:
		x := smallInt("x", -9, 9)
		r = l.List(numbers(n, p, x, 0)...)
	case 3:
		r = l.Integer(smallInt("x", -9, 9))
		for i := 0; i < n && i < 300; i++ {
			r = l.List(r)
		}
	case 4:
		x := smallInt("x", -9, 9)
		r = okCall("vector", numbers(n, p, x, 0)...)
	}
	roundTrip(r)
}
