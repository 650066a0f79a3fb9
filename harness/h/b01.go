package h

import (
	"math"
	"strings"

	l "github.com/hymkor/gmnlisp"
	"gmnverif/sym"
)

// operators are the names of the functions, special operators and macros of a new World, but for those which read
// the clock, dump the session or repeat for ever.
var operators = strings.Fields(`* + - / /= < <= = > >= abort and append apply aref arithmetic-error-operands arithmetic-error-operation array-dimensions assoc assure atom basic-array*-p basic-array-p block car case catch cdr ceiling char-index char/= char< char<= char= char> char>= characterp class class-of close clrhash cond cons consp continue-condition convert create create-array create-list create-string create-string-input-stream create-string-output-stream defclass defconstant defdynamic defgeneric defglobal defmacro defmethod defun domain-error-expected-class domain-error-object dynamic dynamic-let elt eq eql equal equalp error-output eval evenp exit expand-defun file-length flet floatp floor format format-char format-float format-integer format-object funcall function functionp general-array*-p generic-function-p gensym get-output-stream-string gethash go hash-table-count if ignore-errors instancep integerp internal-time-units-per-second labels lambda lambda-macro last length let let* list listp load macroexpand make-hash-table mapc mapcan mapcar mapcon mapl maplist member minusp mod not nreverse null numberp oddp open-input-file open-output-file or parse-number plusp probe-file progn psetq quasiquote quit quote read read-char read-line rem remhash rest return return-from reverse round set-aref set-car set-cdr set-gethash setq signal-condition sqrt standard-input standard-output string-append string-index string/= string< string<= string= string> string>= stringp subclassp subseq symbolp tagbody the throw trace truncate undefined-entity-name undefined-entity-namespace unwind-protect vector with-handler with-open-input-file with-open-output-file with-standard-input zerop 1+ 1- caar cadddr caddr cadr case-using cdddr cddr cerror decf dolist dotimes error first for incf max min nth nthcdr prog1 prog2 rest second set-assoc set-cadddr set-caddr set-cadr set-cdddr set-cddr set-dynamic set-elt set-nth set-nthcdr set-setq set-subseq setf swap-elt swap-subseq third unless when property set-property remove-property simple-error-format-string simple-error-format-arguments report-condition `)

// exhausting are those which make an object, or repeat, as often as an argument says.
const exhausting = " create-list create-string create-array dotimes for while nth nthcdr set-nth set-nthcdr "

// crash evaluates the form and everything that can be asked of what it returns and of the objects in it.
func crash(op string, form l.Node, objects ...l.Node) {
	if strings.Contains(op, "open-output-file") {
		for _, x := range objects {
			if _, ok := x.(l.String); ok {
				return // makes a file
			}
		}
	}
	r, err := W.InterpretNodes(ctx, []l.Node{form})
	for _, x := range objects {
		if y, err := call("aref", x); err == nil && x == y {
			return // an array that is its own element has no text
		}
	}
	if err != nil {
		sym.Assert(r == nil || err.Error() != "", "an error without text")
		if n, ok := err.(l.Node); ok {
			touch(n)
		}
	} else {
		sym.Assert(r != nil, "no value and no error")
		touch(r)
	}
	for _, x := range objects {
		printed(x)
	}
	_, err = call("car", l.List(l.True))
	sym.Assert(err == nil, "the interpreter afterwards")
}

func touch(n l.Node) {
	printed(n)
	_, err := call("format", l.Null, l.String("~a"), n)
	sym.Assert(err == nil, "displayed")
	sym.Assert(rel("equal", n, n), "an object equals itself")
	okCall("class-of", n)
	call("length", n)
}

func form(op string, args []l.Node, wrap func(l.Node) l.Node) l.Node {
	var list l.Node = l.Null
	for i := len(args) - 1; i >= 0; i-- {
		list = &l.Cons{Car: wrap(args[i]), Cdr: list}
	}
	return &l.Cons{Car: S(op), Cdr: list}
}

func raw(n l.Node) l.Node { return n }

func operator() string { return operators[sym.Choice("operator", len(operators))] }

// B01_One: every operator applied to one object of every kind, or to none.
func B01_One() {
	op := operator()
	_, err := run(d01setup)
	sym.Assert(err == nil, "setup")
	i := sym.Choice("object", d01n+1)
	if i == d01n {
		crash(op, form(op, nil, quote))
		return
	}
	o := anything(i)
	crash(op, form(op, []l.Node{o}, quote), o)
}

// most is n, or with more time the number of all operands.
func most(n int) int {
	if sym.Thorough() {
		return 22
	}
	return n
}

// operand is an object of the kinds which matter together with others.
func operand(label string, kinds int) l.Node {
	switch sym.Choice(label, kinds) {
	case 0:
		i := sym.Int64(label)
		sym.Assume(sym.And(i >= -2, i <= 3))
		return l.Integer(i)
	case 1:
		return l.List(l.Integer(1), S("b"))
	case 2:
		return l.String("ab")
	case 3:
		return l.Null
	case 4:
		return S("a")
	case 5:
		return okCall("vector", l.Integer(1), l.Rune('b'))
	case 6:
		f, err := run("#'list")
		sym.Assert(err == nil, "function")
		return f
	case 7:
		return l.Rune('b')
	case 8:
		return &l.Cons{Car: l.Integer(1), Cdr: l.Integer(2)}
	case 9:
		return okCall("create-array", ints([]int{2, 1}), l.Integer(0))
	case 10:
		return l.Float(0.5)
	case 11:
		return okCall("make-hash-table")
	case 12:
		return okCall("create-string-output-stream")
	case 13:
		return inputStream("ab 12")
	case 14:
		return class("<integer>")
	case 15:
		return l.List(&l.Cons{Car: S("a"), Cdr: l.Integer(1)}, l.List(S("b"), l.Integer(2)))
	case 16:
		return l.String("")
	case 17:
		return okCall("create-array", l.Null, l.Integer(0))
	case 18:
		f, err := run("(lambda (x) x)")
		sym.Assert(err == nil, "function")
		return f
	case 19:
		return okCall("vector")
	case 20:
		return l.NewKeyword(":k")
	}
	return l.True
}

// B01_Two: every operator applied to two objects.
func B01_Two() {
	op := operator()
	a, b := operand("a", most(16)), operand("b", most(16))
	crash(op, form(op, []l.Node{a, b}, quote), a, b)
}

// B01_Three: every operator applied to three objects.
func B01_Three() {
	op := operator()
	k := 6
	if sym.Thorough() {
		k = 10
	}
	a, b, c := operand("a", k), operand("b", k), operand("c", k)
	crash(op, form(op, []l.Node{a, b, c}, quote), a, b, c)
}

// B01_Four: every operator applied to four and five objects.
func B01_Four() {
	op := operator()
	a, b, c, d := operand("a", tierDepth(2)), operand("b", 2), operand("c", tierDepth(2)), operand("d", tierDepth(2))
	if sym.Choice("more", 2) == 1 {
		crash(op, form(op, []l.Node{a, b, c, d, d}, quote), a, b, c, d)
		return
	}
	crash(op, form(op, []l.Node{a, b, c, d}, quote), a, b, c, d)
}

// B01_Extreme: operators with integers at the bounds of 64 and 32 bits.
func B01_Extreme() {
	op := operator()
	sym.Assume(!strings.Contains(exhausting, " "+op+" "))
	x := l.Integer([]int{math.MaxInt, math.MinInt, 1<<32 + 1, 1 << 31, -1 << 31, math.MaxInt - 1}[sym.Choice("integer", tierDepth(3))])
	args := []l.Node{x}
	place := sym.Choice("place", 7)
	if place > 0 && place < 3 || place > 3 {
		args = append(args, operand("a", most(5)))
	}
	switch place {
	case 2:
		args = []l.Node{args[1], x}
	case 3:
		args = append(args, x)
	case 4:
		args = []l.Node{args[1], operand("b", 2), x}
	case 5:
		args = []l.Node{args[1], x, operand("b", 2)}
	case 6:
		args = []l.Node{args[1], x, x}
	}
	crash(op, form(op, args, quote), args...)
}

var rawForms = []string{
	"a", "5", "\"s\"", "nil", "(a)", "((a 1))", "(list 1 2)", "(lambda (x) x)", "(a . 1)", "((a . 1))", "(1 2)", "'a", "#'car", ":k", "(nil)", "((1 2))", "((a 1 2))", "(&rest)",
	"(a &rest)", "(a &rest b c)", "((a 1) b)", "#(1 2)", "(quote)", "(a (b) c)", "((a <integer>))", "(((a) b))", "t", "(t 1)", "((t) 1)", "((5) 1)", "<integer>", "(<integer>)", "(throw 'x 1)", "(car 5)",
}

func rawForm(label string, n int) l.Node {
	x, err := readOne(rawForms[sym.Choice(label, n)])
	sym.Assert(err == nil, "read")
	return x
}

// B01_Forms: every operator with up to three operands which are any forms.
func B01_Forms() {
	op := operator()
	var args []l.Node
	switch sym.Choice("operands", 3) {
	case 0:
		args = []l.Node{rawForm("a", len(rawForms))}
	case 1:
		args = []l.Node{rawForm("a", len(rawForms)), rawForm("b", most(8))}
	case 2:
		args = []l.Node{rawForm("a", most(4)), rawForm("b", most(4)), rawForm("c", most(4))}
	}
	crash(op, form(op, args, raw), args...)
}

// B01_Dotted: calls whose operands are no list.
func B01_Dotted() {
	op := operator()
	var tail l.Node = operand("tail", most(5))
	n := sym.Choice("operands", tierDepth(3))
	for i := 0; i < n; i++ {
		k := []int{8, 4, 1}[i]
		tail = &l.Cons{Car: rawForm("operand", k), Cdr: tail}
	}
	crash(op, &l.Cons{Car: S(op), Cdr: tail})
}

// B01_Operator: forms whose operator is no symbol of an operator.
func B01_Operator() {
	_, err := run(d01setup)
	sym.Assert(err == nil, "setup")
	o := anything(sym.Choice("object", d01n))
	args := []l.Node{rawForm("a", len(rawForms))}[:sym.Choice("operands", 2)]
	f := form("x", args, raw).(*l.Cons)
	f.Car = o
	crash("", f, o)
	crash("", o)
}

// B01_Result: what an operator returns can be used in turn.
func B01_Result() {
	op, next := operator(), operator()
	sym.Assume(!strings.Contains(exhausting, " "+next+" "))
	a := operand("a", tierDepth(2)-1)
	crash(op+next, form(next, []l.Node{form(op, []l.Node{a}, quote)}, raw), a)
}

// B01_Degenerate: every operator applied to an object without elements or dimensions, alone and with another object.
func B01_Degenerate() {
	op := operator()
	var o l.Node
	switch sym.Choice("object", 5) {
	case 0:
		o = okCall("create-array", l.Null, l.Integer(0))
	case 1:
		n, err := readOne("#2a()")
		sym.Assert(err == nil, "an array literal")
		o = n
	case 2:
		o = okCall("vector")
	case 3:
		o = l.String("")
	case 4:
		o = inputStream("")
	}
	args := []l.Node{o}
	if k := sym.Choice("with", 6); k < 4 {
		other := operand("other", 4)
		args = [][]l.Node{{o, other}, {other, o}, {l.Integer(1), o, other}, {l.Integer(1), other, o}}[k]
	} else if k == 4 {
		args = []l.Node{o, o}
	}
	crash(op, form(op, args, quote), args...)
}
