package h

import (
	"fmt"
	"strconv"
	"strings"

	l "github.com/hymkor/gmnlisp"
	"gmnverif/sym"
)

// intern makes the symbol of a name in one of the ways a program can.
func intern(name string) l.Node {
	switch sym.Choice("way", 4) {
	case 1:
		return converted(l.String(name), "<symbol>")
	case 2:
		x, err := readOne("|" + strings.NewReplacer(`\`, `\\`, `|`, `\|`).Replace(name) + "|")
		sym.Assert(err == nil, "read between bars")
		return x
	case 3:
		s := printed(S(name))
		x, err := readOne(s)
		sym.Assert(err == nil, "read as printed")
		return x
	}
	return S(name)
}

// O02_Identity: symbols are the same exactly if their names are, however they are interned.
func O02_Identity() {
	a := text("a", sym.Choice("a length", 3), "aA|\\ 1(")
	b := text("b", sym.Choice("b length", tierDepth(2)), "aA|\\ 1(")
	x, y := intern(a), intern(b)
	for _, p := range preds {
		sym.Assert(rel(p, x, y) == (a == b), "the same symbols exactly for the same names")
	}
	sym.Assert(string(converted(x, "<string>").(l.String)) == a, "the name of the symbol")
	sym.Assert(string(display(x)) == a, "a symbol displays as its name")
	sym.Assert(rel("eq", okCall("class-of", x), class("<symbol>")), "the class of the symbol")
}

// O02_Names: any text is the name of a symbol, which is found again after others are interned.
func O02_Names() {
	name := ""
	if sym.Choice("empty", 2) == 0 {
		name = utf8Text("name", 4) + asciiText("more", sym.Choice("more length", 2))
	}
	x := intern(name)
	for i := 0; i < 3; i++ {
		y := S(name + string(rune('a'+i)))
		sym.Assert(!rel("eq", x, y), "another name is another symbol")
	}
	sym.Assert(rel("eq", intern(name), x), "the symbol again")
	sym.Assert(string(converted(x, "<string>").(l.String)) == name, "its name")
}

// O02_Binding: variables, functions, properties and tags of symbols belong to the symbols of their name alone.
func O02_Binding() {
	a := text("a", 1+sym.Choice("a length", 2), "abAB")
	b := text("b", 1+sym.Choice("b length", 2), "abAB")
	sym.Assume(a != b)
	v, w := sym.Int64("v"), sym.Int64("w")
	src := []string{
		"(let ((" + a + " v) (" + b + " w)) (list " + a + " " + b + "))",
		"(flet ((" + a + " () v) (" + b + " () w)) (list (" + a + ") (" + b + ")))",
		"(progn (defglobal " + a + " v) (defglobal " + b + " 0) (setq " + b + " w) (list " + a + " " + b + "))",
		"(list (block " + a + " (block " + b + " (return-from " + a + " v))) (block " + b + " (block " + a + " (return-from " + b + " w)) w))",
		"(list (catch '" + a + " (catch '" + b + " (throw '" + a + " v))) (catch '" + b + " (catch '" + a + " (throw '" + b + " w)) w))",
		"(progn (set-property v '" + a + " 'p) (set-property w '" + b + " 'p) (list (property '" + a + " 'p) (property '" + b + " 'p)))",
		"(progn (set-property v 'p '" + a + ") (set-property w 'p '" + b + ") (list (property 'p '" + a + ") (property 'p '" + b + ")))",
		"(progn (defdynamic " + a + " v) (defdynamic " + b + " w) (list (dynamic " + a + ") (dynamic " + b + ")))",
		"(let ((h (make-hash-table))) (setf (gethash '" + a + " h) v) (setf (gethash '" + b + " h) w) (list (gethash '" + a + " h) (gethash '" + b + " h)))",
		"(list (case '" + a + " ((" + b + ") w) ((" + a + ") v)) (case '" + b + " ((" + a + ") v) ((" + b + ") w)))",
		"(list (cdr (assoc '" + a + " (list (cons '" + b + " w) (cons '" + a + " v)))) (cdr (assoc '" + b + " (list (cons '" + a + " v) (cons '" + b + " w)))))",
	}
	r, err := run(src[sym.Choice("use", len(src))], "v", l.Integer(v), "w", l.Integer(w))
	if err != nil {
		sym.ObserveStr("err", err.Error())
	}
	sym.Assert(err == nil, "evaluated")
	e := listElems(r)
	sym.Assert(len(e) == 2 && e[0] == l.Node(l.Integer(v)) && e[1] == l.Node(l.Integer(w)), "each symbol has what was given to it")
}

// O02_Gensym: symbols generated and interned in any order, the latter under names the former may have.
func O02_Gensym() {
	first := display(okCall("gensym"))
	digits := first[strings.IndexAny(first, "0123456789"):]
	digits = digits[:strings.IndexByte(digits+"-", '-')]
	base, err := strconv.Atoi(digits)
	sym.Assert(err == nil, "the number of the generated symbol")
	var made, names []l.Node
	n := tierDepth(4)
	for i := 0; i < n; i++ {
		if sym.Choice("op", 2) == 0 {
			g := okCall("gensym")
			sym.Assert(rel("eq", okCall("class-of", g), class("<symbol>")), "a generated symbol is a symbol")
			made = append(made, g)
		} else {
			k := base - 1 + sym.Choice("number", 2*n)
			names = append(names, S(strings.Replace(first, digits, fmt.Sprint(k), 1)))
		}
	}
	for i, g := range made {
		sym.Assert(rel("eq", g, g), "a generated symbol is itself")
		for _, h := range made[:i] {
			sym.Assert(!rel("equal", g, h), "two generated symbols are the same")
		}
		for _, s := range names {
			sym.Assert(!rel("equal", g, s), "a generated symbol is an interned one")
		}
		sym.Assert(!rel("equal", g, S(display(g))), "a generated symbol is the symbol of its name")
	}
}

// O02_Hygiene: variables named by generated symbols are apart from those of the program.
func O02_Hygiene() {
	v, w := sym.Int64("v"), sym.Int64("w")
	_, err := run("(defmacro o02m (form) (let ((g (gensym)) (h (gensym))) `(let ((,g w) (,h 0)) (list ,form ,g ,h))))")
	sym.Assert(err == nil, "defined")
	r, err := run("(let* ((name (gensym))) (eval (list 'let (list (list name 'v) (list 'h 'v)) (list 'o02m (list 'list name 'h)))))", "v", l.Integer(v), "w", l.Integer(w))
	if err != nil {
		sym.ObserveStr("err", err.Error())
	}
	sym.Assert(err == nil, "evaluated")
	e := listElems(r)
	in := listElems(e[0])
	sym.Assert(in[0] == l.Node(l.Integer(v)) && in[1] == l.Node(l.Integer(v)), "the variables of the program")
	sym.Assert(e[1] == l.Node(l.Integer(w)) && e[2] == l.Node(l.Integer(0)), "the variables of the macro")
}
