package h

import (
	"strings"

	l "github.com/hymkor/gmnlisp"
	"gmnverif/sym"
)

// separator is a symbolic layout: one of: a white space byte, two of them, a line comment of up to two
// arbitrary characters, a block comment of up to two arbitrary characters, a nested block comment.
func separator(label string) string {
	ws := func() string { return text(label, 1, " \t\n\r\v\f") }
	switch sym.Choice(label+"k", 6) {
	case 0:
		return ws()
	case 1:
		return ws() + ws()
	case 2:
		c := text(label, 2, "")
		sym.Assume(sym.And(c[0] < 0x80, c[1] < 0x80, c[0] != '\n', c[1] != '\n'))
		return ";" + c + "\n"
	case 3:
		c := text(label, 2, "")
		sym.Assume(sym.And(c[0] < 0x80, c[1] < 0x80))
		sym.Assume(sym.And(c[0] != '|', c[0] != '#', c[1] != '|', c[1] != '#'))
		return "#|" + c + "|#"
	case 4:
		return "#||#"
	}
	c := text(label, 1, "\";|#()'\\ \n")
	sym.Assume(sym.And(c[0] != '|', c[0] != '#'))
	return "#|" + c + "#|" + c + "|#|" + c + "|#"
}

// sameForms compares two readings.
func sameForms(a, b []l.Node) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !deepEqual(a[i], b[i]) {
			return false
		}
	}
	return true
}

// deepEqual is structural equality through the exported accessors only.
func deepEqual(a, b l.Node) bool {
	for {
		ca, oka := a.(*l.Cons)
		cb, okb := b.(*l.Cons)
		if oka != okb {
			return false
		}
		if !oka {
			break
		}
		if !deepEqual(ca.Car, cb.Car) {
			return false
		}
		a, b = ca.Cdr, cb.Cdr
	}
	if aa, ok := a.(*l.Array); ok {
		ab, ok := b.(*l.Array)
		return ok && aa.GoString() == ab.GoString()
	}
	return a.Equals(b, l.EQUAL)
}

var c02Programs = [][]string{
	{"a", "12", "\"x ;y\"", "#\\a"},
	{"(", "a", "\"b\"", ")", "c"},
	{"'", "a", "(", "1", ".", "2", ")"},
	{"#(", "1", "x", ")", "nil", "t"},
	{"#'", "car", "`", "(", ",", "b", ")"},
	{"|p q|", "-7", "1.5", ":k", "&rest"},
	{"#x1F", "#2a(", "(", "1", ")", "(", "2", ")", ")"},
}

// C02_Layout: seven token sequences covering every token kind; a symbolic separator (white space, line,
// block or nested comment with arbitrary ASCII content) after any one token, the other gaps a space.
func C02_Layout() {
	toks := c02Programs[sym.Choice("prog", len(c02Programs))]
	pos := sym.Choice("pos", 9)
	sym.Assume(pos <= len(toks))
	want, err := readAll(strings.Join(toks, " "))
	sym.Assert(err == nil, "plain layout")
	var sb strings.Builder
	for i, t := range toks {
		if i == pos {
			sb.WriteString(separator("s"))
		} else {
			sb.WriteByte(' ')
		}
		sb.WriteString(t)
	}
	if pos == len(toks) {
		sb.WriteString(separator("s"))
	}
	got, err := readAll(sb.String())
	sym.Assert(err == nil, "layout makes the text unreadable")
	sym.Assert(sameForms(got, want), "layout changes the forms")
}

// C02_TokenEnd: the text ab<d>cd for every ASCII byte d: two tokens exactly when d is white space or a
// parenthesis, one when it starts a line comment, otherwise a single symbol.
func C02_TokenEnd() {
	d := sym.Byte("d")
	sym.Assume(d < 0x80)
	sym.Assume(sym.And(d != '"', d != '|', d != '\\', d != 0))
	s := sym.BytesString('a', 'b', d, 'c', 'd')
	forms, err := readAll(s + "\n")
	switch {
	case d == ' ' || d >= 9 && d <= 13:
		sym.Assert(err == nil && len(forms) == 2, "white space ends the token")
		sym.Assert(forms[0] == l.Node(S("ab")) && forms[1] == l.Node(S("cd")), "both tokens")
	case d == '(':
		sym.Assert(err != nil, "an open list")
		forms, err = readAll(s + ")")
		sym.Assert(err == nil && len(forms) == 2 && forms[0] == l.Node(S("ab")), "a parenthesis ends the token")
		sym.Assert(deepEqual(forms[1], l.List(S("cd"))), "the list after the token")
	case d == ')':
		forms, err = readAll("(" + s)
		sym.Assert(err == nil && len(forms) == 2 && forms[1] == l.Node(S("cd")), "a parenthesis ends the token")
		sym.Assert(deepEqual(forms[0], l.List(S("ab"))), "the list before the token")
	case d == ';':
		sym.Assert(err == nil && len(forms) == 1 && forms[0] == l.Node(S("ab")), "a comment ends the token")
	default:
		sym.Assert(err == nil && len(forms) == 1, "one token")
		y, ok := forms[0].(l.Symbol)
		sym.Assert(ok && y.String() == s, "the whole token is the symbol")
	}
}

// C02_CommentEnd: a block comment directly after (and before) a symbol, number, string, list or character.
func C02_CommentEnd() {
	toks := []string{"ab", "12", "\"s\"", "(a)", "#\\x", "|b c|", ":k", "#(1)"}
	t1, t2 := toks[sym.Choice("t1", len(toks))], toks[sym.Choice("t2", len(toks))]
	c := text("c", 1, "")
	sym.Assume(sym.And(c[0] < 0x80, c[0] != '|', c[0] != '#'))
	want, err := readAll(t1 + " " + t2)
	sym.Assert(err == nil && len(want) == 2, "two forms")
	got, err := readAll(t1 + "#|" + c + "|#" + t2)
	sym.Assert(err == nil, "readable")
	sym.Assert(sameForms(got, want), "a comment separates tokens")
}

// C02_StringBody: string literals with up to three (thorough four) units, each an arbitrary ASCII byte other
// than the quote and the backslash, or an escaped quote, or an escaped backslash.
func C02_StringBody() {
	max := 3
	if sym.Thorough() {
		max = 4
	}
	n := sym.Choice("n", max+1)
	var src, want []byte
	src = append(src, '"')
	for i := 0; i < n; i++ {
		switch sym.Choice("unit", 3) {
		case 0:
			b := sym.Byte("b")
			sym.Assume(sym.And(b < 0x80, b != '"', b != '\\'))
			src, want = append(src, b), append(want, b)
		case 1:
			src, want = append(src, '\\', '"'), append(want, '"')
		case 2:
			src, want = append(src, '\\', '\\'), append(want, '\\')
		}
	}
	src = append(src, '"', ' ', '7')
	forms, err := readAll(sym.BytesString(src...))
	sym.Assert(err == nil && len(forms) == 2, "a string and a number")
	s, ok := forms[0].(l.String)
	sym.Assert(ok, "a string")
	sym.Assert(string(s) == sym.BytesString(want...), "the characters of the string")
	sym.Assert(forms[1] == l.Node(l.Integer(7)), "the form after the string")
}

// C02_StringUnicode: string literals and symbols with one arbitrary two- or three-byte UTF-8 character.
func C02_StringUnicode() {
	b0, b1, b2 := sym.Byte("b0"), sym.Byte("b1"), sym.Byte("b2")
	sym.Assume(sym.And(b1 >= 0x80, b1 <= 0xBF, b2 >= 0x80, b2 <= 0xBF))
	var ch string
	if sym.Choice("len", 2) == 0 {
		sym.Assume(sym.And(b0 >= 0xC2, b0 <= 0xDF))
		ch = sym.BytesString(b0, b1)
	} else {
		sym.Assume(sym.And(b0 >= 0xE1, b0 <= 0xEC))
		ch = sym.BytesString(b0, b1, b2)
	}
	forms, err := readAll("(\"a" + ch + "b\")")
	sym.Assert(err == nil && len(forms) == 1, "one form")
	s, ok := forms[0].(*l.Cons).Car.(l.String)
	sym.Assert(ok && string(s) == "a"+ch+"b", "the character is preserved")
}

// C02_Concat: every pair of readable texts of two (thorough three) bytes over ( ) ' # | " ; space a 1 .:
// reading them separated by a newline gives the forms of the first followed by those of the second.
func C02_Concat() {
	n := 2
	if sym.Thorough() {
		n = 3
	}
	const alphabet = "()'#|\"; a1."
	a := text("a", n, alphabet)
	b := text("b", n, alphabet)
	fa, err := readAll(a)
	sym.Assume(err == nil)
	fb, err := readAll(b)
	sym.Assume(err == nil)
	fab, err := readAll(a + "\n" + b)
	sym.Assert(err == nil, "the concatenation is unreadable")
	sym.Assert(sameForms(fab, append(append([]l.Node{}, fa...), fb...)), "the concatenation reads differently")
}

// C02_Sequence: ReadNode called repeatedly on one stream delivers the forms of ReadAll, then the end.
func C02_Sequence() {
	toks := c02Programs[sym.Choice("prog", len(c02Programs))]
	src := strings.Join(toks, " ") + separator("s")
	want, err := readAll(src)
	sym.Assert(err == nil, "readable")
	r := strings.NewReader(src)
	for _, w := range want {
		n, err := l.ReadNode(r)
		sym.Assert(err == nil && deepEqual(n, w), "next form")
	}
	_, err = l.ReadNode(r)
	sym.Assert(err != nil, "end of text")
}

// C02_Nesting: every text of six (thorough eight) pieces out of the block comment opener, its closer, a letter, a bar and
// a hash sign: the comments nest, and what is left outside of them is read.
func C02_Nesting() {
	n := 6
	if sym.Thorough() {
		n = 8
	}
	pieces := []string{"#|", "|#", "a", "| ", " #"}
	src, want, depth := "7 ", 1, 0
	for i := 0; i < n; i++ {
		k := 0
		if i > 0 {
			k = sym.Choice("piece", len(pieces))
		}
		if depth == 0 && k != 0 && k != 2 {
			return // a closer or a bar outside of a comment is another token
		}
		src += pieces[k] + " "
		switch k {
		case 0:
			depth++
		case 1:
			depth--
		case 2:
			if depth == 0 {
				want++
			}
		}
	}
	for ; depth > 1; depth-- {
		src += "|#"
	}
	if depth == 1 {
		_, err := readAll(src)
		sym.Assert(err != nil, "an unfinished comment is accepted")
		src += "|#"
	}
	forms, err := readAll(src + " 8")
	sym.Assert(err == nil && len(forms) == want+1, "forms outside of the comments")
	sym.Assert(forms[0] == l.Node(l.Integer(7)) && forms[want] == l.Node(l.Integer(8)), "the forms before and after")
	for _, f := range forms[1:want] {
		sym.Assert(f == l.Node(S("a")), "a form between comments")
	}
}

// C02_CommentText: a block comment of six (thorough eight) characters, each # | a or space: it ends where the number of
// closers reaches that of the openers, scanned from the left.
func C02_CommentText() {
	n := 6
	if sym.Thorough() {
		n = 8
	}
	var c []byte
	for i := 0; i < n; i++ {
		c = append(c, "#|a "[sym.Choice("char", 4)])
	}
	depth := 1
	for i := 0; i+1 < n; i++ {
		if c[i] == '|' && c[i+1] == '#' {
			depth--
			i++
		} else if c[i] == '#' && c[i+1] == '|' {
			depth++
			i++
		}
		if depth == 0 {
			return // what follows is not part of the comment
		}
	}
	src := "7 #|" + string(c) + " "
	for ; depth > 1; depth-- {
		src += "|#"
	}
	_, err := readAll(src + " 8")
	sym.Assert(err != nil, "an unfinished comment is accepted")
	forms, err := readAll(src + "|# 8")
	sym.Assert(err == nil && len(forms) == 2 && forms[0] == l.Node(l.Integer(7)) && forms[1] == l.Node(l.Integer(8)), "the forms before and after a comment")
}
