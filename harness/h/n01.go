package h

import (
	"fmt"
	"strconv"
	"strings"

	l "github.com/hymkor/gmnlisp"
	"gmnverif/sym"
)

// formatted is the text format makes of a template and arguments.
func formatted(template string, args ...l.Node) string {
	r, err := call("format", append([]l.Node{l.Null, l.String(template)}, args...)...)
	if err != nil {
		sym.ObserveStr("err", err.Error())
	}
	sym.Assert(err == nil, "format fails")
	s, ok := r.(l.String)
	sym.Assert(ok, "format makes a text")
	sym.ObserveStr("text", string(s))
	return string(s)
}

// isNumeral asserts that s is the shortest numeral of x in the base, with letters in upper case.
func isNumeral(s string, x int64, base uint64, what string) {
	neg := len(s) > 0 && s[0] == '-'
	if neg {
		s = s[1:]
	}
	sym.Assert(len(s) > 0, what+": no digits")
	ok := len(s) == 1 || s[0] != '0'
	var v uint64
	for i := 0; i < len(s); i++ {
		c := int64(s[i])
		letter := sym.And(c >= 'A', c <= 'Z')
		d := sym.IteInt(letter, c-'A'+10, c-'0')
		ok = sym.And(ok, sym.Or(letter, sym.And(c >= '0', c <= '9')), d < int64(base))
		v = v*base + uint64(d)
	}
	if neg {
		ok = sym.And(ok, v != 0)
		v = -v
	}
	sym.Assert(sym.And(ok, sym.Iff(neg, x < 0), int64(v) == x), what+": the numeral")
}

var integerDirectives = []struct {
	mark string
	base uint64
}{{"d", 10}, {"b", 2}, {"o", 8}, {"x", 16}, {"D", 10}, {"B", 2}, {"O", 8}, {"X", 16}}

// padded splits what stands between the angle brackets into the padding and the rest; fill is the padding character.
func padded(s string, fill string, width int, what string) string {
	sym.Assert(strings.HasPrefix(s, "<") && strings.HasSuffix(s, ">"), what+": the text around the directive")
	s = s[1 : len(s)-1]
	n := 0
	for strings.HasPrefix(s, fill) {
		s = s[len(fill):]
		n++
	}
	want := width - len(s)
	if want < 0 {
		want = 0
	}
	sym.Assert(n == want, what+": padding")
	return s
}

// N01_Integers: ~d, ~b, ~o and ~x of every 64-bit integer, with and without a width.
func N01_Integers() {
	d := integerDirectives[sym.Choice("directive", len(integerDirectives))]
	x := sym.Int64("x")
	w := []struct {
		text  string
		width int
		fill  string
		args  []l.Node
	}{{"", 0, " ", nil}, {"1", 1, " ", nil}, {"7", 7, " ", nil}, {"23", 23, " ", nil}, {"12,'*", 12, "*", nil}, {"12,'あ", 12, "あ", nil},
		{"v", 9, " ", []l.Node{l.Integer(9)}}, {"v,'_", 9, "_", []l.Node{l.Integer(9)}}, {"#", 3, " ", nil}, {"70", 70, " ", nil}}[sym.Choice("width", 10)]
	s := formatted("<~"+w.text+d.mark+">", append(w.args, l.Integer(x), l.Null, l.Null)...)
	body := padded(s, w.fill, w.width, "~"+w.text+d.mark)
	sym.Assert(body == strings.ToUpper(strconv.FormatInt(x, int(d.base))), "~"+w.text+d.mark+": the numeral")
	if d.base == 16 && w.text == "" {
		isNumeral(body, x, d.base, "~"+d.mark)
	}
}

// N01_Radix: format-integer of every integer in every radix.
func N01_Radix() {
	base := 2 + sym.Choice("radix", 35)
	x := sym.Int64("x")
	r, err := call("format-integer", l.Null, l.Integer(x), l.Integer(int64(base)))
	sym.Assert(err == nil, "format-integer")
	sym.Assert(string(r.(l.String)) == strings.ToUpper(strconv.FormatInt(x, base)), "format-integer")
}

// N01_RadixError: any other radix is an error.
func N01_RadixError() {
	base := sym.Int64("radix")
	sym.Assume(sym.Or(base < 2, base > 36))
	_, err := call("format-integer", l.Null, l.Integer(sym.Int64("x")), l.Integer(base))
	sym.Assert(err != nil, "format-integer accepts any radix")
}

// display is the display form of an object.
func display(n l.Node) string {
	switch x := n.(type) {
	case l.String:
		return string(x)
	case l.Rune:
		return string(rune(x))
	case l.Symbol:
		return x.String()
	case *l.Cons:
		s := "(" + display(x.Car)
		for c, ok := x.Cdr.(*l.Cons); ok; c, ok = c.Cdr.(*l.Cons) {
			s += " " + display(c.Car)
		}
		return s + ")"
	}
	return printed(n)
}

func asciiText(label string, n int) string {
	s := text(label, n, "")
	for i := 0; i < n; i++ {
		sym.Assume(s[i] < 0x80)
	}
	return s
}

// value is an object a directive may print, and the number of characters is what widths count.
func value(label string) l.Node {
	switch sym.Choice(label+"kind", 8) {
	case 0:
		return l.String(asciiText(label, 2))
	case 1:
		c := sym.Int32(label)
		sym.Assume(sym.And(c >= 0, c < 0x80))
		return l.Rune(c)
	case 2:
		return S("sym bol")
	case 3:
		return l.Null
	case 4:
		return &l.Cons{Car: l.String(asciiText(label, 1)), Cdr: &l.Cons{Car: l.Integer(12), Cdr: l.Null}}
	case 5:
		return l.Float(-2.5)
	case 6:
		return l.String("あ\n\"")
	}
	return l.Integer(-70)
}

var objectDirectives = []string{"a", "s", "A", "S"}

// N01_Objects: ~a and ~s of objects of every kind with and without a width.
func N01_Objects() {
	v := value("v")
	d := sym.Choice("directive", len(objectDirectives))
	body := display(v)
	if d%2 == 1 {
		body = printed(v)
	}
	width := sym.Choice("width", 4) * 4
	mark := "~"
	if width > 0 {
		mark += fmt.Sprint(width)
	}
	want := body
	if n := width - len([]rune(body)); n > 0 {
		want += strings.Repeat(" ", n)
	}
	sym.Assert(formatted("<"+mark+objectDirectives[d]+">", v) == "<"+want+">", mark+objectDirectives[d])
}

// piece is one element of a template with the text it stands for; arguments are taken from the list in order.
func piece(label string, arg l.Node) (string, string, bool) {
	switch sym.Choice(label, 9) {
	case 0:
		b := sym.Byte(label)
		sym.Assume(sym.And(b != '~', b < 0x80))
		s := sym.BytesString(b)
		return s, s, false
	case 1:
		return "~~", "~", false
	case 2:
		return "~%", "\n", false
	case 3:
		return "~a", display(arg), true
	case 4:
		return "~S", printed(arg), true
	case 5:
		return "~3%", "\n\n\n", false
	case 6:
		s := utf8Text(label, 4)
		sym.Assume(s != "~")
		return s, s, false
	case 7:
		return "~6a", fmt.Sprintf("%-6s", display(arg)), true
	}
	return "~0%", "", false
}

// N01_Templates: templates of several pieces; every directive takes the next argument.
func N01_Templates() {
	n := tierDepth(3)
	args := []l.Node{l.String("s\""), l.Rune('c'), S("b"), l.Integer(4)}
	var template, want string
	used := 0
	for i := 0; i < n; i++ {
		t, w, uses := piece("piece", args[used])
		template += t
		want += w
		if uses {
			used++
		}
	}
	sym.Assert(formatted(template, args...) == want, "the text of a template")
	sym.Assert(formatted(template, args[:used]...) == want, "the text of a template with exactly the arguments it uses")
	if used > 0 {
		_, err := call("format", append([]l.Node{l.Null, l.String(template)}, args[:used-1]...)...)
		sym.Assert(err != nil, "a missing argument is not an error")
	}
}

// N01_Unknown: any other character after a tilde is an error.
func N01_Unknown() {
	s := utf8Text("directive", 3)
	sym.Assume(!strings.Contains("aAsSdDbBoOxXfFeEgG%&~'vV#0123456789", s))
	_, err := call("format", l.Null, l.String("x~"+s), l.Integer(1), l.Integer(2))
	sym.Assert(err != nil, "an unknown directive is not an error")
}

// N01_Parameters: numbers, characters, v and # as the parameters of a directive, and directives cut off at any place.
func N01_Parameters() {
	width, fill := 0, " "
	var args []l.Node
	directive := "~"
	first := sym.Choice("first", 6)
	start, begun := ".", "."
	if first >= 3 && first <= 4 && sym.Bool("used") {
		start, begun = ".~a~s", ".1nil"
		args = append(args, l.Integer(1), l.Null)
	}
	used := len(args)
	switch first {
	case 1:
		width = 3
		directive += "3"
	case 2:
		width = 12
		directive += "12"
	case 3:
		width = int(smallInt("v", -2, 9))
		directive += []string{"v", "V"}[sym.Choice("case", 2)]
		args = append(args, l.Integer(width))
	case 4:
		directive += "#"
	case 5:
		directive += "007"
		width = 7
	}
	mark := sym.Choice("mark", 6)
	if first > 0 && mark < 2 {
		switch sym.Choice("second", 5) {
		case 1:
			directive += ",'*"
			fill = "*"
		case 2:
			directive += ",'あ"
			fill = "あ"
		case 3:
			directive += ",v"
			args = append(args, l.Integer('~'))
			fill = "~"
		case 4:
			directive += ",48"
			fill = "0"
		}
	}
	x := smallInt("x", -3, 12)
	args = append(args, l.Integer(x), l.String("rest"), l.Null)
	if first == 4 {
		width = len(args) - used
	}
	body := fmt.Sprint(x)
	pad := ""
	for i := len(body); i < width; i++ {
		pad += fill
	}
	want := ""
	switch mark {
	case 0, 1:
		want = pad + body
	case 2, 3:
		want = body + pad
	default:
		if first == 0 {
			width = 1
		}
		want = strings.Repeat("\n", max0(width))
	}
	directive += []string{"d", "D", "a", "S", "%", "&"}[mark]
	sym.Assert(formatted(start+directive+"<", args...) == begun+want+"<", directive)
	cut := 2 + sym.Choice("cut", len(directive)-1)
	if cut < len(directive) {
		_, err := call("format", append([]l.Node{l.Null, l.String(start + directive[:cut])}, args...)...)
		sym.Assert(err != nil, "an unfinished directive is an error")
	}
}

func max0(n int) int {
	if n < 0 {
		return 0
	}
	return n
}

// smallInt is a symbolic integer from lo to hi which each path fixes.
func smallInt(label string, lo, hi int64) int64 {
	x := sym.Int64(label)
	sym.Assume(sym.And(x >= lo, x <= hi))
	return int64(sym.Concrete(int(x)))
}

// N01_Mismatch: integer directives reject objects which are no numbers.
func N01_Mismatch() {
	d := integerDirectives[sym.Choice("directive", len(integerDirectives))]
	v := []l.Node{l.String("1"), l.Rune('1'), S("a"), l.Null, &l.Cons{Car: l.Integer(1), Cdr: l.Null}}[sym.Choice("object", 5)]
	_, err := call("format", l.Null, l.String("~"+d.mark), v)
	sym.Assert(err != nil, "~"+d.mark+" accepts an object")
	_, err = call("format-integer", l.Null, v, l.Integer(10))
	sym.Assert(err != nil, "format-integer accepts an object")
	_, err = call("format-char", l.Null, v)
	sym.Assert((err == nil) == (v == l.Node(l.Rune('1'))), "format-char accepts an object")
	_, err = call("format-float", l.Null, v)
	sym.Assert(err != nil, "format-float accepts an object")
	_, err = call("format", l.Null, v, l.Integer(1))
	sym.Assert((err == nil) == (v == l.Node(l.String("1"))), "the template is a string")
	_, err = call("format", l.Integer(3), l.String("a"))
	sym.Assert(err != nil, "the destination is a stream, t or nil")
}

// N01_Floats: chosen floats.
func N01_Floats() {
	c := []struct{ template, value, want string }{
		{"~f", "1.5", "1.5"}, {"~f", "-0.25", "-0.25"}, {"~f", "100.0", "100"}, {"~e", "1234.5", "1.2345e+03"}, {"~g", "1e300", "1e+300"}, {"~g", "0.5", "0.5"}, {"~7f", "1.5", "    1.5"},
		{"~8,2f", "1.256", "    1.26"}, {"~2f", "1.5", "1.5"}, {"~3,3f", "1.5", "1.500"}, {"~f", "3", "3"}, {"~F", "0.1", "0.1"}, {"~vf", "4 1.5", " 1.5"}, {"~v,vf", "6 1 1.25", "   1.2"},
		{"~1,0f", "0.5", "0"}, {"~f~d", "0.5 7", "0.57"},
	}[sym.Choice("case", 16)]
	r, err := run(fmt.Sprintf("(format nil %q %s)", c.template, c.value))
	sym.Assert(err == nil && r == l.Node(l.String(c.want)), c.template)
	if c.template == "~f" {
		r, err := run(fmt.Sprintf("(format-float nil %s)", c.value))
		sym.Assert(err == nil && r == l.Node(l.String(c.want)), "format-float")
	}
}

// N01_Functions: format-object, format-char, format-integer and format-float do the work of the directives.
func N01_Functions() {
	v := value("v")
	r, err := call("format-object", l.Null, v, l.Null)
	sym.Assert(err == nil && string(r.(l.String)) == display(v), "format-object as ~a")
	r, err = call("format-object", l.Null, v, l.True)
	sym.Assert(err == nil && string(r.(l.String)) == printed(v), "format-object as ~s")
	if c, ok := v.(l.Rune); ok {
		r, err = call("format-char", l.Null, c)
		sym.Assert(err == nil && string(r.(l.String)) == string(rune(c)), "format-char")
	}
}

// N01_Destinations: what is written goes to the destination and nowhere else, in the order of the calls.
func N01_Destinations() {
	stdout, errout := &sink{}, &sink{}
	W.SetStdout(stdout)
	W.SetErrout(errout)
	s1, s2 := okCall("create-string-output-stream"), okCall("create-string-output-stream")
	want := []string{"", "", "", ""}
	for i := 0; i < tierDepth(3); i++ {
		to := sym.Choice("to", 6)
		dest := []l.Node{s1, s2, l.True, okCall("standard-output"), okCall("error-output"), l.Null}[to]
		b := text("b", 1, "")
		var err error
		var w string
		switch sym.Choice("how", 4) {
		case 0:
			_, err = call("format", dest, l.String("[~a]~%"), l.String(b))
			w = "[" + b + "]\n"
		case 1:
			_, err = call("format-object", dest, l.String(b), l.Null)
			w = b
		case 2:
			_, err = call("format-integer", dest, l.Integer(255), l.Integer(16))
			w = "FF"
		case 3:
			_, err = call("format-char", dest, l.Rune('c'))
			w = "c"
		}
		sym.Assert(err == nil, "written")
		if to < 5 {
			want[[]int{0, 1, 2, 2, 3}[to]] += w
		}
	}
	for i, s := range []l.Node{s1, s2} {
		got, err := call("get-output-stream-string", s)
		sym.Assert(err == nil && string(got.(l.String)) == want[i], "the text of a string stream")
	}
	sym.Assert(string(stdout.b) == want[2], "the standard output")
	sym.Assert(string(errout.b) == want[3], "the error output")
}

// N01_FreshLine: ~& writes a newline unless the output is at the start of a line.
func N01_FreshLine() {
	stdout := &sink{}
	W.SetStdout(stdout)
	var dest l.Node
	kind := sym.Choice("destination", 3)
	switch kind {
	case 0:
		dest = l.True
	case 1:
		dest = okCall("standard-output")
	case 2:
		dest = okCall("create-string-output-stream")
	}
	want := ""
	for i := 0; i < 3; i++ {
		b := sym.Byte("b")
		sym.Assume(sym.And(b != '~', b < 0x80))
		n := sym.Choice("count", 3)
		t := []string{"~&", "~2&", "~0&"}[n]
		before := sym.Choice("before", 2) == 1
		if before {
			_, err := call("format", dest, l.String(sym.BytesString(b)+t))
			sym.Assert(err == nil, "written")
			want += sym.BytesString(b)
		} else {
			_, err := call("format", dest, l.String(t))
			sym.Assert(err == nil, "written")
		}
		m := []int{1, 2, 0}[n]
		if want == "" || want[len(want)-1] == '\n' {
			m--
		}
		for ; m > 0; m-- {
			want += "\n"
		}
	}
	if kind == 2 {
		got, err := call("get-output-stream-string", dest)
		sym.Assert(err == nil && string(got.(l.String)) == want, "the text of a string stream")
	} else {
		sym.Assert(string(stdout.b) == want, "the standard output")
	}
}
