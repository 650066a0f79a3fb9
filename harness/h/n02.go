package h

import (
	"errors"
	"fmt"
	"strings"
	"unicode/utf8"

	l "github.com/hymkor/gmnlisp"
	"gmnverif/sym"
)

func inputStream(s string) l.Node { return okCall("create-string-input-stream", l.String(s)) }

// atEnd checks how an operation answers at the end of its input.
func atEnd(op string, s l.Node) {
	switch sym.Choice("at end", 4) {
	case 0:
		_, err := call(op, s)
		isEndOfStream(err, s)
	case 1:
		_, err := call(op, s, l.True, S("e"))
		isEndOfStream(err, s)
	case 2:
		r, err := call(op, s, l.Null)
		sym.Assert(err == nil && r == l.Null, op+": nil at the end")
	case 3:
		v := l.Integer(sym.Int64("eos"))
		r, err := call(op, s, l.Null, v)
		sym.Assert(err == nil && rel("eql", r, v), op+": the value given for the end")
	}
}

func isEndOfStream(err error, s l.Node) {
	sym.Assert(err != nil, "the end of the stream is not signaled")
	var e l.EndOfStream
	sym.Assert(errors.As(err, &e), "an end-of-stream error")
	if s != nil {
		sym.Assert(rel("eq", e.Stream, s), "the stream of the error")
	}
}

// readArgs are the arguments of an operation away from the end of input.
func readArgs(s l.Node) []l.Node {
	return [][]l.Node{{s}, {s, l.Null, S("eof")}, {s, l.True}}[sym.Choice("arguments", 3)]
}

// line is the first line of s without its end, and what follows.
func line(s string) (string, string) {
	i := strings.IndexByte(s, '\n')
	if i < 0 {
		return s, ""
	}
	return strings.TrimSuffix(s[:i], "\r"), s[i+1:]
}

// N02_Chars: read-char and read-line in any order deliver the text of a stream, character by character, then its end.
func N02_Chars() {
	n := sym.Choice("length", tierDepth(4)+1)
	s := text("text", n, "")
	in := inputStream(s)
	other := inputStream("other\n")
	for i := 0; i < 3; i++ {
		if sym.Choice("op", 2) == 0 {
			if s == "" {
				atEnd("read-char", in)
				continue
			}
			r, size := utf8.DecodeRuneInString(s)
			c, err := call("read-char", readArgs(in)...)
			sym.Assert(err == nil, "read-char")
			got, ok := c.(l.Rune)
			sym.Assert(ok && rune(got) == r, "the next character")
			s = s[size:]
		} else {
			if s == "" {
				atEnd("read-line", in)
				continue
			}
			var want string
			want, s = line(s)
			t, err := call("read-line", readArgs(in)...)
			sym.Assert(err == nil, "read-line")
			got, ok := t.(l.String)
			sym.Assert(ok && string(got) == want, "the next line")
		}
	}
	r, err := call("read-line", other)
	sym.Assert(err == nil && r == l.Node(l.String("other")), "another stream")
}

// rest is what is left of a stream.
func rest(in l.Node) string {
	var b strings.Builder
	for {
		c, err := call("read-char", in, l.Null, S("eof"))
		sym.Assert(err == nil, "read-char")
		r, ok := c.(l.Rune)
		if !ok {
			sym.Assert(c == l.Node(S("eof")), "the end")
			return b.String()
		}
		b.WriteRune(rune(r))
	}
}

// N02_Read: read takes exactly one form from the stream: what it takes is the text of that form alone, what follows
// is left for later operations, and after the last form it signals the end again and again.
func N02_Read() {
	s := text("text", tierDepth(4), "a1 ()\n\"'.;")
	in := inputStream(s)
	v, err := call("read", in)
	left := rest(in)
	sym.Assert(strings.HasSuffix(s, left), "the characters left are not those of the text")
	taken := s[:len(s)-len(left)]
	forms, ferr := readAll(taken)
	if err != nil {
		if _, ok := err.(l.EndOfStream); ok {
			all, aerr := readAll(s)
			sym.Assert(aerr == nil && len(all) == 0, "the end is signaled before a form")
			sym.Assert(left == "", "characters left at the end")
		}
		return
	}
	sym.Assert(ferr == nil && len(forms) == 1, "what was read is not one form")
	sym.Assert(deepEqual(forms[0], v), "another form")
	sym.Assert(ends(taken, left), "a token was divided")
}

// ends tells whether a token ends between the two texts.
func ends(a, b string) bool {
	if a == "" || b == "" {
		return true
	}
	return strings.IndexByte(" ()\n\"';", a[len(a)-1]) >= 0 || strings.IndexByte(" ()\n\"';", b[0]) >= 0
}

// N02_ReadEnd: read at the end of a text without forms.
func N02_ReadEnd() {
	in := inputStream([]string{"", " ", "\n ", "; comment", "#| |#", " ;\n"}[sym.Choice("text", 6)])
	atEnd("read", in)
	atEnd("read", in)
	atEnd("read-char", in)
}

// N02_Mixed: forms, characters and lines read from one stream in any order; the forms are separated by one blank.
func N02_Mixed() {
	words := []string{"ab", "(a b)", "\"x y\"", "'q", "12", "#\\c"}
	s := ""
	for i := 0; i < 3; i++ {
		s += words[sym.Choice("word", len(words))] + []string{" ", "\n"}[sym.Choice("separator", 2)]
	}
	in := inputStream(s)
	for i := 0; i < tierDepth(3); i++ {
		if strings.TrimSpace(s) == "" {
			break
		}
		switch sym.Choice("op", 3) {
		case 0:
			t := strings.TrimLeft(s, " \n")
			v, err := call("read", in)
			sym.Assert(err == nil, "read")
			k := formLength(t)
			want, err := readOne(t[:k])
			sym.Assert(err == nil && deepEqual(want, v), "the next form")
			s = t[k:]
		case 1:
			c, err := call("read-char", in)
			sym.Assert(err == nil && c == l.Node(l.Rune(s[0])), "the next character")
			s = s[1:]
		case 2:
			var want string
			want, s = line(s)
			v, err := call("read-line", in)
			sym.Assert(err == nil && v == l.Node(l.String(want)), "the next line")
		}
		if !whole(s) {
			return // the rest begins within a form
		}
	}
	left := rest(in)
	sym.ObserveStr("left", left)
	sym.Assert(left == s, "what is left")
}

func whole(s string) bool {
	_, err := readAll(s)
	return err == nil
}

// formLength is the length of the form at the start of s.
func formLength(s string) int {
	switch s[0] {
	case '(':
		return strings.IndexByte(s, ')') + 1
	case '"':
		return strings.IndexByte(s[1:], '"') + 2
	case '\'':
		return 1 + formLength(s[1:])
	}
	return strings.IndexAny(s+" ", " \n()\"'")
}

var exits = []string{
	"(progn (read-char) 'normal)", "(return-from b (read-char))", "(throw 'c (read-char))", "(car (read-char))", "(undefined-function-here (read-char))",
	"(read)", "(with-handler (lambda (c) (throw 'c (read-char))) (car 5))", "(progn (catch 'd (with-standard-input (create-string-input-stream \"zz\") (throw 'd 1))) (return-from b (read-char)))",
	"(unwind-protect (throw 'c 1) (read-char))", "(ignore-errors (car (read-char)))", "(go end)", "(progn (with-standard-input (create-string-input-stream \"zz\") (read-char)) (read-line))",
}

// N02_Redirect: the standard input is what it was before with-standard-input, however its body is left.
func N02_Redirect() {
	b := sym.Byte("b")
	sym.Assume(sym.And(b >= 'a', b < 'z'))
	e := exits[sym.Choice("exit", len(exits))]
	outer := inputStream("12")
	src := "(catch 'c (block b (tagbody (with-standard-input in (setq n (read-char)) " + e + ") end)))"
	w := "(with-standard-input outer (let ((first (read-char)) (n nil)) (ignore-errors " + src + ") (list first n (read-char) (read-char nil-stream nil 'end) (standard-input))))"
	w = strings.Replace(w, "nil-stream", "outer", 1)
	before := okCall("standard-input")
	r, err := run(w, "outer", outer, "in", inputStream(string(rune(b))+"x y"))
	if err != nil {
		sym.ObserveStr("err", err.Error())
	}
	sym.Assert(err == nil, "evaluated")
	v := listElems(r)
	sym.Assert(v[0] == l.Node(l.Rune('1')), "the outer stream before")
	sym.Assert(rel("eql", v[1], l.Rune(b)), "the stream given")
	sym.Assert(v[2] == l.Node(l.Rune('2')), "the outer stream afterwards")
	sym.Assert(v[3] == l.Node(S("end")), "the end of the outer stream")
	sym.Assert(rel("eq", v[4], outer), "the standard input restored")
	sym.Assert(rel("eq", okCall("standard-input"), before), "the first standard input restored")
}

// N02_Standard: without a stream argument the operations read the standard input, and signal its end.
func N02_Standard() {
	s := text("text", sym.Choice("length", 3), "")
	op := []string{"read-char", "read-line", "read"}[sym.Choice("op", 3)]
	in := inputStream(s)
	var want l.Node
	var werr error
	want, werr = call(op, inputStream(s))
	r, err := run("(with-standard-input in ("+op+"))", "in", in)
	sym.Assert((err == nil) == (werr == nil), "an error for one of two streams")
	if err != nil {
		if errors.As(werr, new(l.EndOfStream)) {
			isEndOfStream(err, nil)
			r, err := run("(with-standard-input in (catch 'k (with-handler (lambda (c) (throw 'k (instancep c (class <end-of-stream>)))) ("+op+"))))", "in", in)
			if err != nil {
				sym.ObserveStr("err", err.Error())
			}
			sym.Assert(err == nil, "the condition of the end")
			sym.Assert(printed(r) == "t", "the condition of the end")
		}
		return
	}
	sym.Assert(deepEqual(r, want), "the value read")
}

// N02_Output: string output streams return what was written since the last retrieval.
func N02_Output() {
	streams := []l.Node{okCall("create-string-output-stream"), okCall("create-string-output-stream")}
	want := []string{"", ""}
	for i := 0; i < tierDepth(3); i++ {
		k := sym.Choice("stream", 2)
		switch sym.Choice("op", 4) {
		case 0:
			c := codePoint(fmt.Sprint("c", i))
			_, err := call("format-char", streams[k], l.Rune(c))
			sym.Assert(err == nil, "written")
			want[k] += string(c)
		case 1:
			s := text(fmt.Sprint("s", i), 2, "")
			_, err := call("format-object", streams[k], l.String(s), l.Null)
			sym.Assert(err == nil, "written")
			want[k] += s
		case 2:
			_, err := call("format", streams[k], l.String("<~d>"), l.Integer(i))
			sym.Assert(err == nil, "written")
			want[k] += fmt.Sprint("<", i, ">")
		case 3:
			r, err := call("get-output-stream-string", streams[k])
			sym.Assert(err == nil && string(r.(l.String)) == want[k], "the text retrieved")
			want[k] = ""
		}
	}
	for k := range streams {
		r, err := call("get-output-stream-string", streams[k])
		sym.Assert(err == nil && string(r.(l.String)) == want[k], "the text at the end")
		r, err = call("get-output-stream-string", streams[k])
		sym.Assert(err == nil && r == l.Node(l.String("")), "text retrieved twice")
	}
}

// N02_Wrong: the operations reject objects which are no streams of their kind.
func N02_Wrong() {
	_, err := run(d01setup)
	sym.Assert(err == nil, "setup")
	o := anything(sym.Choice("object", d01n))
	c := okCall("class-of", o)
	in := rel("eq", c, class("<reader>"))
	out := rel("eq", c, class("<string-builder>"))
	for _, op := range []string{"read-char", "read-line", "read"} {
		if _, ok := o.(l.Node); ok && !in {
			_, err := call(op, o)
			sym.Assert(err != nil, op+" accepts an object")
		}
	}
	_, err = call("get-output-stream-string", o)
	sym.Assert((err == nil) == out, "get-output-stream-string accepts an object")
	_, err = call("create-string-input-stream", o)
	_, isString := o.(l.String)
	sym.Assert((err == nil) == isString, "create-string-input-stream accepts an object")
}
