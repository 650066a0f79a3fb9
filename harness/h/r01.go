package h

import (
	"strings"

	l "github.com/hymkor/gmnlisp"
	"gmnverif/sym"
)

func fileIs(name, want, what string) {
	got, ok := sym.FileText(name)
	sym.Assert(ok, what+": there is no file")
	sym.ObserveStr("file", got)
	sym.Assert(got == want, what+": the text of the file")
}

// writeOps write x or s to the stream o.
var writeOps = []string{
	"(format o \"~a\" s)", "(format o \"~s,\" s)", "(format o \"~a~%\" x)", "(format-object o x t)", "(format-object o s nil)", "(format-integer o x 10)", "(format-char o c)", "(format-char o #\\newline)", "(format o \"~&\")", "(format o \"-~d~&~a-\" x 'sym)",
}

// R01_Write: any three writing operations leave the same text in a file, once it is closed, as in a string output stream.
func R01_Write() {
	name := sym.TempName("out")
	x := l.Integer(sym.Int64("x"))
	sym.Assume(sym.And(x >= -20, x <= 20))
	b := sym.Byte("s")
	sym.Assume(sym.And(b < 0x80, b != 0))
	kv := []any{"name", l.String(name), "x", x, "s", l.String(sym.BytesString('<', b, '>')), "c", l.Rune(0x3042)}
	body := ""
	for i := 0; i < tierDepth(2); i++ {
		body += writeOps[sym.Choice("op", len(writeOps))]
	}
	want, err := run("(let ((o (create-string-output-stream))) "+body+" (get-output-stream-string o))", kv...)
	sym.Assert(err == nil, "writing to a string stream")
	form := "(let ((o (open-output-file name))) " + body + " (close o))"
	if sym.Choice("with", 2) == 1 {
		form = "(with-open-output-file (o name) " + body + ")"
	}
	_, err = run(form, kv...)
	sym.Assert(err == nil, "writing to a file")
	fileIs(name, string(want.(l.String)), "written")
	sym.Assert(sym.OpenFiles() == 0, "the file is open still")
}

// fileExits leave the form around them; none returns to the block f.
var fileExits = []string{"x", "(throw 'c (list x))", "(return-from b nil)", "(go out)", "(car x)", "(signal-condition 'oops t)", "(throw 'nowhere 1)", "(error \"e\")", "(unwind-protect (throw 'c 1) (rec 'clean))", "(if (< x y) (return-from b 1) (rec 2))"}

const fileFrame = "(list (catch 'c (block b (tagbody (rec (catch 'h (with-handler (lambda (e) (rec 'error) (throw 'h 9)) (%)))) (rec 'end) out (rec 'out)))))"

// R01_Exits: however with-open-output-file and with-open-input-file are left, the exit is the one of their body, what
// was written is in the file, and the files are closed.
func R01_Exits() {
	out, in := sym.TempName("out"), sym.TempName("in")
	sym.PutFile(in, "(text)")
	x, y := l.Integer(sym.Int64("x")), l.Integer(sym.Int64("y"))
	exit := fileExits[sym.Choice("exit", len(fileExits))]
	i := sym.Choice("form", 4)
	form := []string{
		"(with-open-output-file (o out) (format o \"ab\") (rec 1) EXIT)",
		"(with-open-input-file (i in) (rec (car (read i))) EXIT)",
		"(with-open-output-file (o out) (format o \"a\") (with-open-input-file (i in) (format o \"b\") (rec (car (read i))) EXIT))",
		"(with-open-input-file (i in) (with-open-output-file (o out) (rec (car (read i))) (format o \"ab\") EXIT))",
	}[i]
	plain := []string{"(rec 1) EXIT", "(rec 'text) EXIT", "(rec 'text) EXIT", "(rec 'text) EXIT"}[i]
	src := strings.Replace(fileFrame, "%", "progn "+form, 1)
	var t1, t2 []l.Node
	v := l.Variables{S("x"): x, S("y"): y, S("out"): l.String(out), S("in"): l.String(in)}
	r1, err1 := hosted(&t1).Let(v).Interpret(ctx, strings.ReplaceAll(src, "EXIT", exit))
	r2, err2 := hosted(&t2).Let(v).Interpret(ctx, strings.ReplaceAll(strings.Replace(fileFrame, "%", "progn "+plain, 1), "EXIT", exit))
	sym.Assert((err1 == nil) == (err2 == nil), "error or value")
	sym.Assert(err1 != nil || sameValue(r1, r2), "value")
	sym.Assert(sameValue(l.List(t1...), l.List(t2...)), "effects")
	sym.Assert(sym.OpenFiles() == 0, "a file is open after the form")
	if i != 1 {
		fileIs(out, "ab", "after the exit")
	}
}

// R01_Read: reading operations on a file give what they give on a string with the same text.
func R01_Read() {
	name := sym.TempName("in")
	s := text("text", sym.Choice("length", tierDepth(3)+1), "a\n\r(1")
	sym.PutFile(name, s)
	open := "(open-input-file name)"
	ops := ""
	for i := 0; i < 2; i++ {
		ops += []string{"(rec (read-char i nil 'eof))", "(rec (read-line i nil 'eof))", "(rec (read i nil 'eof))", "(rec (read-char i))", "(rec (read-line i))"}[sym.Choice("op", 5)]
	}
	ops += "(rec (read-char i nil 'eof)) (rec (read-line i nil))"
	body := "(catch 'k (with-handler (lambda (c) (rec 'error) (throw 'k (class-of c))) " + ops + "))"
	src := "(let ((i " + open + ")) " + body + " (close i))"
	if sym.Choice("with", 2) == 1 {
		src = "(with-open-input-file (i name) " + body + ")"
	}
	_, err1, t1 := runRec(src, "name", l.String(name))
	_, err2, t2 := runRec("(let ((i (create-string-input-stream s))) "+body+")", "s", l.String(s))
	sym.Assert((err1 == nil) == (err2 == nil), "error or value")
	e, err := call("equal", l.List(t1...), l.List(t2...))
	sym.Assert(err == nil && e == l.True, "what is read from a file and from a string")
	sym.Assert(sym.OpenFiles() == 0, "the file is open still")
	fileIs(name, s, "reading")
}

// R01_Objects: what is written with ~s is read back as an equal object.
func R01_Objects() {
	name := l.String(sym.TempName("data"))
	x := l.Integer(sym.Int64("x"))
	sym.Assume(sym.And(x >= -1000, x <= 1000))
	b := sym.Byte("s")
	sym.Assume(sym.And(b < 0x80, b >= ' '))
	objects := []l.Node{x, l.String(sym.BytesString('a', b)), l.List(x, l.String("q\"\\"), &l.Cons{Car: S("s"), Cdr: l.Rune('x')}), l.Null, okCall("vector", x, l.True), S("sym")}
	o, p := objects[sym.Choice("first", len(objects))], objects[sym.Choice("second", len(objects))]
	r, err := run("(progn (with-open-output-file (o name) (format o \"~s~%\" a) (format o \"~s\" b)) (with-open-input-file (i name) (list (read i) (read i) (read i nil 'eof))))", "name", name, "a", o, "b", p)
	sym.Assert(err == nil, "written and read back")
	e := listElems(r)
	sym.Assert(rel("equal", e[0], o) && rel("equal", e[1], p) && e[2] == l.Node(S("eof")), "the objects read back")
}

// R01_Files: probe-file, file-length and opening agree on which files there are; writing replaces a file.
func R01_Files() {
	name, other := sym.TempName("a"), sym.TempName("b")
	n := sym.Choice("length", 4)
	s := text("text", n, "ab")
	unit := sym.Int64("unit")
	exists := sym.Choice("exists", 2) == 1
	if exists {
		sym.PutFile(name, "previous text")
	}
	sym.Assert((okCall("probe-file", l.String(name)) == l.True) == exists, "probe-file before")
	_, err := call("open-input-file", l.String(name))
	sym.Assert((err == nil) == exists, "opening for input")
	_, err = run("(with-open-output-file (o name) (format o \"~a\" s))", "name", l.String(name), "s", l.String(s))
	sym.Assert(err == nil, "writing")
	fileIs(name, s, "replaced")
	sym.Assert(okCall("probe-file", l.String(name)) == l.True, "probe-file after")
	sym.Assert(okCall("probe-file", l.String(other)) == l.Null, "probe-file of no file")
	_, err = call("open-input-file", l.String(other))
	sym.Assert(err != nil, "opening a file that does not exist")
	_, err = run("(with-open-input-file (i name) (rec 1))", "name", l.String(other))
	sym.Assert(err != nil, "with-open-input-file of a file that does not exist")
	_, err = call("load", l.String(other))
	sym.Assert(err != nil, "loading a file that does not exist")
	r, err := call("file-length", l.String(name), l.Integer(unit))
	if unit <= 0 {
		sym.Assert(err != nil, "file-length in no units")
		return
	}
	sym.Assume(unit <= 64)
	u := sym.Concrete(int(unit))
	sym.Assert(mustInt(r, err, "file-length") == int64(n*8/u), "file-length")
	_, err = call("file-length", l.String(other), l.Integer(8))
	sym.Assert(err != nil || okCall("file-length", l.String(other), l.Integer(8)) == l.Null, "file-length of no file")
}

// R01_Full: text that cannot be written is reported, by the form or by closing the stream.
func R01_Full() {
	x := l.Integer(sym.Int64("x"))
	exit := []string{"x", "(throw 'c x)", "(car x)"}[sym.Choice("exit", 3)]
	form := sym.Choice("form", 4)
	r, err := run([]string{
		"(let ((o (open-output-file \"/dev/full\"))) (format o \"text\") (close o))",
		"(catch 'c (with-open-output-file (o \"/dev/full\") (format o \"text\") " + exit + "))",
		"(with-open-output-file (o \"/dev/full\") x)",
		"(catch 'c (with-handler (lambda (c) (throw 'c 'reported)) (with-open-output-file (o \"/dev/full\") (format o \"text\") x)))",
	}[form], "x", x)
	sym.Assert(sym.OpenFiles() == 0, "a file is open after the form")
	switch form {
	case 0:
		sym.Assert(err != nil, "the text is lost when the stream is closed")
	case 1:
		sym.Assert(err != nil || exit[0] == '(', "the text is lost at the end of the form")
	case 2:
		sym.Assert(err == nil && r == l.Node(x), "nothing to write")
	case 3:
		sym.Assert(err == nil && r == l.Node(S("reported")), "the handler sees it")
	}
}

var loaded = []string{
	"(rec 1) (rec x)", "(defun g (v) (rec (list 'g v))) (g x) 5", "(rec 1) (car x) (rec 2)", "(setq x 3) (rec x)", "(defmacro m (v) `(rec ,v)) (m (rec x))", "", "; comment only", "(rec 1) (rec", "(throw 'k (rec 1)) (rec 2)",
	"(defglobal loaded-var 7) loaded-var", "(rec \"あ\")", "'(a . b)", "(return-from b 4) (rec 2)", "(rec 1)\n#| (rec 2) |#\r\n(rec 3)", "(load other) (rec 'after)",
}

// R01_Load: load evaluates the forms of a file one after another as the program text of the embedding call is.
func R01_Load() {
	name, other := sym.TempName("prog.lsp"), sym.TempName("other.lsp")
	s := loaded[sym.Choice("program", len(loaded))]
	sym.PutFile(name, s)
	sym.PutFile(other, "(rec 'other) 3")
	x := l.Integer(sym.Int64("x"))
	frame := []string{"%", "(rec %)", "(catch 'k %)", "(rec (catch 'k (with-handler (lambda (c) (throw 'k 'error)) %)))"}[sym.Choice("in", 4)]
	_, rerr := readAll(s)
	kv := []any{"name", l.String(name), "other", l.String(other), "x", x}
	r1, err1, t1 := runRec("(list "+strings.Replace(frame, "%", "(load name)", 1)+")", kv...)
	if rerr != nil {
		sym.Assert(err1 != nil || strings.Contains(frame, "with-handler"), "an unreadable file is accepted")
		sym.Assert(len(t1) <= 2, "effects of an unreadable file")
		return
	}
	r2, err2, t2 := runRec("(list "+strings.Replace(frame, "%", "(progn "+s+"\n)", 1)+")", kv...)
	sym.Assert((err1 == nil) == (err2 == nil), "error or value: "+s)
	e, err := call("equal", l.List(t1...), l.List(t2...))
	sym.Assert(err == nil && e == l.True, "effects: "+s)
	if err1 == nil && s != "" && s[0] != ';' {
		e, err = call("equal", r1, r2)
		sym.Assert(err == nil && e == l.True, "value: "+s)
	}
}
