package h

import (
	"context"
	"errors"
	"os"
	"strings"

	l "github.com/hymkor/gmnlisp"
	"gmnverif/cli"
	"gmnverif/sym"
)

// command runs the command gmnlisp with the arguments and tells how it ended and what it wrote.
type ended struct {
	code     int
	out, err string
	got      []l.Node
}

func command(args ...string) (e ended) {
	var got []l.Node
	l.Export(l.NewSymbol("rec"), l.Function1(func(_ context.Context, _ *l.World, n l.Node) (l.Node, error) {
		got = append(got, n)
		return n, nil
	}))
	outName, errName := sym.TempName("stdout"), sym.TempName("stderr")
	out, err := os.Create(outName)
	if err != nil {
		panic(err)
	}
	eout, err := os.Create(errName)
	if err != nil {
		panic(err)
	}
	os.Stdout, os.Stderr = out, eout
	os.Args = append([]string{"gmnlisp"}, args...)
	stop := func() {
		e.out, _ = sym.FileText(outName)
		e.err, _ = sym.FileText(errName)
		e.got = got
	}
	cli.OnExit = stop
	defer func() {
		if x := recover(); x != nil {
			c, ok := x.(cli.Exit)
			if !ok {
				panic(x)
			}
			e.code = int(c)
		}
	}()
	cli.Main()
	stop()
	return
}

// wantedEnd evaluates the program in an interpreter of its own.
func wantedEnd(code string, args []string) (e ended) {
	w := newWorld()
	var out sink
	w.SetStdout(&out)
	w.SetErrout(&out)
	var list l.Node = l.Null
	for i := len(args) - 1; i >= 0; i-- {
		list = &l.Cons{Car: l.String(args[i]), Cdr: list}
	}
	f := l.Function1(func(_ context.Context, _ *l.World, n l.Node) (l.Node, error) {
		e.got = append(e.got, n)
		return n, nil
	})
	w = w.Let(l.Variables{S("*posix-argv*"): list}).Flet(l.Functions{S("rec"): f})
	_, err := w.Interpret(ctx, code)
	e.out = string(out.b)
	if err != nil && !errors.Is(err, l.ErrQuit) {
		e.code, e.err = 1, err.Error()
	}
	return e
}

func sameEnd(got, want ended, how string) {
	sym.ObserveInt("code", int64(got.code))
	sym.ObserveStr("out", got.out)
	sym.Assert((got.code == 0) == (want.code == 0), "the exit status "+how)
	sym.Assert(len(got.got) == len(want.got), "the forms evaluated "+how)
	for i, n := range want.got {
		sym.Assert(sameValue(got.got[i], n), "the values "+how)
	}
	if want.code == 0 {
		sym.Assert(got.out == want.out, "the output "+how)
		sym.Assert(got.err == "", "nothing is reported "+how)
	} else {
		sym.Assert(strings.HasPrefix(got.out, want.out), "the output before the error "+how)
		first := want.err
		if i := strings.IndexByte(first, '\n'); i >= 0 {
			first = first[:i]
		}
		sym.Assert(strings.Contains(got.err, first) || strings.Contains(got.out, first), "the error is reported "+how)
	}
}

// commandPrograms are the programs given to the command.
var commandPrograms = []string{
	"(rec *posix-argv*)", "(rec 1) (rec 2)\n(rec 3)", "(format (standard-output) \"a~%\") (rec 1)", "(rec 1) (quit) (rec 2)", "(rec 1) (car 2) (rec 3)", "(format (standard-output) \"a\") (car 2)", "", "; none", "(rec 1) (abort) (rec 2)",
	"(rec 1) (nosuch) (rec 2)", "(defun f (n) (if (= n 0) (quit) (f (- n 1)))) (rec 1) (f 3) (rec 2)", "(rec 1", "(rec \"a\nb\")", "(block b (return-from c 1))", "(rec (catch 'a (throw 'a (length *posix-argv*))))", "(with-handler (lambda (c) (rec 'h) (quit)) (car 1))",
	"(ignore-errors (car 1)) (rec 'ok)", "(mapc (lambda (a) (rec a)) *posix-argv*)", "(let ((n 0)) (while t (setq n (+ n 1)) (if (> n 2) (progn (rec n) (quit)))))", "(unwind-protect (quit) (rec 'clean))", "(error \"stop ~a\" 5)", "(rec 'x)\n#| (rec 'y)\n|#(rec 'z)",
	"(format (error-output) \"\") (format (standard-output) \"~s\" *posix-argv*)", "\n\n (rec 'last)\n ;",
}

// commandArgs chooses the arguments of the program.
func commandArgs() []string {
	args := []string{}
	for i := sym.Choice("args", 3); i > 0; i-- {
		k := sym.Choice("arg", 6)
		if k < 5 {
			args = append(args, []string{"", "-e", "a b", "-x", "--"}[k])
		} else if len(args) == 0 || sym.Thorough() {
			args = append(args, text("argument", 2, "-e=\"\\ a"))
		} else {
			args = append(args, "-e=")
		}
	}
	return args
}

// V01_Script: the command with the name of a file: its forms are evaluated in order up to the first error or quit; only
// a first line that starts with #! or @ is left out; the further arguments belong to the program.
func V01_Script() {
	head := []string{"", "#!/usr/bin/gmnlisp\n", "@gmnlisp \"%~f0\"\n", "#| a\n(rec 'comment) |#\n", "; a\n", "#!", "#'car ", "#(1) ", "#\\a\n", "@\n", "\n#!\n", " "}[sym.Choice("head", 12)]
	code := head + commandPrograms[sym.Choice("program", len(commandPrograms))]
	args := [][]string{{}, {"-e", "b c"}}[sym.Choice("args", 2)]
	check := code
	if strings.HasPrefix(code, "#!") || strings.HasPrefix(code, "@") {
		if i := strings.IndexByte(code, '\n'); i >= 0 {
			check = code[i+1:]
		} else {
			check = ""
		}
	}
	name := sym.TempName("script.lsp")
	sym.PutFile(name, code)
	want := wantedEnd(check, args)
	sameEnd(command(append([]string{name}, args...)...), want, "of a script")
}

// V01_FirstLine: scripts whose first line is any short text.
func V01_FirstLine() {
	head := text("head", 2, "#!@;\n '1a") + "\n"
	code := head + "(rec *posix-argv*) (rec 'end)"
	check := code
	if strings.HasPrefix(code, "#!") || strings.HasPrefix(code, "@") {
		check = code[strings.IndexByte(code, '\n')+1:]
	}
	name := sym.TempName("script.lsp")
	sym.PutFile(name, code)
	want := wantedEnd(check, []string{"x"})
	sameEnd(command(name, "x"), want, "of a script with a first line")
}

// V01_Execute: the command with the option -e.
func V01_Execute() {
	code := commandPrograms[sym.Choice("program", len(commandPrograms))]
	if code == "" {
		return // like no option at all
	}
	args := [][]string{{}, {"0", "-e", "b c"}}[sym.Choice("args", 2)]
	want := wantedEnd(code, args)
	all := append([]string{"-e", code}, args...)
	if sym.Bool("equals") {
		all = append([]string{"-e=" + code}, args...)
	}
	sameEnd(command(all...), want, "of -e")
}

// V01_Arguments: the arguments after the program are those of the program, whatever they look like.
func V01_Arguments() {
	code := []string{"(rec *posix-argv*)", "(mapc (lambda (a) (rec a) (format (standard-output) a)) *posix-argv*)"}[sym.Choice("program", 2)]
	args := commandArgs()
	all := append([]string{"-e", code}, args...)
	if sym.Bool("file") {
		name := sym.TempName("script.lsp")
		sym.PutFile(name, code)
		all = append([]string{name}, args...)
	} else if len(args) > 0 && strings.HasPrefix(args[0], "-") {
		return // an option of the command
	}
	sameEnd(command(all...), wantedEnd(code, args), "with arguments")
}

// V01_NoFile: the name of a file that does not exist.
func V01_NoFile() {
	e := command(append([]string{sym.TempName("none.lsp")}, [][]string{{}, {"a"}}[sym.Choice("args", 2)]...)...)
	sym.Assert(e.code != 0 && e.err != "", "a script that does not exist is an error")
}

// V01_Long: a script longer than any buffer, as one line or as many.
func V01_Long() {
	n := []int{5000, 70000}[sym.Choice("size", 2)]
	fill := []string{strings.Repeat(" ", n), strings.Repeat("; comment\n", n/10), "#|" + strings.Repeat("x", n) + "|#", "(rec \"" + strings.Repeat("y", n/10) + "\")"}[sym.Choice("fill", 4)]
	code := "(rec 1)" + fill + "\n(rec 2)"
	name := sym.TempName("script.lsp")
	sym.PutFile(name, code)
	sameEnd(command(name), wantedEnd(code, nil), "of a long script")
}
