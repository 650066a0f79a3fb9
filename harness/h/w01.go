package h

import (
	"context"
	"errors"
	"io"

	l "github.com/hymkor/gmnlisp"
	"gmnverif/exec"
	_ "gmnverif/progs"
	"gmnverif/sym"
)

// started is a program that was started.
type started struct {
	path string
	args []string
}

// programs runs src in an interpreter of its own; each program started is recorded and does what does says.
func programs(c context.Context, src string, vars l.Variables, does func(ctx context.Context, c *exec.Cmd) error) (ps []started, out, errout string, trace []l.Node, err error) {
	var o, e sink
	w := newWorld()
	w.SetStdout(&o)
	w.SetErrout(&e)
	exec.OnStart = func(ctx context.Context, c *exec.Cmd) error {
		ps = append(ps, started{c.Path, c.Args})
		if does == nil {
			return nil
		}
		return does(ctx, c)
	}
	rec := l.Function1(func(_ context.Context, _ *l.World, n l.Node) (l.Node, error) {
		trace = append(trace, n)
		return n, nil
	})
	_, err = w.Let(vars).Flet(l.Functions{S("rec"): rec}).Interpret(c, src)
	return ps, string(o.b), string(e.b), trace, err
}

func sameArgs(p started, want []string) {
	sym.Assert(p.path == want[0], "the program that is started")
	sym.Assert(len(p.args) == len(want), "the number of arguments")
	for i, a := range want {
		sym.Assert(p.args[i] == a, "the arguments of the program")
	}
}

// W01_Arguments: any texts as the name and the arguments of the program.
func W01_Arguments() {
	n := sym.Choice("arguments", 4)
	src := "(rec (command"
	vars := l.Variables{}
	var want []string
	for i := 0; i <= n; i++ {
		name := string(rune('a' + i))
		s := text(name, sym.Choice("length", 3), "")
		want = append(want, s)
		vars[S(name)] = l.String(s)
		src += " " + name
	}
	ps, _, _, trace, err := programs(ctx, src+"))", vars, nil)
	sym.Assert(err == nil, "a program that succeeds is no error")
	sym.Assert(len(trace) == 1 && isNil(trace[0]), "command returns nil")
	sym.Assert(len(ps) == 1, "one program is started")
	sameArgs(ps[0], want)
}

// W01_Values: arguments that are not strings are passed as their text, and are evaluated once, from left to right.
func W01_Values() {
	type val struct{ expr, text string }
	vals := []val{{"5", "5"}, {"-12", "-12"}, {"'sym", "sym"}, {"#\\x", "x"}, {"\"a b\"", "a b"}, {"\"\"", ""}, {"nil", "nil"}, {"'(1 2)", "(1 2)"}, {"(+ 1 2)", "3"}, {"\"*\"", "*"}, {"\"$HOME\"", "$HOME"}, {"\"a\\\"b\"", "a\"b"}, {"\"-x\"", "-x"}}
	src, want := "(command", []string{}
	for i := 0; i < 3; i++ {
		v := vals[sym.Choice("value", len(vals))]
		src += " (rec " + v.expr + ")"
		want = append(want, v.text)
	}
	ps, _, _, trace, err := programs(ctx, src+")", nil, nil)
	sym.Assert(err == nil, "a program that succeeds is no error")
	sym.Assert(len(trace) == 3 && len(ps) == 1, "each argument is evaluated once, and one program started")
	sameArgs(ps[0], want)
}

// W01_Output: what the program writes goes to the outputs of the interpreter, between what is written before and after.
func W01_Output() {
	to := text("out", 2, "")
	te := text("err", 2, "")
	does := func(_ context.Context, c *exec.Cmd) error {
		io.WriteString(c.Stdout, to)
		io.WriteString(c.Stderr, te)
		return nil
	}
	src := []string{
		"(format (standard-output) \"<\") (format (error-output) \"{\") (command \"p\") (format (standard-output) \">\") (format (error-output) \"}\")",
		"(format t \"<\") (format-char (error-output) #\\{) (funcall #'command \"p\") (format-char (standard-output) #\\>) (format (error-output) \"}\")",
		"(defun f (p) (format (standard-output) \"<\") (format (error-output) \"{\") (command p) (format (standard-output) \">\") (format (error-output) \"}\")) (f \"p\")",
	}[sym.Choice("program", 3)]
	ps, out, errout, _, err := programs(ctx, src, nil, does)
	sym.Assert(err == nil && len(ps) == 1, "the program is started")
	sym.Assert(out == "<"+to+">", "the output of the program is at its place")
	sym.Assert(errout == "{"+te+"}", "the error output of the program is at its place")
}

// W01_Failure: a program that cannot be started or that fails is an error, which can be handled; nothing else is started.
func W01_Failure() {
	code := sym.Int("status")
	sym.Assume(code >= -1 && code <= 255)
	missing := sym.Bool("missing")
	fail := func(_ context.Context, c *exec.Cmd) error {
		if c.Path == "ok" {
			return nil
		}
		if missing {
			return exec.ErrNotFound
		}
		if code != 0 {
			return &exec.ExitError{Code: int(code)}
		}
		return nil
	}
	fails := missing || code != 0
	k := sym.Choice("program", 5)
	src := []string{
		"(rec 1) (command \"p\" \"x\") (rec 2)", "(rec 1) (command \"ok\") (command \"p\") (rec 2)", "(rec 1) (mapc #'command '(\"p\")) (rec 2)",
		"(rec 1) (unwind-protect (command \"p\") (rec 3)) (rec 2)", "(rec 1) (ignore-errors (command \"p\") (rec 3)) (rec 2)",
	}[k]
	ps, _, _, trace, err := programs(ctx, src, nil, fail)
	want := [][2][]int{{{1, 2}, {1}}, {{1, 2}, {1}}, {{1, 2}, {1}}, {{1, 3, 2}, {1, 3}}, {{1, 3, 2}, {1, 2}}}[k]
	i := 0
	if fails {
		i = 1
	}
	sym.Assert((err != nil) == (fails && k != 4), "the failure of a program is an error")
	if err != nil {
		var status *exec.ExitError
		sym.Assert(missing && errors.Is(err, exec.ErrNotFound) || errors.As(err, &status) && status.Code == int(code), "the error tells the reason")
	}
	sym.Assert(len(trace) == len(want[i]), "what is evaluated after a failure")
	for j, n := range want[i] {
		sym.Assert(sameValue(trace[j], l.Integer(n)), "what is evaluated after a failure")
	}
	wantStarted := 1
	if k == 1 {
		wantStarted = 2
	}
	sym.Assert(len(ps) == wantStarted, "each program is started once")
}

// W01_Refused: no program, or an argument with an error: nothing is started.
func W01_Refused() {
	src := []string{"(command)", "(command \"p\" (car 1))", "(command \"p\" undefined-name)", "(command (nosuch))", "(apply #'command '())", "(if nil (command \"p\") (car 1))"}[sym.Choice("call", 6)]
	ps, _, _, _, err := programs(ctx, src, nil, nil)
	sym.Assert(err != nil && len(ps) == 0, "nothing is started")
}

// W01_Cancel: a program runs under the context of the evaluation: it is told when that is cancelled.
func W01_Cancel() {
	before := sym.Bool("before")
	c, cancel := context.WithCancel(context.Background())
	defer cancel()
	saw := false
	does := func(ctx context.Context, _ *exec.Cmd) error {
		sym.Assert(ctx != nil && ctx.Err() == nil, "the program is started under a context that is not cancelled")
		cancel()
		saw = ctx.Err() != nil
		return ctx.Err()
	}
	src := []string{"(command \"p\") (rec 1)", "(progn (command \"p\") (rec 1))", "(let ((n 0)) (while (< n 3) (command \"p\") (setq n (+ n 1))))"}[sym.Choice("program", 3)]
	if before {
		cancel()
	}
	ps, _, _, trace, err := programs(c, src, nil, does)
	sym.Assert(errors.Is(err, context.Canceled), "the evaluation ends with the error of the context")
	sym.Assert(len(trace) == 0, "nothing is evaluated after the cancellation")
	if before {
		sym.Assert(len(ps) == 0, "nothing is started after the cancellation")
	} else {
		sym.Assert(len(ps) == 1 && saw, "the program is told of the cancellation")
	}
}
