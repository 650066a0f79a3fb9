// Package h holds the harnesses: one exported function <property>_<name> each.
package h

import (
	"context"
	"math"

	l "github.com/hymkor/gmnlisp"
	"gmnverif/sym"
)

var _ = math.Pi

var ctx = context.Background()

// W has its startup code executed; gosym restores it before every path and the native
// runner executes every case in a process of its own.
var W = newWorld()

type sink struct{ b []byte }

func (s *sink) Write(p []byte) (int, error) {
	s.b = append(s.b, p...)
	return len(p), nil
}

var Out = &sink{}

func newWorld() *l.World {
	w := l.New()
	w.SetStdout(Out)
	w.SetErrout(&sink{})
	if _, err := w.Interpret(ctx, "nil"); err != nil {
		panic(err)
	}
	return w
}

func S(name string) l.Symbol { return l.NewSymbol(name) }

// run evaluates code with the given variables bound.
func run(code string, kv ...any) (l.Node, error) {
	if len(kv) == 0 {
		return W.Interpret(ctx, code)
	}
	vars := l.Variables{}
	for i := 0; i < len(kv); i += 2 {
		vars[l.NewSymbol(kv[i].(string))] = kv[i+1].(l.Node)
	}
	return W.Let(vars).Interpret(ctx, code)
}

// call applies a function to already evaluated arguments.
func call(name string, args ...l.Node) (l.Node, error) {
	f, err := W.GetFunc(l.NewSymbol(name))
	if err != nil {
		return nil, err
	}
	var list l.Node = l.Null
	for i := len(args) - 1; i >= 0; i-- {
		list = &l.Cons{Car: quote(args[i]), Cdr: list}
	}
	return f.Call(ctx, W, list)
}

var symQuote = l.NewSymbol("quote")

func quote(n l.Node) l.Node {
	switch n.(type) {
	case l.Integer, l.Float, l.String, l.Rune:
		return n
	}
	return &l.Cons{Car: symQuote, Cdr: &l.Cons{Car: n, Cdr: l.Null}}
}

func isInt(n l.Node, err error) (int64, bool) {
	if err != nil {
		return 0, false
	}
	x, ok := n.(l.Integer)
	return int64(x), ok
}

func mustInt(n l.Node, err error, label string) int64 {
	sym.Assert(err == nil, label+": error")
	x, ok := n.(l.Integer)
	sym.Assert(ok, label+": not an integer")
	sym.ObserveInt(label, int64(x))
	return int64(x)
}

func mustFloat(n l.Node, err error, label string) float64 {
	sym.Assert(err == nil, label+": error")
	x, ok := n.(l.Float)
	sym.Assert(ok, label+": not a float")
	sym.ObserveFloat(label, float64(x))
	return float64(x)
}

// truth of a result that must be t or nil.
func mustBool(n l.Node, err error, label string) bool {
	sym.Assert(err == nil, label+": error")
	r := l.IsSome(n)
	sym.ObserveBool(label, r)
	return r
}
