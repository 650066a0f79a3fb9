package h

import (
	"context"
	"errors"

	l "github.com/hymkor/gmnlisp"
	"gmnverif/sym"
)

// recorder is a host function recording the arguments of each call and answering from a table.
type recorder struct {
	calls   [][]l.Node
	results []l.Node
	failAt  int
}

var errStop = &stop{}

type stop struct{}

func (*stop) Error() string { return "stop" }

func (r *recorder) bind(w *l.World) *l.World {
	return w.Flet(l.Functions{S("rec"): &l.Function{F: func(_ context.Context, _ *l.World, a []l.Node) (l.Node, error) {
		i := len(r.calls)
		r.calls = append(r.calls, append([]l.Node{}, a...))
		if i == r.failAt {
			return nil, errStop
		}
		return r.results[i], nil
	}}})
}

// mapping functions: 0 mapcar 1 mapc 2 mapcan 3 maplist 4 mapl 5 mapcon
var mapNames = []string{"mapcar", "mapc", "mapcan", "maplist", "mapl", "mapcon"}

// E02_Map: every mapping function over one to three lists of length 0 to 3, with or without a failing call.
func E02_Map() {
	op := sym.Choice("op", 6)
	nl := 1 + sym.Choice("lists", 3)
	shortest := 99
	var lists []l.Node
	var cs [][]*l.Cons
	max := 4
	if nl == 3 {
		max = 3
	}
	for i := 0; i < nl; i++ {
		n := sym.Choice("n", max)
		a, c := cells("x", n, l.Null)
		lists, cs = append(lists, a), append(cs, c)
		if n < shortest {
			shortest = n
		}
	}
	k := keep(cs...)
	r := &recorder{failAt: sym.Choice("fail", shortest+1)}
	var wantList []l.Node
	joins := op == 2 || op == 5
	var shared l.Node
	for i := 0; i < shortest; i++ {
		x := l.Integer(sym.Int64("r"))
		if !joins {
			r.results = append(r.results, x)
			wantList = append(wantList, x)
			continue
		}
		n := sym.Choice("rlen", 3)
		var res l.Node = l.Null
		for j := 0; j < n; j++ {
			res = &l.Cons{Car: x, Cdr: res}
			wantList = append(wantList, x)
		}
		shared = res
		r.results = append(r.results, res)
	}
	_ = shared
	args := []any{}
	src := "(" + mapNames[op] + " #'rec"
	for i, a := range lists {
		v := string(rune('a' + i))
		src += " " + v
		args = append(args, v, a)
	}
	vars := l.Variables{}
	for i := 0; i < len(args); i += 2 {
		vars[S(args[i].(string))] = args[i+1].(l.Node)
	}
	res, err := r.bind(W.Let(vars)).Interpret(ctx, src+")")
	made := shortest
	if r.failAt < shortest {
		made = r.failAt + 1
		sym.Assert(errors.Is(err, errStop), "the error of a call is not passed on")
	} else {
		okNode(res, err, mapNames[op])
	}
	sym.ObserveInt("calls", int64(len(r.calls)))
	sym.Assert(len(r.calls) == made, "number of calls")
	for i, a := range r.calls {
		sym.Assert(len(a) == nl, "number of arguments")
		for j, x := range a {
			if op < 3 {
				sym.Assert(x == cs[j][i].Car, "argument is not the element at the position")
			} else {
				sym.Assert(x == l.Node(cs[j][i]), "argument is not the tail at the position")
			}
		}
	}
	k.check(mapNames[op])
	if err != nil {
		return
	}
	switch op {
	case 1, 4:
		sym.Assert(res == lists[0], "the result is not the first list")
	default:
		for _, w := range wantList {
			c, ok := res.(*l.Cons)
			sym.Assert(ok && c.Car == w, "the results are not in order")
			res = c.Cdr
		}
		sym.Assert(res == l.Null, "too many results")
	}
}

// E02_Exit: a non-local exit from the function ends the mapping.
func E02_Exit() {
	op := sym.Choice("op", 6)
	n := 1 + sym.Choice("n", 3)
	a, c := cells("x", n, l.Null)
	x := c[sym.Choice("at", n)].Car
	elem := "e"
	if op >= 3 {
		elem = "(car e)"
	}
	exit := []string{"(throw 'out count)", "(return-from out count)", "(go out)", "(car 5)"}[sym.Choice("exit", 4)]
	fn := "(lambda (e) (setq count (1+ count)) (if (= " + elem + " stop) " + exit + ") (list e))"
	form := "(" + mapNames[op] + " " + fn + " a)"
	src := "(let ((count 0)) (catch 'out (block out (tagbody (with-handler (lambda (c) (throw 'out count)) " + form + ") out))) count)"
	r, err := run(src, "a", a, "stop", x)
	want := n
	for i := n - 1; i >= 0; i-- {
		if c[i].Car.(l.Integer) == x.(l.Integer) {
			want = i + 1
		}
	}
	sym.Assert(mustInt(r, err, "count") == int64(want), "calls made after the exit")
}

// E02_BadList: an argument that is no list, or ends with an atom, is an error and the function is called
// only for positions every list has.
func E02_BadList() {
	op := sym.Choice("op", 6)
	n := sym.Choice("n", 3)
	a, c := cells("x", n, notList())
	r := &recorder{failAt: -1, results: []l.Node{l.Null, l.Null, l.Null}}
	_, err := r.bind(W.Let(l.Variables{S("a"): a})).Interpret(ctx, "("+mapNames[op]+" #'rec a)")
	sym.Assert(err != nil, "an improper list is accepted")
	sym.Assert(len(r.calls) <= n, "called beyond the end")
	_, err = run("(" + mapNames[op] + " #'car)")
	sym.Assert(err != nil, "no list is accepted")
	_, err = run("("+mapNames[op]+" f '(1))", "f", notList())
	sym.Assert(err != nil, "an object that is no function is accepted")
	f1, err := run("(lambda (x) (list x))")
	sym.Assert(err == nil, "a function")
	for _, f := range []string{"'f", "'(lambda (x) (list x))", "'car"} {
		_, err = W.Let(l.Variables{S("f"): f1}).Interpret(ctx, "("+mapNames[op]+" "+f+" '(1))")
		sym.Assert(err != nil, "the function is evaluated twice")
	}
	_ = c
}
