package h

import (
	"strings"

	l "github.com/hymkor/gmnlisp"
	"gmnverif/sym"
)

type propKey struct{ sym, name string }

// S01_History: in every history of set-property, (setf property), remove-property and property over three symbols
// (one of them uninterned) and three names, property gives the value set last, and an error when there is none.
func S01_History() {
	w := l.New()
	x := l.Integer(sym.Int64("x"))
	g, err := w.Interpret(ctx, "(gensym)")
	sym.Assert(err == nil, "gensym")
	env := l.Variables{S("x"): x, S("g"): g}
	symbols, names := []string{"'a", "'b", "g"}, []string{"'p", "'q", "'a"}
	values := []string{"x", "nil", "(list x nil)"}
	do := func(form string) (l.Node, error) { return w.Let(env).Interpret(ctx, form) }
	model := map[propKey]string{}
	n := tierDepth(2)
	for i := 0; i <= n; i++ {
		k, op := propKey{"'a", "'p"}, 0
		if i > 0 {
			k = propKey{symbols[2*sym.Choice("symbol", 2)], names[2*sym.Choice("name", 2)]}
			op = sym.Choice("op", 3)
		}
		if op == 2 {
			_, err := do("(remove-property " + k.sym + " " + k.name + ")")
			sym.Assert(err == nil, "remove-property")
			delete(model, k)
			continue
		}
		v := values[sym.Choice("value", 3)]
		form := "(set-property V S N)"
		if op == 1 {
			form = "(setf (property S N) V)"
		}
		_, err := do(strings.NewReplacer("V", v, "S", k.sym, "N", k.name).Replace(form))
		sym.Assert(err == nil, "set-property")
		model[k] = v
	}
	for _, s := range symbols {
		for _, name := range names {
			r, err := do("(property " + s + " " + name + ")")
			v, ok := model[propKey{s, name}]
			sym.Assert((err == nil) == ok, "property is there or an error: "+s+" "+name)
			if ok {
				want, err := do(v)
				sym.Assert(err == nil && rel("equal", r, want), "the value of the property")
			}
		}
	}
	sym.Reach("looked up")
}

// S01_Values: a property holds the very object, independently of what other properties of the symbol hold, and a missing
// property is a condition that a handler receives.
func S01_Values() {
	_, err := run(d01setup)
	sym.Assert(err == nil, "setup")
	a := anything(sym.Choice("a", d01n))
	b := anything(sym.Choice("b", 12))
	r, err := run("(progn (set-property u 's 'p) (set-property v 's 'q) (set-property v 'z 'p) (list (property 's 'p) (property 's 'q) (property 'z 'p)))", "u", a, "v", b)
	sym.Assert(err == nil, "three properties")
	e := listElems(r)
	sym.Assert(rel("eq", e[0], a) && rel("eq", e[1], b) && rel("eq", e[2], b), "the objects are kept")
	missing := []string{"(property 's2 'q)", "(property 'z2 'p)", "(progn (remove-property 's2 'p) (property 's2 'p))", "(progn (remove-property 'z2 'p) (property 's2 'q))"}[sym.Choice("missing", 4)]
	r, err = run("(progn (set-property u 's2 'p) (catch 'k (with-handler (lambda (c) (throw 'k (list (instancep c (class <error>))))) (list "+missing+" 1))))", "u", a)
	sym.Assert(err == nil && rel("equal", r, l.List(l.True)), "a missing property is an error")
}

// S01_Worlds: properties belong to one interpreter and are seen in every scope derived from it.
func S01_Worlds() {
	w1, w2 := l.New(), l.New()
	x, y := l.Integer(sym.Int64("x")), l.Integer(sym.Int64("y"))
	d1 := w1.Let(l.Variables{S("x"): x})
	d2 := w2.Let(l.Variables{S("y"): y})
	order := sym.Choice("order", 3)
	if order == 1 {
		_, err := w2.Interpret(ctx, "(remove-property 's2 'p)")
		sym.Assert(err == nil, "remove")
	}
	_, err := d1.Interpret(ctx, "(set-property x 's2 'p)")
	sym.Assert(err == nil, "set in a scope of the first")
	if order == 2 {
		_, err := d2.Interpret(ctx, "(set-property y 's2 'p)")
		sym.Assert(err == nil, "set in a scope of the second")
	}
	r, err := w1.Interpret(ctx, "(property 's2 'p)")
	sym.Assert(err == nil && r == l.Node(x), "seen in the first")
	r, err = w2.Interpret(ctx, "(property 's2 'p)")
	sym.Assert((err == nil) == (order == 2), "seen in the second")
	if err == nil {
		sym.Assert(r == l.Node(y), "its own value")
	}
	r, err = w1.Interpret(ctx, "(let ((s 5)) (flet ((f (n) (property 's2 n))) (f 'p)))")
	sym.Assert(err == nil && r == l.Node(x), "in an inner scope")
}
