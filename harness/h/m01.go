package h

import (
	"fmt"
	"strings"

	l "github.com/hymkor/gmnlisp"
	"gmnverif/sym"
)

var builtinClasses = []string{
	"<object>", "<built-in-class>", "<standard-class>", "<number>", "<integer>", "<float>", "<string>", "<character>", "<symbol>", "<keyword>", "<null>", "<truetype>",
	"<list>", "<cons>", "<array>", "<function>", "<hashtable>", "<string-builder>", "<input-stream>", "<reader>", "<_WriterNode>", "<error>", "<program-error>", "<domain-error>",
	"<control-error>", "<parse-error>", "<storage-exhausted>", "<stream-error>", "<end-of-stream>", "<undefined-entity>", "<unbound-variable>", "<undefined-function>",
	"<arithmetic-error-class>", "<division-by-zero>", "<floating-point-overflow>", "<floating-point-underflow>", "<class>", "<macro>", "<output-file-stream>", "d01c", "d01d",
}

// belongs lists the classes some kinds of objects must belong to, and others they must not.
var belongs = []struct{ object, yes, no string }{
	{"5", "<integer> <number> <object>", "<float> <list> <symbol> <string> <character> <error> <null> <array> <function>"},
	{"99999999999999999999", "<integer> <number> <object>", "<float> <list> <string>"},
	{"1.5", "<float> <number> <object>", "<integer> <list> <string>"},
	{"\"s\"", "<string> <object>", "<list> <symbol> <character> <number> <array> <cons>"},
	{"#\\s", "<character> <object>", "<string> <symbol> <number> <integer>"},
	{"'s", "<symbol> <object>", "<null> <list> <keyword> <string> <cons>"},
	{"nil", "<null> <symbol> <list> <object>", "<cons> <string> <truetype> <array>"},
	{"t", "<symbol> <object>", "<null> <list>"},
	{"'(1 . 2)", "<cons> <list> <object>", "<null> <symbol> <array> <string>"},
	{"(vector 1)", "<array> <object>", "<list> <cons> <string>"},
	{"#'car", "<function> <object>", "<symbol> <macro> <list>"},
	{"(lambda (x) x)", "<function> <object>", "<symbol> <macro> <list> <cons>"},
	{"(make-hash-table)", "<hashtable> <object>", "<list> <array>"},
	{"(class <integer>)", "<built-in-class> <object>", "<integer> <number> <standard-class> <symbol>"},
	{"(class d01c)", "<standard-class> <object>", "<built-in-class> d01c <symbol>"},
	{"(create (class d01c))", "d01c <object>", "d01d <standard-class> <built-in-class> <list>"},
	{"(catch 'e (with-handler (lambda (c) (throw 'e c)) (car 1)))", "<domain-error> <program-error> <error> <object>", "<control-error> <parse-error> <undefined-entity> <arithmetic-error-class> <stream-error> <unbound-variable>"},
	{"(catch 'e (with-handler (lambda (c) (throw 'e c)) (/ 1 0)))", "<division-by-zero> <arithmetic-error-class> <error> <object>", "<domain-error> <floating-point-overflow> <floating-point-underflow> <parse-error>"},
	{"(catch 'e (with-handler (lambda (c) (throw 'e c)) novar))", "<unbound-variable> <undefined-entity> <program-error> <error> <object>", "<undefined-function> <domain-error> <control-error>"},
	{"(catch 'e (with-handler (lambda (c) (throw 'e c)) (nofun)))", "<undefined-function> <undefined-entity> <program-error> <error> <object>", "<unbound-variable> <domain-error> <control-error>"},
	{"(catch 'e (with-handler (lambda (c) (throw 'e c)) (read-char (create-string-input-stream \"\"))))", "<end-of-stream> <stream-error> <error> <object>", "<program-error> <control-error> <domain-error>"},
	{"(catch 'e (with-handler (lambda (c) (throw 'e c)) (parse-number \"x\")))", "<parse-error> <error> <object>", "<domain-error> <control-error> <stream-error>"},
	{"(catch 'e (with-handler (lambda (c) (throw 'e c)) (return-from nowhere 1)))", "<control-error> <error> <object>", "<domain-error> <program-error> <parse-error> <stream-error>"},
	{"(catch 'e (with-handler (lambda (c) (throw 'e c)) (error \"x\")))", "<error> <object>", "<domain-error> <program-error> <parse-error> <stream-error> <control-error> <division-by-zero> <floating-point-overflow>"},
}

// M01_Kinds: the objects of every kind are instances of the documented classes, and not of unrelated ones.
func M01_Kinds() {
	_, err := run(d01setup)
	sym.Assert(err == nil, "setup")
	b := belongs[sym.Choice("object", len(belongs))]
	o, err := run(b.object)
	sym.Assert(err == nil, "constructed: "+b.object)
	for _, c := range strings.Fields(b.yes) {
		sym.Assert(rel("instancep", o, class(c)), b.object+" is not an instance of "+c)
		assured, err := call("assure", class(c), o)
		sym.Assert(err == nil && rel("eq", assured, o), "(assure "+c+" "+b.object+")")
	}
	for _, c := range strings.Fields(b.no) {
		sym.Assert(!rel("instancep", o, class(c)), b.object+" is an instance of "+c)
		r, err := call("assure", class(c), o)
		isDomainError(r, err, o)
	}
}

// M01_Instancep: any object is an instance of a class exactly when its class is that class or a subclass of it.
func M01_Instancep() {
	_, err := run(d01setup)
	sym.Assert(err == nil, "setup")
	o := anything(sym.Choice("object", d01n))
	c := class(builtinClasses[sym.Choice("class", len(builtinClasses))])
	k, err := call("class-of", o)
	sym.Assert(err == nil, "class-of")
	want := rel("eq", k, c) || rel("subclassp", k, c)
	sym.Assert(rel("instancep", o, c) == want, "instancep, class-of and subclassp disagree")
	sym.Assert(rel("instancep", o, k), "an object is not an instance of its class")
	sym.Assert(rel("subclassp", k, class("<object>")) || rel("eq", k, class("<object>")), "the class is no subclass of <object>")
}

// M01_Strict: subclassp is a strict order on the built-in classes, <object> is above all others.
func M01_Strict() {
	_, err := run(d01setup)
	sym.Assert(err == nil, "setup")
	a := class(builtinClasses[sym.Choice("a", len(builtinClasses))])
	object := class("<object>")
	sym.Assert(!rel("subclassp", a, a), "a class is a subclass of itself")
	if !rel("eq", a, object) {
		sym.Assert(rel("subclassp", a, object), "a class is no subclass of <object>")
	}
	for _, bn := range builtinClasses {
		b := class(bn)
		if !rel("subclassp", a, b) {
			continue
		}
		sym.Assert(!rel("subclassp", b, a), "two classes are subclasses of each other")
		for _, cn := range builtinClasses {
			c := class(cn)
			sym.Assert(!rel("subclassp", b, c) || rel("subclassp", a, c), "subclassp is not transitive")
		}
	}
}

// mclass is the model of a class.
type mclass struct {
	name  string
	super []*mclass
	slots []mslot
}

type mslot struct {
	name string
	args []string
	form string
}

func (c *mclass) define() string {
	var b strings.Builder
	b.WriteString("(defclass " + c.name + " (")
	for _, s := range c.super {
		b.WriteString(s.name + " ")
	}
	b.WriteString(") (")
	for _, s := range c.slots {
		b.WriteString("(" + s.name)
		for _, a := range s.args {
			b.WriteString(" :initarg " + a)
		}
		if s.form != "" {
			b.WriteString(" :initform " + s.form)
		}
		fmt.Fprintf(&b, " :accessor %s-%s :reader read-%s :writer write-%s :boundp %s-%s-bound :boundp bound-%s)", c.name, s.name, s.name, s.name, c.name, s.name, s.name)
	}
	b.WriteString("))")
	return b.String()
}

// order is the class and its ancestors, from the most specific one.
func (c *mclass) order() []*mclass {
	r := []*mclass{c}
	for _, s := range c.super {
		for _, a := range s.order() {
			if !has(r, a) {
				r = append(r, a)
			}
		}
	}
	return r
}

func has(list []*mclass, c *mclass) bool {
	for _, x := range list {
		if x == c {
			return true
		}
	}
	return false
}

// fresh is the state of the slots of a new instance.
func (c *mclass) fresh(args map[string]l.Node, form func(string) l.Node) map[string]l.Node {
	slots := map[string]l.Node{}
	for _, k := range c.order() {
		for _, s := range k.slots {
			for _, a := range s.args {
				if v, ok := args[a]; ok {
					slots[s.name] = v
				}
			}
		}
	}
	for _, k := range c.order() {
		for _, s := range k.slots {
			if _, ok := slots[s.name]; !ok && s.form != "" {
				slots[s.name] = form(s.form)
			}
		}
	}
	return slots
}

// holds checks every way to look at the slots of an instance.
func (c *mclass) holds(o l.Node, slots map[string]l.Node, all []*mclass, what string) {
	mine := c.order()
	for _, k := range all {
		for _, s := range k.slots {
			own := k.name + "-" + s.name
			if !has(mine, k) {
				_, err := call(own, o)
				sym.Assert(err != nil, what+": "+own+" accepts an instance of another class")
				_, err = call(own+"-bound", o)
				sym.Assert(err != nil, what+": "+own+"-bound accepts an instance of another class")
				continue
			}
			v, bound := slots[s.name]
			for _, f := range []string{own + "-bound", "bound-" + s.name} {
				sym.Assert(rel(f, o) == bound, what+": "+f)
			}
			if !bound {
				continue
			}
			for _, f := range []string{own, "read-" + s.name} {
				r, err := call(f, o)
				sym.Assert(err == nil, what+": "+f+" fails")
				sym.Assert(rel("eql", r, v), what+": "+f+" is not the value of the slot")
			}
		}
	}
}

// hierarchies of three classes: the indices of the super classes of the second and third one.
var hierarchies = [][2][]int{{{}, {}}, {{}, {0}}, {{}, {1}}, {{}, {0, 1}}, {{}, {1, 0}}, {{0}, {0}}, {{0}, {1}}, {{0}, {}}}

func hierarchy(i int) []*mclass {
	c := []*mclass{{name: "c0"}, {name: "c1"}, {name: "c2"}}
	for k, s := range hierarchies[i] {
		for _, j := range s {
			c[k+1].super = append(c[k+1].super, c[j])
		}
	}
	return c
}

func defineAll(classes []*mclass, kv ...any) {
	for _, c := range classes {
		_, err := run(c.define(), kv...)
		sym.Assert(err == nil, "defclass")
	}
}

// M01_Hierarchy: the relations of up to four classes with any super classes.
func M01_Hierarchy() {
	n := 4
	classes := []*mclass{}
	for i := 0; i < n; i++ {
		c := &mclass{name: fmt.Sprintf("c%d", i)}
		if i > 0 {
			for mask, j := sym.Choice("super", 1<<i), 0; j < i; j++ {
				if mask>>j&1 == 1 {
					c.super = append(c.super, classes[i-1-j])
				}
			}
		}
		classes = append(classes, c)
	}
	defineAll(classes)
	for _, a := range classes {
		ca := class(a.name)
		o := okCall("create", ca)
		sym.Assert(rel("eq", okCall("class-of", o), ca), "class-of an instance")
		sym.Assert(rel("instancep", o, class("<object>")), "an instance of <object>")
		sym.Assert(rel("subclassp", ca, class("<object>")), "a subclass of <object>")
		sym.Assert(!rel("subclassp", class("<object>"), ca), "<object> a subclass")
		for _, no := range []string{"<integer>", "<list>", "<error>", "<standard-class>"} {
			sym.Assert(!rel("instancep", o, class(no)), "an instance of "+no)
			sym.Assert(!rel("subclassp", ca, class(no)), "a subclass of "+no)
		}
		for _, b := range classes {
			cb := class(b.name)
			below := has(a.order(), b)
			sym.Assert(rel("subclassp", ca, cb) == (below && a != b), "subclassp "+a.name+" "+b.name)
			sym.Assert(rel("instancep", o, cb) == below, "instancep "+a.name+" "+b.name)
			sym.Assert(rel("eq", ca, cb) == (a == b), "identity of classes")
			r, err := call("assure", cb, o)
			sym.Assert((err == nil) == below, "assure")
			sym.Assert(err != nil || rel("eq", r, o), "value of assure")
		}
	}
}

var slotVariants = []mslot{
	{},
	{name: "a", args: []string{"a"}, form: "(+ x 1)"},
	{name: "a", args: []string{"b"}},
	{name: "a", form: "(progn (setq n (+ n 1)) x)"},
	{name: "b", args: []string{"a", "b"}, form: "y"},
	{name: "a", args: []string{"a", "c"}},
}

// M01_Init: every slot starts with its initarg, else the initform of the most specific class having one, else
// unbound, for hierarchies of three classes with every combination of slots.
func M01_Init() {
	classes := hierarchy(sym.Choice("hierarchy", len(hierarchies)))
	for i, c := range classes {
		n := len(slotVariants)
		if i == 2 {
			n = 4
		}
		if s := slotVariants[sym.Choice(c.name, n)]; s.name != "" {
			c.slots = append(c.slots, s)
		}
	}
	x, y := l.Integer(sym.Int64("x")), l.Integer(sym.Int64("y"))
	sym.Assume(int64(x) < 1<<62)
	kv := []any{"x", x, "y", y, "n", l.Integer(0)}
	defineAll(classes, kv...)
	given := map[string]l.Node{}
	args := []l.Node{class("c2")}
	chosen := sym.Choice("initarg", 4)
	for i, name := range []string{"a", "b", "c"} {
		if chosen == i {
			given[name] = l.Integer(sym.Int64("v" + name))
			if sym.Choice("nil", 2) == 1 {
				given[name] = l.Null
			}
			args = append(args, S(name), given[name])
		}
	}
	o, err := call("create", args...)
	sym.Assert(err == nil, "create")
	other, err := call("create", class("c2"))
	sym.Assert(err == nil, "create")
	form := func(s string) l.Node {
		switch s {
		case "y":
			return y
		case "(+ x 1)":
			return x + 1
		}
		return x
	}
	classes[2].holds(o, classes[2].fresh(given, form), classes, "new instance")
	classes[2].holds(other, classes[2].fresh(nil, form), classes, "instance without initargs")
}

// M01_Chain: the initforms and initargs of four classes, each of which extends the one before or is a further
// superclass of the last one, and has a slot of its own, a slot all have in common, or none.
func M01_Chain() {
	n := 4
	shape := sym.Choice("shape", 3)
	x := l.Integer(sym.Int64("x"))
	classes := []*mclass{}
	for i := 0; i < n; i++ {
		c := &mclass{name: fmt.Sprintf("c%d", i)}
		switch {
		case i == 0:
		case shape == 1 && i == 1: // c0 <- c2 <- c3, c1 <- c3
		case shape == 1 && i == 2:
			c.super = []*mclass{classes[0]}
		case shape == 1:
			c.super = []*mclass{classes[1], classes[2]}
		case shape == 2 && i == n-1: // c0 <- c1 <- c3, c2 <- c3
			c.super = []*mclass{classes[1], classes[2]}
		case shape == 2 && i == 2:
		default:
			c.super = []*mclass{classes[i-1]}
		}
		own := fmt.Sprintf("s%d", i)
		switch sym.Choice(c.name, 5) {
		case 1:
			c.slots = []mslot{{name: own, form: fmt.Sprintf("(+ %d x)", i)}}
		case 2:
			c.slots = []mslot{{name: own, args: []string{"a"}}}
		case 3:
			c.slots = []mslot{{name: "s", form: fmt.Sprintf("(+ %d x)", i)}}
		case 4:
			c.slots = []mslot{{name: own, args: []string{"a"}, form: fmt.Sprintf("(+ %d x)", i)}, {name: "t" + own}}
		}
		classes = append(classes, c)
	}
	sym.Assume(int64(x) < 1<<62)
	defineAll(classes, "x", x)
	v := l.Integer(sym.Int64("v"))
	made, err := call("create", class(fmt.Sprintf("c%d", n-1)), S("a"), v)
	sym.Assert(err == nil, "create")
	plain, err := call("create", class(fmt.Sprintf("c%d", n-1)))
	sym.Assert(err == nil, "create")
	form := func(s string) l.Node {
		return l.Integer(s[3]-'0') + x
	}
	classes[n-1].holds(made, classes[n-1].fresh(map[string]l.Node{"a": v}, form), classes, "instance with an initarg")
	classes[n-1].holds(plain, classes[n-1].fresh(nil, form), classes, "instance without initargs")
}

// M01_Options: a slot with any numbers of readers, writers, accessors, boundps and initargs: each of them works.
func M01_Options() {
	count := map[string]int{}
	slot := func(name string) string {
		src := "(" + name
		for _, option := range []string{"reader", "writer", "accessor", "boundp", "initarg"} {
			for i := 0; i < count[option]; i++ {
				src += fmt.Sprintf(" :%s %s-%s%d", option, name, option, i)
			}
		}
		return src + ")"
	}
	options := []string{"reader", "writer", "accessor", "boundp", "initarg"}
	some := options[sym.Choice("some", len(options))]
	for _, option := range options {
		count[option] = 1
	}
	count[some] = 1 + sym.Choice("count", 4)
	if other := options[sym.Choice("other", len(options))]; other != some {
		count[other] = 3
	}
	_, err := run("(defclass d0 () (" + slot("p") + slot("q") + ")) (defclass d1 (d0) (" + slot("r") + "))")
	sym.Assert(err == nil, "defclass")
	name := []string{"p", "q", "r"}[sym.Choice("slot", 3)]
	x, y := l.Integer(sym.Int64("x")), l.Integer(sym.Int64("y"))
	looked := func(o l.Node, want l.Node, what string) {
		for _, n := range []string{"p", "q", "r"} {
			for i := 0; i < count["boundp"]; i++ {
				sym.Assert(rel(fmt.Sprintf("%s-boundp%d", n, i), o) == (n == name && want != nil), what+": boundp")
			}
		}
		for _, option := range []string{"reader", "accessor"} {
			for i := 0; want != nil && i < count[option]; i++ {
				r, err := call(fmt.Sprintf("%s-%s%d", name, option, i), o)
				sym.Assert(err == nil && r == want, what+": "+option)
			}
		}
	}
	for i := 0; i < count["initarg"]; i++ {
		o, err := call("create", class("d1"), S(fmt.Sprintf("%s-initarg%d", name, i)), x)
		sym.Assert(err == nil, "create")
		looked(o, x, "initarg")
	}
	write := func(f string) {
		o, err := call("create", class("d1"))
		sym.Assert(err == nil, "create")
		looked(o, nil, "unbound")
		for _, v := range []l.Node{x, l.Null, y} {
			_, err = call(f, v, o)
			sym.Assert(err == nil, f)
			looked(o, v, f)
		}
	}
	for i := 0; i < count["writer"]; i++ {
		write(fmt.Sprintf("%s-writer%d", name, i))
	}
	for i := 0; i < count["accessor"]; i++ {
		write(fmt.Sprintf("set-%s-accessor%d", name, i))
	}
}

// M01_Fresh: an initform is evaluated for every instance, in the environment of the class definition.
func M01_Fresh() {
	form := []string{"(list x 2)", "(cons x nil)", "(vector x 2)", "(make-hash-table)", "(progn (setq n (+ n 1)) (list n x))", "(let ((v 1)) (lambda () (setq v (+ v x))))", "(create (class c1))", "`(a ,x)"}
	f := form[sym.Choice("form", len(form))]
	x := l.Integer(sym.Int64("x"))
	super := []string{"", "c0"}[sym.Choice("super", 2)]
	src := "(defclass c1 () ()) (defclass c0 () ((a :initarg a :accessor a :initform " + f + "))) (defclass c2 (" + super + ") ((b :reader b :initform " + f + ") (c :initarg c :initform n :reader c)))"
	if super == "" {
		src += "(defclass c2 () ((a :initarg a :accessor a :initform " + f + ") (b :reader b :initform " + f + ") (c :initarg c :initform n :reader c)))"
		src = strings.Replace(src, "(defclass c2 ()", "(defclass c3 ()", 1)
	}
	w := W.Let(l.Variables{S("x"): x, S("n"): l.Integer(0)})
	r, err := w.Interpret(ctx, src+" (list (create (class c2)) (create (class c2)) (create (class c2) 'a x) (create (class c2) 'c nil))")
	sym.Assert(err == nil, "create")
	var objs []l.Node
	for i, o := range listElems(r) {
		for _, slot := range []string{"a", "b"} {
			v := okCall(slot, o)
			if slot == "a" && i == 2 {
				sym.Assert(rel("eql", v, x), "initarg")
				continue
			}
			for _, u := range objs {
				sym.Assert(!rel("eq", u, v), "two slots share the value of the initform")
			}
			objs = append(objs, v)
		}
		if i == 3 {
			sym.Assert(okCall("c", o) == l.Null, "initarg nil")
		}
	}
	if f == form[0] {
		okCall("set-car", l.Integer(99), objs[0])
		for _, u := range objs[1:] {
			sym.Assert(rel("eql", okCall("car", u), x), "an initform after a change to an earlier value")
		}
		o := okCall("create", class("c2"))
		sym.Assert(rel("eql", okCall("car", okCall("a", o)), x), "a later instance")
	}
}

// M01_Access: any writes through any of the writers into two instances of the same or different classes.
func M01_Access() {
	classes := hierarchy(5 + sym.Choice("hierarchy", 2))
	classes[0].slots = []mslot{{name: "a", args: []string{"a"}}, {name: "b", args: []string{"b"}}}
	classes[1].slots = []mslot{{name: "d"}}
	classes[2].slots = []mslot{{name: "a"}, {name: "e", form: "'init"}}
	defineAll(classes)
	var objs []l.Node
	var of []*mclass
	var state []map[string]l.Node
	for i := 0; i < 2; i++ {
		c := classes[sym.Choice("class", 3)]
		v := l.Integer(sym.Int64(fmt.Sprint("a", i)))
		objs = append(objs, okCall("create", class(c.name), S("a"), v))
		of = append(of, c)
		state = append(state, c.fresh(map[string]l.Node{"a": v}, func(string) l.Node { return S("init") }))
	}
	for step := 0; step < tierDepth(2); step++ {
		i := sym.Choice("object", 2)
		var v l.Node = l.Integer(sym.Int64(fmt.Sprint("v", step)))
		if step == 0 && sym.Bool("nil") {
			v = l.Null
		}
		cs := of[i].order()
		k := cs[sym.Choice("by", len(cs))]
		s := k.slots[sym.Choice("slot", len(k.slots))]
		var err error
		switch sym.Choice("how", 3) {
		case 0:
			_, err = call("set-"+k.name+"-"+s.name, v, objs[i])
		case 1:
			_, err = call("write-"+s.name, v, objs[i])
		case 2:
			_, err = run("(setf ("+k.name+"-"+s.name+" o) v)", "o", objs[i], "v", v)
		}
		sym.Assert(err == nil, "writing")
		state[i][s.name] = v
		for j := range objs {
			of[j].holds(objs[j], state[j], classes, "after writing")
		}
	}
}

// M01_Initialize: a user-defined initialize-object is run by create, for the class and its subclasses, with the arguments given.
func M01_Initialize() {
	base := sym.Choice("defined on", 2)
	made := sym.Choice("created", 3)
	x, y := l.Integer(sym.Int64("x")), l.Integer(sym.Int64("y"))
	src := "(defclass c0 () ((a :initarg a :initform 1 :reader c0-a :accessor acc :boundp a-bound))) (defclass c1 (c0) ((b :initform 2 :reader c1-b :boundp b-bound)))" +
		"(defclass c2 () ((a :initarg a :initform 3 :reader c2-a)))" +
		fmt.Sprintf("(defmethod initialize-object ((o c%d) &rest args) (setq got (list o args)) (set-acc (car (cdr args)) o) o)", base) +
		fmt.Sprintf("(let ((o (create (class c%d) 'a x 'z y))) (list o got))", made)
	r, err := run("(defgeneric acc (o)) "+src, "x", x, "y", y, "got", l.Null)
	if err != nil {
		sym.ObserveStr("err", err.Error())
	}
	sym.Assert(err == nil, "create")
	e := listElems(r)
	user := base == 0 && made < 2 || base == 1 && made == 1
	if !user {
		sym.Assert(e[1] == l.Null, "the method of another class was run")
		if made == 2 {
			sym.Assert(rel("eql", okCall("c2-a", e[0]), x), "default initialization")
		} else {
			sym.Assert(rel("eql", okCall("c0-a", e[0]), x), "default initialization")
		}
		return
	}
	g := listElems(e[1])
	sym.Assert(g[0] == e[0], "the object passed and returned")
	a := listElems(g[1])
	sym.Assert(len(a) == 4 && a[0] == S("a") && a[2] == S("z"), "the arguments passed")
	sym.Assert(rel("eql", a[1], x) && rel("eql", a[3], y), "the values passed")
	sym.Assert(rel("eql", okCall("c0-a", e[0]), x), "the slot written by the method")
}

// M01_Create: create of anything else than a class defined by defclass gives a value of the class or an error,
// and what it gives can be used.
func M01_Create() {
	_, err := run(d01setup)
	sym.Assert(err == nil, "setup")
	c := class(builtinClasses[sym.Choice("class", len(builtinClasses))])
	o, err := call("create", c)
	if err != nil {
		return
	}
	sym.Assert(o != nil, "nothing was created")
	sym.Assert(rel("instancep", o, c), "not an instance")
	sym.Assert(rel("eq", okCall("class-of", o), c), "of another class")
	sym.Assert(rel("equal", o, o), "not equal to itself")
	printed(o)
}
