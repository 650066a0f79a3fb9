package h

import (
	"regexp"
	"strings"

	l "github.com/hymkor/gmnlisp"
	_ "github.com/hymkor/gmnlisp/pkg/regexp"
	_ "github.com/hymkor/gmnlisp/pkg/subst"
	_ "github.com/hymkor/gmnlisp/pkg/wildcard"
	"gmnverif/sym"
)

func refSubst(item, old, n l.Node) l.Node {
	if same(0, n, old) {
		return item
	}
	if c, ok := n.(*l.Cons); ok {
		return &l.Cons{Car: refSubst(item, old, c.Car), Cdr: refSubst(item, old, c.Cdr)}
	}
	return n
}

// substTree is a tree of conses of the given depth over symbolic integers, symbols, strings and nil.
func substTree(depth int) l.Node {
	n := 4
	if depth > 0 {
		n = 5
	}
	switch sym.Choice("node", n) {
	case 0:
		return l.Integer(sym.Int64("leaf"))
	case 1:
		return S("a")
	case 2:
		return l.Null
	case 3:
		return l.String(sym.BytesString(sym.Byte("char")))
	}
	return &l.Cons{Car: substTree(depth - 1), Cdr: substTree(depth - 1)}
}

// U01_Subst: (subst new old tree) for trees of depth two, old an atom or a cons of the tree itself: every part of the
// tree that is eq to old is replaced, new itself is not searched, and the tree is unchanged.
func U01_Subst() {
	t := substTree(tierDepth(2) - 0)
	var old l.Node
	switch sym.Choice("old", 5) {
	case 0:
		old = l.Integer(sym.Int64("x"))
	case 1:
		old = S("a")
	case 2:
		old = l.Null
	case 3:
		old = l.String(sym.BytesString(sym.Byte("y")))
	case 4:
		c, ok := t.(*l.Cons)
		if !ok {
			return
		}
		old = c.Cdr
	}
	item := l.List(old, S("new"))
	before := refSubst(S("none"), S("absent"), t)
	r, err := call("subst", item, old, t)
	sym.Assert(err == nil, "subst")
	sym.Assert(same(2, r, refSubst(item, old, t)), "every part that is eq to old is replaced")
	sym.Assert(same(2, t, before), "the tree is unchanged")
}

var patterns = []string{
	"a", "a*", "(a)(b)?", "(a|b)+", "^a", "b$", "a.b", "[ab]", "[^a]", "x*", "(a)|(b)", "", "a{2}", "(?i)A", "(", "[", "*", "\\d", "ab", "(a(b))",
}

// U01_Regexp: =~ gives the texts of all matches and their groups, =~i the places of the same, from the first match to
// the last; no match is nil, and a pattern that is none is an error.
func U01_Regexp() {
	pattern := patterns[sym.Choice("pattern", len(patterns))]
	s := text("text", sym.Choice("length", tierDepth(3)+1), "abA")
	re, rerr := regexp.Compile(pattern)
	for round := 0; round < 2; round++ {
		r, err := call("=~", l.String(pattern), l.String(s))
		sym.Assert((err == nil) == (rerr == nil), "an error just for a bad pattern")
		ri, erri := call("=~i", l.String(pattern), l.String(s))
		sym.Assert((erri == nil) == (rerr == nil), "an error just for a bad pattern")
		if rerr != nil {
			continue
		}
		all, index := re.FindAllStringSubmatch(s, -1), re.FindAllStringSubmatchIndex(s, -1)
		ms, mi := listElems(r), listElems(ri)
		sym.Assert(len(ms) == len(all) && len(mi) == len(all), "the number of matches")
		for i := range all {
			gs, gi := listElems(ms[i]), listElems(mi[i])
			sym.Assert(len(gs) == len(all[i]) && len(gi) == len(index[i]), "the number of groups")
			for j := range gs {
				sym.Assert(gs[j] == l.Node(l.String(all[i][j])), "the text of a group")
			}
			for j := range gi {
				sym.Assert(gi[j] == l.Node(l.Integer(index[i][j])), "the place of a group")
			}
		}
		length, err := call("length", r)
		sym.Assert(err == nil && length == l.Node(l.Integer(len(all))), "a proper list")
	}
}

// U01_Wildcard: the names of exactly the files that match, in order, as a proper list of strings.
func U01_Wildcard() {
	dir := strings.TrimSuffix(sym.TempName("x"), "x")
	names := []string{"a.lsp", "ab.lsp", "b.txt"}
	var have []string
	for _, name := range names {
		if sym.Choice("exists", 2) == 1 {
			sym.PutFile(sym.TempName(name), "")
			have = append(have, name)
		}
	}
	k := sym.Choice("pattern", 6)
	pattern := []string{"*", "*.lsp", "a*", "?.*", "b.txt", "none*"}[k]
	match := func(name string) bool {
		switch k {
		case 0:
			return true
		case 1:
			return strings.HasSuffix(name, ".lsp")
		case 2:
			return name[0] == 'a'
		case 3:
			return name[1] == '.'
		case 4:
			return name == "b.txt"
		}
		return false
	}
	r, err := call("wildcard", l.String(dir+pattern))
	sym.Assert(err == nil, "wildcard")
	n, err := call("length", r)
	sym.Assert(err == nil, "a proper list")
	got := listElems(r)
	sym.Assert(n == l.Node(l.Integer(len(got))), "a proper list")
	i := 0
	for _, name := range have {
		if match(name) {
			sym.Assert(i < len(got) && got[i] == l.Node(l.String(dir+name)), "the name of a file that matches")
			i++
		}
	}
	sym.Assert(i == len(got), "no other name")
	if len(got) == 0 {
		sym.Assert(r == l.Node(l.Null), "nil without a match")
	}
	sym.End()
}

// U01_Types: operands of another class are domain errors, wrong numbers of operands are errors.
func U01_Types() {
	_, err := run(d01setup)
	sym.Assert(err == nil, "setup")
	v := anything(sym.Choice("v", d01n))
	_, isString := v.(l.String)
	c := sym.Choice("call", 5)
	src := []string{"(=~ v \"a\")", "(=~ \"a\" v)", "(=~i v \"a\")", "(=~i \"a\" v)", "(wildcard v)"}[c]
	r, err := run("(catch 'k (with-handler (lambda (c) (throw 'k (if (instancep c (class <domain-error>)) (list (domain-error-object c) (domain-error-expected-class c)) c))) "+src+" 'fine))", "v", v)
	sym.Assert(err == nil, "the error reaches the handler")
	if isString {
		sym.Assert(r == l.Node(S("fine")), "a string is accepted: "+src)
	} else {
		e := listElems(r)
		sym.Assert(len(e) == 2 && rel("eq", e[0], v) && rel("eq", e[1], class("<string>")), "a domain error names the object: "+src)
	}
	for _, f := range []string{"(=~)", "(=~ \"a\")", "(=~i \"a\")", "(wildcard)", "(wildcard \"a\" \"b\")", "(subst 1 2)", "(subst 1 2 3 4)", "(=~ \"a\" \"b\" \"c\")"} {
		r, err := run("(catch 'k (with-handler (lambda (c) (throw 'k 'wrong)) " + f + "))")
		sym.Assert(err == nil && r == l.Node(S("wrong")), "the number of operands: "+f)
	}
}
