package h

import (
	"errors"
	"strings"

	l "github.com/hymkor/gmnlisp"
	"gmnverif/sym"
)

// text is a string of n symbolic bytes drawn from alphabet (every byte when it is empty).
func text(label string, n int, alphabet string) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = sym.Byte(label)
		if alphabet != "" {
			sym.Assume(strings.IndexByte(alphabet, b[i]) >= 0)
		}
	}
	return sym.BytesString(b...)
}

func readAll(s string) ([]l.Node, error) { return l.ReadAll(strings.NewReader(s)) }

// C01_Bytes: every byte string of length 0..2 (thorough 0..3): reading returns.
func C01_Bytes() {
	max := 2
	if sym.Thorough() {
		max = 3
	}
	s := text("b", sym.Choice("n", max+1), "")
	forms, err := readAll(s)
	sym.Assert(err != nil || forms != nil, "forms or an error")
	for _, f := range forms {
		sym.Assert(f != nil, "nil form")
	}
	sym.ObserveBool("ok", err == nil)
}

// C01_Alphabet: every string of length 3..4 (thorough 5) over ( ) ' # | \ " ; , ` space newline a A 1 : . -
func C01_Alphabet() {
	n := 3 + sym.Choice("n", 2)
	if sym.Thorough() {
		n = 5
	}
	s := text("b", n, "()'#|\\\";,` \naA1:.-")
	forms, err := readAll(s)
	sym.Assert(err != nil || forms != nil, "forms or an error")
	for _, f := range forms {
		sym.Assert(f != nil, "nil form")
	}
	sym.ObserveBool("ok", err == nil)
}

// C01_Dispatch: '#' followed by up to three (thorough four) characters of 0 1 9 a A x b o U \ ' ( ) | space
// with prefix "(", "" or "#(".
func C01_Dispatch() {
	max := 3
	if sym.Thorough() {
		max = 4
	}
	pre := []string{"", "(", "#(", "'"}[sym.Choice("pre", 4)]
	s := pre + "#" + text("b", sym.Choice("n", max+1), "019aAxboU\\'()| ")
	_, err := readAll(s)
	sym.ObserveBool("ok", err == nil)
}

// C01_HugeRank: #nA( with n of one to three symbolic digits repeated up to 18 times, never allocates n.
func C01_HugeRank() {
	d := text("d", 1+sym.Choice("n", 3), "0123456789")
	rep := []int{1, 2, 4, 6}[sym.Choice("rep", 4)]
	a := []string{"a", "A"}[sym.Choice("a", 2)]
	body := []string{"(1 2)", "(", "((1))"}[sym.Choice("body", 3)]
	_, err := readAll("#" + strings.Repeat(d, rep) + a + body)
	sym.ObserveBool("ok", err == nil)
}

// incomplete is a reference scanner over ASCII text without backslashes: does the text end inside a list,
// after a quote prefix, inside a string, a |symbol| or a block comment?
func incomplete(s string) bool {
	depth := 0
	prefix := false // a quote prefix waits for its form
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\n':
			i++
		case c == ';':
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case c == '#' && i+1 < len(s) && s[i+1] == '|':
			nest := 1
			i += 2
			for nest > 0 {
				if i+1 >= len(s) {
					return true
				}
				if s[i] == '|' && s[i+1] == '#' {
					nest--
					i += 2
				} else if s[i] == '#' && s[i+1] == '|' {
					nest++
					i += 2
				} else {
					i++
				}
			}
		case c == '\'' || c == '`' || c == ',':
			prefix = true
			i++
		case c == '#' && i+1 < len(s) && s[i+1] == '\'':
			prefix = true
			i += 2
		case c == '(' || c == '#' && i+1 < len(s) && s[i+1] == '(':
			if c == '#' {
				i++
			}
			depth++
			prefix = false
			i++
		case c == ')':
			if depth > 0 {
				depth--
			}
			prefix = false
			i++
		default:
			quote, bar := false, false
			for i < len(s) {
				c := s[i]
				if !quote && !bar {
					if c == ' ' || c == '\n' || c == ';' || c == '(' || c == ')' {
						break
					}
					if c == '#' && i+1 < len(s) && s[i+1] == '|' {
						break
					}
				}
				if c == '"' && !bar {
					quote = !quote
				}
				if c == '|' && !quote {
					bar = !bar
				}
				i++
			}
			if quote || bar {
				return true
			}
			prefix = false
		}
	}
	return depth > 0 || prefix
}

// C01_Incomplete: every string of length 1..4 (thorough 5) over ( ) ' ` # | " ; space newline a: a text
// that ends inside something is an error, not a shortened program.
func C01_Incomplete() {
	n := 1 + sym.Choice("n", 4)
	if sym.Thorough() {
		n = 5
	}
	s := text("b", n, "()'`,#|\"; \na")
	// quote prefixes in front of ")" and stray ")" are outside this harness
	sym.Assume(!strings.Contains(s, "')"))
	sym.Assume(!strings.Contains(s, "`)"))
	sym.Assume(!strings.Contains(s, ",)"))
	_, err := readAll(s)
	sym.ObserveBool("ok", err == nil)
	if incomplete(s) {
		sym.Reach("incomplete")
		sym.Assert(err != nil, "incomplete text is accepted")
	}
}

// C01_Cut: each of a set of well-formed programs, cut at every position: the cut text is an error or
// reads exactly the forms completed before the cut.
func C01_Cut() {
	progs := []string{
		`(a "b;c" #\d)`, `'(1 . 2)`, `#|x|# (y)`, `#2a((1 2)(3 4))`, `(quote |a b|)`, "`(a ,b)", `(#'car)`, `#(1 "x")`, `"\\\"" 5`,
	}
	s := progs[sym.Choice("prog", len(progs))]
	i := sym.Choice("cut", 20)
	sym.Assume(i <= len(s))
	whole, err := readAll(s)
	sym.Assert(err == nil, "whole program")
	part, err := readAll(s[:i])
	if err != nil {
		sym.Assert(i < len(s), "error")
		return
	}
	sym.Assert(len(part) <= len(whole), "more forms than the whole")
	for k, f := range part {
		if k < len(part)-1 {
			sym.Assert(f.Equals(whole[k], l.EQUAL), "an earlier form changed")
		} else if _, isCons := f.(*l.Cons); isCons {
			sym.Assert(f.Equals(whole[k], l.EQUAL), "a shortened list is accepted")
		} else if _, isString := f.(l.String); isString {
			sym.Assert(f.Equals(whole[k], l.EQUAL), "a shortened string is accepted")
		}
	}
}

// C01_Reader: read errors other than the end of the text are reported, at every position.
func C01_Reader() {
	s := `(a "b" #|c|# 'd #(1))`
	i := sym.Choice("at", len(s)+1)
	r := &failing{s: s, at: i}
	_, err := l.ReadAll(r)
	sym.Assert(errors.Is(err, errBroken), "read error lost")
}

var errBroken = errors.New("broken")

type failing struct {
	s  string
	i  int
	at int
}

func (f *failing) ReadRune() (rune, int, error) {
	if f.i >= f.at {
		f.i++
		return 0, 0, errBroken
	}
	f.i++
	return rune(f.s[f.i-1]), 1, nil
}

func (f *failing) UnreadRune() error { f.i--; return nil }

// C01_Interpret: a complete form followed by an incomplete one is an error of Interpret, InterpretBytes and
// load alike, whatever white space or comment comes last.
func C01_Interpret() {
	open := []string{"'", "`", ",", "#'", "(", "(1 '", "#(", "#(1 '", "\"a", "|a", "#|a", "#| #| |#", "(a . ", "#2a((1)", "'(1 ,"}
	s := "1 " + open[sym.Choice("open", len(open))] + text("t", sym.Choice("n", 3), " \n") +
		[]string{"", "; c", "#|c|#"}[sym.Choice("comment", 3)]
	var err error
	if sym.Choice("by", 2) == 0 {
		_, err = W.Interpret(ctx, s)
	} else {
		_, err = W.InterpretBytes(ctx, []byte(s))
	}
	sym.Assert(err != nil, "incomplete text is accepted")
}

// C01_Arrays: the text of an array of two or three dimensions, of lists of 0 to 3 (thorough 4) elements, is read
// when all lists of one depth have the same length, as the array of its elements, and is an error otherwise.
func C01_Arrays() {
	rank := 2 + sym.Choice("rank", 2)
	most := 4
	if rank == 3 {
		most = 3
	}
	if sym.Thorough() {
		most++
	}
	var elems []l.Node
	regular := true
	dims := make([]int, rank)
	fixed := make([]bool, rank)
	var list func(depth int) string
	list = func(depth int) string {
		n := sym.Choice("length", most)
		if !fixed[depth] {
			fixed[depth] = true
			dims[depth] = n
		} else if dims[depth] != n {
			regular = false
		}
		s := "("
		for i := 0; i < n; i++ {
			if i > 0 {
				s += " "
			}
			if depth+1 < rank {
				s += list(depth + 1)
			} else {
				s += string(rune('a' + len(elems)))
				elems = append(elems, S(string(rune('a'+len(elems)))))
			}
		}
		return s + ")"
	}
	body := list(0)
	nodes, err := readAll("#" + string(rune('0'+rank)) + "a" + body + " end")
	sym.Assert((err == nil) == regular, "an array is read exactly when its rows have one length: "+body)
	if err != nil {
		return
	}
	sym.Assert(len(nodes) == 2 && nodes[1] == l.Node(S("end")), "what follows an array: "+body)
	got := listElems(okCall("array-dimensions", nodes[0]))
	sym.Assert(len(got) == rank, "the number of dimensions: "+body)
	for i, d := range got {
		sym.Assert(d == l.Node(l.Integer(dims[i])), "the dimensions: "+body)
	}
	for i, e := range elems {
		args := []l.Node{nodes[0]}
		k := i
		at := make([]l.Node, rank)
		for j := rank - 1; j >= 0; j-- {
			at[j] = l.Integer(k % dims[j])
			k /= dims[j]
		}
		sym.Assert(okCall("aref", append(args, at...)...) == e, "the elements: "+body)
	}
}
