package main

import (
	"go/types"
	"regexp"
	"regexp/syntax"
	"sync"
	"unicode"
)

// Regular expressions: the pattern is always concrete and compiled by the real regexp
// package; matching against a string with symbolic bytes is encoded either as one Boolean
// term (MatchString) or as a forking backtracking search (sub-matches).

type rx struct {
	re   *regexp.Regexp
	prog *syntax.Prog
	asc  bool // every rune class lies below 0x80: byte-wise matching is exact
	cls  map[int][]uint64
}

var rxCache sync.Map

func compileRx(pat string) (*rx, error) {
	if r, ok := rxCache.Load(pat); ok {
		return r.(*rx), nil
	}
	re, err := regexp.Compile(pat)
	if err != nil {
		return nil, err
	}
	ast, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return nil, err
	}
	prog, err := syntax.Compile(ast.Simplify())
	if err != nil {
		return nil, err
	}
	r := &rx{re: re, prog: prog, asc: true, cls: map[int][]uint64{}}
	for pc := range prog.Inst {
		i := &prog.Inst[pc]
		switch i.Op {
		case syntax.InstRune, syntax.InstRune1:
			for _, c := range i.Rune {
				if c >= 0x80 {
					r.asc = false
				}
			}
			if syntax.Flags(i.Arg)&syntax.FoldCase != 0 {
				for _, c := range i.Rune {
					for f := unicode.SimpleFold(c); f != c; f = unicode.SimpleFold(f) {
						if f >= 0x80 {
							r.asc = false
						}
					}
				}
			}
			var rs []uint64
			for c := uint64(0); c < 128; {
				if !i.MatchRune(rune(c)) {
					c++
					continue
				}
				e := c
				for e+1 < 128 && i.MatchRune(rune(e+1)) {
					e++
				}
				rs = append(rs, c, e)
				c = e + 1
			}
			r.cls[pc] = rs
		case syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
			r.asc = false
		case syntax.InstEmptyWidth:
			if syntax.EmptyOp(i.Arg)&^(syntax.EmptyBeginText|syntax.EmptyEndText) != 0 {
				r.asc = false
			}
		}
	}
	rxCache.Store(pat, r)
	return r, nil
}

func emptyOK(op syntax.EmptyOp, pos, n int) bool {
	if op&syntax.EmptyBeginText != 0 && pos != 0 {
		return false
	}
	if op&syntax.EmptyEndText != 0 && pos != n {
		return false
	}
	return true
}

// match builds the Boolean term "r matches somewhere in b".
func (in *Interp) rxMatch(r *rx, b []Value) Value {
	tc := in.tc
	n := len(b)
	np := len(r.prog.Inst)
	acc := tc.False
	next := make([]*Term, np)
	for pos := 0; pos <= n; pos++ {
		cur := next
		next = make([]*Term, np)
		act := make([]*Term, np)
		var add func(pc int, t *Term)
		add = func(pc int, t *Term) {
			if t == tc.False {
				return
			}
			if act[pc] != nil {
				nt := tc.Or(act[pc], t)
				if nt == act[pc] {
					return
				}
				act[pc] = nt
			} else {
				act[pc] = t
			}
			i := &r.prog.Inst[pc]
			switch i.Op {
			case syntax.InstAlt, syntax.InstAltMatch:
				add(int(i.Out), t)
				add(int(i.Arg), t)
			case syntax.InstNop, syntax.InstCapture:
				add(int(i.Out), t)
			case syntax.InstEmptyWidth:
				if emptyOK(syntax.EmptyOp(i.Arg), pos, n) {
					add(int(i.Out), t)
				}
			case syntax.InstMatch:
				acc = tc.Or(acc, t)
			}
		}
		for pc, t := range cur {
			if t != nil {
				add(pc, t)
			}
		}
		add(r.prog.Start, tc.True)
		if pos == n {
			break
		}
		bt := in.intTerm(b[pos], 8)
		for pc, t := range act {
			if t == nil {
				continue
			}
			i := &r.prog.Inst[pc]
			if i.Op == syntax.InstRune || i.Op == syntax.InstRune1 {
				c := tc.And(t, in.rangesTerm(bt, r.cls[pc]...))
				if c == tc.False {
					continue
				}
				o := int(i.Out)
				if next[o] == nil {
					next[o] = c
				} else {
					next[o] = tc.Or(next[o], c)
				}
			}
		}
	}
	return lowerBool(acc)
}

// rxFind is leftmost-first backtracking; symbolic classes are decided by forking.
func (in *Interp) rxFind(r *rx, b []Value) []int {
	n := len(b)
	ncap := r.prog.NumCap
	type key struct{ pc, pos int }
	for start := 0; start <= n; start++ {
		caps := make([]int, ncap)
		for i := range caps {
			caps[i] = -1
		}
		seen := map[key]bool{}
		var bt func(pc, pos int) bool
		bt = func(pc, pos int) bool {
			k := key{pc, pos}
			if seen[k] {
				return false
			}
			seen[k] = true
			i := &r.prog.Inst[pc]
			switch i.Op {
			case syntax.InstAlt, syntax.InstAltMatch:
				return bt(int(i.Out), pos) || bt(int(i.Arg), pos)
			case syntax.InstNop:
				return bt(int(i.Out), pos)
			case syntax.InstCapture:
				old := caps[i.Arg]
				caps[i.Arg] = pos
				if bt(int(i.Out), pos) {
					return true
				}
				caps[i.Arg] = old
				return false
			case syntax.InstEmptyWidth:
				return emptyOK(syntax.EmptyOp(i.Arg), pos, n) && bt(int(i.Out), pos)
			case syntax.InstMatch:
				caps[0] = start
				caps[1] = pos
				return true
			case syntax.InstRune, syntax.InstRune1:
				if pos >= n {
					return false
				}
				return in.branch(in.rangesTerm(in.intTerm(b[pos], 8), r.cls[pc]...)) && bt(int(i.Out), pos+1)
			}
			return false
		}
		if bt(r.prog.Start, start) {
			return caps
		}
	}
	return nil
}

func ints(x []int) Slice {
	if x == nil {
		return nil
	}
	r := make(Slice, len(x))
	for i, v := range x {
		r[i] = int64(v)
	}
	return r
}

func registerRegexp(p *Program) {
	N := p.natives
	get := func(in *Interp, v Value) *rx { return in.nativeOf(v).(*rx) }
	N["regexp.MustCompile"] = func(in *Interp, fr *Frame, a []Value) Value {
		r, err := compileRx(in.concString(a[0]))
		if err != nil {
			in.rtPanicPlain("regexp: Compile: " + err.Error())
		}
		return newNative(r)
	}
	N["regexp.Compile"] = func(in *Interp, fr *Frame, a []Value) Value {
		s := in.concString(a[0])
		r, err := compileRx(s)
		if err != nil {
			se := err.(*syntax.Error)
			c := new(Value)
			*c = Struct{string(se.Code), se.Expr}
			return Tuple{Ptr(nil), Iface{rtypeOf(types.NewPointer(in.p.typeByName("regexp/syntax", "Error"))), c}}
		}
		return Tuple{newNative(r), Iface{}}
	}
	N["(*regexp.Regexp).String"] = func(in *Interp, fr *Frame, a []Value) Value { return get(in, a[0]).re.String() }
	N["(*regexp.Regexp).MatchString"] = func(in *Interp, fr *Frame, a []Value) Value {
		r := get(in, a[0])
		s := in.force(a[1])
		if c, ok := s.(string); ok {
			return r.re.MatchString(c)
		}
		if r.asc {
			return in.rxMatch(r, s.(*SymStr).b)
		}
		return r.re.MatchString(in.concString(s))
	}
	find := func(in *Interp, r *rx, v Value) ([]int, Value) {
		s := in.force(v)
		if c, ok := s.(string); ok {
			return r.re.FindStringSubmatchIndex(c), s
		}
		if r.asc {
			return in.rxFind(r, s.(*SymStr).b), s
		}
		c := in.concString(s)
		return r.re.FindStringSubmatchIndex(c), c
	}
	N["(*regexp.Regexp).FindStringSubmatchIndex"] = func(in *Interp, fr *Frame, a []Value) Value {
		ix, _ := find(in, get(in, a[0]), a[1])
		return ints(ix)
	}
	N["(*regexp.Regexp).FindStringSubmatch"] = func(in *Interp, fr *Frame, a []Value) Value {
		ix, s := find(in, get(in, a[0]), a[1])
		if ix == nil {
			return Slice(nil)
		}
		r := make(Slice, len(ix)/2)
		for i := range r {
			if ix[2*i] < 0 {
				r[i] = ""
			} else {
				r[i] = in.strSlice(s, ix[2*i], ix[2*i+1])
			}
		}
		return r
	}
	N["(*regexp.Regexp).FindString"] = func(in *Interp, fr *Frame, a []Value) Value {
		ix, s := find(in, get(in, a[0]), a[1])
		if ix == nil {
			return ""
		}
		return in.strSlice(s, ix[0], ix[1])
	}
	N["(*regexp.Regexp).FindAllStringSubmatch"] = func(in *Interp, fr *Frame, a []Value) Value {
		x := get(in, a[0]).re.FindAllStringSubmatch(in.concString(a[1]), int(in.concInt(a[2], i64)))
		if x == nil {
			return Slice(nil)
		}
		r := make(Slice, len(x))
		for i := range x {
			r[i] = goStrings(x[i])
		}
		return r
	}
	N["(*regexp.Regexp).FindAllStringSubmatchIndex"] = func(in *Interp, fr *Frame, a []Value) Value {
		x := get(in, a[0]).re.FindAllStringSubmatchIndex(in.concString(a[1]), int(in.concInt(a[2], i64)))
		if x == nil {
			return Slice(nil)
		}
		r := make(Slice, len(x))
		for i := range x {
			r[i] = ints(x[i])
		}
		return r
	}
	N["(*regexp.Regexp).ReplaceAllString"] = func(in *Interp, fr *Frame, a []Value) Value {
		return get(in, a[0]).re.ReplaceAllString(in.concString(a[1]), in.concString(a[2]))
	}
	N["regexp.QuoteMeta"] = func(in *Interp, fr *Frame, a []Value) Value {
		return regexp.QuoteMeta(in.concString(a[0]))
	}
}
