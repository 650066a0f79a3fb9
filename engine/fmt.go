package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Model of the formatting half of package fmt (which is reflection-based and therefore
// not executed from its SSA): the directives are interpreted over run-time values, and
// Error/String/GoString methods of the code under test are executed from their SSA.

type fspec struct {
	verb                            rune
	sharp, plus, minus, zero, space bool
	wid, prec                       int
	hasWid, hasPrec                 bool
}

type fmtOut struct {
	in *Interp
	v  Value
}

func (o *fmtOut) add(v Value) {
	o.v = o.in.strConcat(o.v, v)
}

func (in *Interp) runeCount(s Value) int {
	switch x := in.force(s).(type) {
	case string:
		return utf8.RuneCountInString(x)
	case *SymStr:
		it := &strIter{s: x}
		n := 0
		for it.next(in).(Tuple)[0] == true {
			n++
		}
		return n
	}
	panic("runeCount")
}

func (in *Interp) pad(f *fspec, s Value) Value {
	if !f.hasWid || f.wid == 0 {
		return s
	}
	n := f.wid - in.runeCount(s)
	if n <= 0 {
		return s
	}
	if f.minus {
		return in.strConcat(s, strings.Repeat(" ", n))
	}
	if f.zero {
		return in.strConcat(strings.Repeat("0", n), s)
	}
	return in.strConcat(strings.Repeat(" ", n), s)
}

func (in *Interp) catchFmt(f *fspec, recv Value, kind string, call func() Value) (r Value) {
	n, d := len(in.stack), in.depth
	defer func() {
		if x := recover(); x != nil {
			gp, ok := x.(*goPanic)
			if !ok || gp.fatal != "" {
				panic(x)
			}
			in.stack, in.depth = in.stack[:n], d
			if p, ok := recv.(Ptr); ok && p == nil {
				r = "<nil>"
				return
			}
			r = "%!" + string(f.verb) + "(PANIC=" + kind + " method: " + in.panicText(gp) + ")"
		}
	}()
	return call()
}

func isStringMethod(fn *Fn) bool {
	if fn == nil {
		return false
	}
	s := fn.f.Signature
	if s.Params().Len() != 0 || s.Results().Len() != 1 {
		return false
	}
	b, ok := s.Results().At(0).Type().(*types.Basic)
	return ok && b.Kind() == types.String
}

func (in *Interp) fmtArg(f *fspec, arg Iface, depth int) Value {
	if arg.t == nil {
		switch f.verb {
		case 'T', 'v':
			return in.pad(f, "<nil>")
		}
		return "%!" + string(f.verb) + "(<nil>)"
	}
	if f.verb == 'T' {
		return in.pad(f, arg.t.String())
	}
	if f.verb != 'p' {
		p := in.p
		if fn := p.methodByName(arg.t, "Format"); fn != nil && fn.f.Signature.Params().Len() == 2 {
			in.unsupported("fmt.Formatter of %s", arg.t)
		}
		if f.sharp && f.verb == 'v' {
			if fn := p.methodByName(arg.t, "GoString"); isStringMethod(fn) {
				s := in.catchFmt(f, arg.v, "GoString", func() Value { return in.call(fn, []Value{arg.v}, nil, nil) })
				g := *f
				g.sharp = false
				g.verb = 's'
				return in.fmtStr(&g, s)
			}
		} else {
			switch f.verb {
			case 'v', 's', 'x', 'X', 'q':
				for _, m := range []string{"Error", "String"} {
					if fn := p.methodByName(arg.t, m); isStringMethod(fn) {
						s := in.catchFmt(f, arg.v, m, func() Value { return in.call(fn, []Value{arg.v}, nil, nil) })
						g := *f
						if g.verb == 'v' {
							g.verb = 's'
						}
						return in.fmtStr(&g, s)
					}
				}
			}
		}
	}
	return in.fmtVal(f, arg.t.t, arg.v, depth)
}

func (in *Interp) fmtStr(f *fspec, s Value) Value {
	if f.hasPrec {
		if c, ok := in.force(s).(string); ok {
			if r := []rune(c); len(r) > f.prec {
				s = string(r[:f.prec])
			}
		} else {
			in.unsupported("precision on a symbolic string")
		}
	}
	switch f.verb {
	case 's', 'v':
		if f.verb == 'v' && f.sharp {
			s = in.quote(s)
		}
		return in.pad(f, s)
	case 'q':
		return in.pad(f, in.quote(s))
	case 'x', 'X':
		h := "0123456789abcdef"
		if f.verb == 'X' {
			h = "0123456789ABCDEF"
		}
		c := in.concString(s)
		var sb strings.Builder
		for i := 0; i < len(c); i++ {
			sb.WriteByte(h[c[i]>>4])
			sb.WriteByte(h[c[i]&15])
		}
		return in.pad(f, sb.String())
	}
	return in.strConcat("%!"+string(f.verb)+"(string=", in.strConcat(s, ")"))
}

func (in *Interp) quote(s Value) Value {
	if c, ok := in.force(s).(string); ok {
		return strconv.Quote(c)
	}
	return in.call(in.p.funcByName("strconv", "Quote"), []Value{in.force(s)}, nil, nil)
}

func (in *Interp) fmtIntegerV(f *fspec, v Value, ii intInfo, base int, upper bool) Value {
	var s Value
	if x, ok := v.(int64); ok {
		if ii.signed {
			s = strconv.FormatInt(x, base)
		} else {
			s = strconv.FormatUint(uint64(x), base)
		}
		c := s.(string)
		if upper {
			c = strings.ToUpper(c)
		}
		neg := strings.HasPrefix(c, "-")
		d := strings.TrimPrefix(c, "-")
		if f.hasPrec {
			if f.prec == 0 && x == 0 {
				d = ""
			}
			for len(d) < f.prec {
				d = "0" + d
			}
		} else if f.zero && !f.minus && f.hasWid {
			w := f.wid
			if neg || f.plus || f.space {
				w--
			}
			for len(d) < w {
				d = "0" + d
			}
		}
		if f.sharp {
			switch base {
			case 16:
				if upper {
					d = "0X" + d
				} else {
					d = "0x" + d
				}
			case 2:
				d = "0b" + d
			case 8:
				if !strings.HasPrefix(d, "0") {
					d = "0" + d
				}
			}
		}
		switch {
		case neg:
			d = "-" + d
		case f.plus:
			d = "+" + d
		case f.space:
			d = " " + d
		}
		g := *f
		g.zero = false
		return in.pad(&g, d)
	}
	if f.sharp || f.hasPrec {
		in.unsupported("symbolic integer with flags")
	}
	tv := in.fmtInt(v, ii, base)
	if upper {
		var out []Value
		for _, b := range in.strBytes(tv) {
			t := in.intTerm(b, 8)
			out = append(out, intInfo{8, false}.lower(in.tc.Ite(in.rangesTerm(t, 'a', 'z'), in.tc.Bin(OpSub, t, in.tc.BV(32, 8)), t)))
		}
		tv = mkStr(out)
	}
	b := in.strBytes(tv)
	neg := len(b) > 0 && b[0] == Value(int64('-'))
	if neg {
		b = b[1:]
	}
	b = append([]Value{}, b...)
	if f.zero && !f.minus && f.hasWid {
		w := f.wid
		if neg || f.plus || f.space {
			w--
		}
		for len(b) < w {
			b = append([]Value{int64('0')}, b...)
		}
	}
	switch {
	case neg:
		b = append([]Value{int64('-')}, b...)
	case f.plus:
		b = append([]Value{int64('+')}, b...)
	case f.space:
		b = append([]Value{int64(' ')}, b...)
	}
	g := *f
	g.zero = false
	return in.pad(&g, mkStr(b))
}

func (in *Interp) bad(f *fspec, t types.Type, v Value, depth int) Value {
	g := fspec{verb: 'v'}
	return in.strConcat("%!"+string(f.verb)+"("+typeString(t)+"=", in.strConcat(in.fmtVal(&g, t, v, depth), ")"))
}

func (in *Interp) fmtVal(f *fspec, t types.Type, v Value, depth int) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			switch f.verb {
			case 's', 'v', 'q', 'x', 'X':
				return in.fmtStr(f, v)
			}
			return in.bad(f, t, v, depth)
		case u.Info()&types.IsBoolean != 0:
			if f.verb == 't' || f.verb == 'v' {
				if in.truth(v) {
					return in.pad(f, "true")
				}
				return in.pad(f, "false")
			}
			return in.bad(f, t, v, depth)
		case u.Info()&types.IsInteger != 0:
			ii, _ := intInfoOf(t)
			switch f.verb {
			case 'v':
				if f.sharp && !ii.signed {
					return in.fmtIntegerV(f, v, ii, 16, false)
				}
				g := *f
				g.sharp = false
				return in.fmtIntegerV(&g, v, ii, 10, false)
			case 'd':
				g := *f
				g.sharp = false
				return in.fmtIntegerV(&g, v, ii, 10, false)
			case 'x', 'X':
				return in.fmtIntegerV(f, v, ii, 16, f.verb == 'X')
			case 'o':
				return in.fmtIntegerV(f, v, ii, 8, false)
			case 'b':
				return in.fmtIntegerV(f, v, ii, 2, false)
			case 'c':
				return in.pad(f, in.runeToStr(v, ii))
			case 'q':
				r := in.concInt(v, ii)
				return in.pad(f, strconv.QuoteRune(rune(r)))
			case 'U':
				g := *f
				g.sharp = false
				g.hasPrec, g.prec = false, 0
				s := in.fmtIntegerV(&fspec{verb: 'X', hasWid: true, wid: 4, zero: true}, v, ii, 16, true)
				return in.pad(f, in.strConcat("U+", s))
			}
			return in.bad(f, t, v, depth)
		case u.Info()&types.IsFloat != 0:
			return in.fmtFloat(f, t, v, depth)
		}
	case *types.Slice:
		s, _ := v.(Slice)
		if f.verb != 'v' && f.verb != 'd' && f.verb != 's' {
			in.unsupported("fmt %%%c of %s", f.verb, t)
		}
		if e, ok := u.Elem().Underlying().(*types.Basic); ok && e.Kind() == types.Uint8 && f.verb == 's' {
			return in.fmtStr(f, mkStr(s))
		}
		if f.sharp {
			in.unsupported("fmt %%#v of %s", t)
		}
		return in.fmtSeq("[", "]", f, u.Elem(), s, depth)
	case *types.Array:
		if f.sharp {
			in.unsupported("fmt %%#v of %s", t)
		}
		return in.fmtSeq("[", "]", f, u.Elem(), v.(Array), depth)
	case *types.Struct:
		if f.sharp && f.verb == 'v' && u.NumFields() == 0 {
			return typeString(t) + "{}"
		}
		if f.sharp || f.verb != 'v' && f.verb != 's' {
			in.unsupported("fmt %%#v of %s", t)
		}
		var o Value = "{"
		st := v.(Struct)
		for i := range st {
			if i > 0 {
				o = in.strConcat(o, " ")
			}
			o = in.strConcat(o, in.fmtAny(f, u.Field(i).Type(), st[i], depth+1, u.Field(i).Exported()))
		}
		return in.strConcat(o, "}")
	case *types.Pointer:
		p, _ := v.(Ptr)
		if p == nil {
			if f.verb == 'v' {
				return in.pad(f, "<nil>")
			}
			return "%!" + string(f.verb) + "(" + typeString(t) + "=<nil>)"
		}
		if depth == 0 {
			if _, ok := u.Elem().Underlying().(*types.Struct); ok && !f.sharp && f.verb == 'v' {
				return in.strConcat("&", in.fmtVal(f, u.Elem(), *p, depth+1))
			}
		}
		return in.fmtAddr(f, t, addrOf(p))
	case *types.Signature:
		if c, _ := v.(*Closure); c != nil {
			return in.fmtAddr(f, t, addrOf(c))
		}
		return "<nil>"
	case *types.Map:
		if m, _ := v.(*Map); m == nil || m.n == 0 {
			if f.sharp {
				return typeString(t) + "{}"
			}
			return "map[]"
		}
	}
	in.unsupported("fmt %%%c of %s", f.verb, t)
	return nil
}

func (in *Interp) fmtAny(f *fspec, t types.Type, v Value, depth int, exported bool) Value {
	if _, ok := t.Underlying().(*types.Interface); ok {
		x := v.(Iface)
		if x.t == nil {
			return "<nil>"
		}
		if !exported {
			return in.fmtVal(f, x.t.t, x.v, depth)
		}
		return in.fmtArg(f, x, depth)
	}
	if !exported {
		return in.fmtVal(f, t, v, depth)
	}
	return in.fmtArg(f, Iface{rtypeOf(t), v}, depth)
}

func (in *Interp) fmtSeq(l, r string, f *fspec, et types.Type, s []Value, depth int) Value {
	var o Value = l
	for i, e := range s {
		if i > 0 {
			o = in.strConcat(o, " ")
		}
		o = in.strConcat(o, in.fmtAny(f, et, e, depth+1, true))
	}
	return in.strConcat(o, r)
}

func (in *Interp) runeToStr(v Value, ii intInfo) Value {
	if x, ok := v.(int64); ok {
		if x < 0 || x > utf8.MaxRune {
			return string(utf8.RuneError)
		}
		return string(rune(x))
	}
	t := v.(*Term)
	if ii.signed {
		t = in.tc.Sext(t, 64)
	} else {
		t = in.tc.Zext(t, 64)
	}
	return mkStr(in.encodeRune(t))
}

func (in *Interp) fmtFloat(f *fspec, t types.Type, v Value, depth int) Value {
	x, ok := v.(float64)
	if !ok {
		in.unsupported("formatting a symbolic float")
	}
	verb := byte(f.verb)
	prec := -1
	switch f.verb {
	case 'v':
		verb = 'g'
	case 'g', 'G':
	case 'e', 'E', 'f', 'F':
		prec = 6
		if verb == 'F' {
			verb = 'f'
		}
	default:
		return in.bad(f, t, v, depth)
	}
	if f.hasPrec {
		prec = f.prec
	}
	if f.sharp && f.verb != 'v' {
		in.unsupported("%%# on float")
	}
	bits := 64
	if b := t.Underlying().(*types.Basic); b.Kind() == types.Float32 {
		bits = 32
	}
	s := strconv.FormatFloat(x, verb, prec, bits)
	if f.verb == 'v' {
		// %v is %!g with exponent threshold 21
		if s2, ok := shortestG(x, bits, prec); ok {
			s = s2
		}
	}
	neg := strings.HasPrefix(s, "-")
	inf := math.IsInf(x, 0) || x != x
	if math.IsInf(x, 1) {
		s = "+Inf"
	}
	d := strings.TrimLeft(s, "+-")
	sign := ""
	switch {
	case neg:
		sign = "-"
	case f.plus || math.IsInf(x, 1):
		sign = "+"
	case f.space:
		sign = " "
	}
	if f.zero && !f.minus && f.hasWid && !inf {
		for len(d)+len(sign) < f.wid {
			d = "0" + d
		}
	}
	g := *f
	g.zero = false
	return in.pad(&g, sign+d)
}

// shortestG: fmt's %v uses %g but with the exponent threshold at 21.
func shortestG(x float64, bits, prec int) (string, bool) {
	if prec >= 0 || math.IsInf(x, 0) || x != x {
		return "", false
	}
	e := strconv.FormatFloat(x, 'e', -1, bits)
	i := strings.IndexByte(e, 'e')
	exp, _ := strconv.Atoi(e[i+1:])
	if exp < -4 || exp >= 21 {
		return e, true
	}
	return strconv.FormatFloat(x, 'f', -1, bits), true
}

func (in *Interp) sprintf(format string, args []Value) (Value, []int) {
	o := &fmtOut{in, ""}
	var wrapped []int
	argNum, reordered := 0, false
	end := len(format)
	for i := 0; i < end; {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			o.add(format[i:])
			break
		}
		o.add(format[i : i+j])
		i += j + 1
		f := &fspec{}
	flags:
		for ; i < end; i++ {
			switch format[i] {
			case '#':
				f.sharp = true
			case '0':
				f.zero = true
			case '+':
				f.plus = true
			case '-':
				f.minus = true
			case ' ':
				f.space = true
			default:
				break flags
			}
		}
		num := func() (int, bool) {
			n, ok := 0, false
			for i < end && format[i] >= '0' && format[i] <= '9' {
				n = n*10 + int(format[i]-'0')
				if n > 1000000 {
					n = 1000001
				}
				ok = true
				i++
			}
			if n > 1000000 {
				return 0, false
			}
			return n, ok
		}
		star := func() (int, bool) {
			i++
			if argNum < len(args) {
				a := args[argNum].(Iface)
				argNum++
				if ii, ok := intInfoOf(a.t.t); ok {
					n := in.concInt(a.v, ii)
					if n > 1000000 || n < -1000000 {
						o.add("%!(BADWIDTH)")
						return 0, false
					}
					return int(n), true
				}
			}
			o.add("%!(BADWIDTH)")
			return 0, false
		}
		index := func() {
			if i >= end || format[i] != '[' {
				return
			}
			i++
			n, ok := num()
			if !ok || n < 1 || n > len(args) || i >= end || format[i] != ']' {
				in.unsupported("bad index of fmt arguments")
			}
			i++
			argNum = n - 1
			reordered = true
		}
		index()
		if i < end && format[i] == '*' {
			f.wid, f.hasWid = star()
			if f.wid < 0 {
				f.wid = -f.wid
				f.minus = true
				f.zero = false
			}
		} else {
			f.wid, f.hasWid = num()
		}
		if i < end && format[i] == '.' {
			i++
			index()
			if i < end && format[i] == '*' {
				f.prec, f.hasPrec = star()
				if f.prec < 0 {
					f.prec, f.hasPrec = 0, false
				}
			} else {
				f.prec, f.hasPrec = num()
				if !f.hasPrec {
					f.prec, f.hasPrec = 0, true
				}
			}
		}
		index()
		if f.minus {
			f.zero = false
		}
		if i >= end {
			o.add("%!(NOVERB)")
			break
		}
		r, sz := utf8.DecodeRuneInString(format[i:])
		i += sz
		f.verb = r
		if r == '%' {
			o.add("%")
			continue
		}
		if argNum >= len(args) {
			o.add("%!" + string(r) + "(MISSING)")
			continue
		}
		a := args[argNum].(Iface)
		if r == 'w' {
			wrapped = append(wrapped, argNum)
			f.verb = 'v'
		}
		argNum++
		o.add(in.fmtArg(f, a, 0))
	}
	if !reordered && argNum < len(args) {
		o.add("%!(EXTRA ")
		for k := argNum; k < len(args); k++ {
			if k > argNum {
				o.add(", ")
			}
			a := args[k].(Iface)
			if a.t == nil {
				o.add("<nil>")
			} else {
				o.add(a.t.String() + "=")
				o.add(in.fmtArg(&fspec{verb: 'v'}, a, 0))
			}
		}
		o.add(")")
	}
	return o.v, wrapped
}

func (in *Interp) sprint(args []Value, ln bool) Value {
	var o Value = ""
	prevStr := false
	for i, x := range args {
		a := x.(Iface)
		isStr := false
		if a.t != nil {
			if b, ok := a.t.t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				isStr = true
			}
		}
		if i > 0 && (ln || !isStr && !prevStr) {
			o = in.strConcat(o, " ")
		}
		o = in.strConcat(o, in.fmtArg(&fspec{verb: 'v'}, a, 0))
		prevStr = isStr
	}
	if ln {
		o = in.strConcat(o, "\n")
	}
	return o
}

func (in *Interp) writeTo(w Value, s Value) Value {
	x := w.(Iface)
	if x.t == nil {
		in.nilDeref()
	}
	fn := in.p.methodByName(x.t, "Write")
	b := in.strBytes(s)
	sl := make(Slice, len(b))
	copy(sl, b)
	return in.call(fn, []Value{x.v, sl}, nil, nil)
}

func registerFmt(p *Program) {
	N := p.natives
	args := func(v Value) []Value { s, _ := v.(Slice); return s }
	N["fmt.Sprintf"] = func(in *Interp, fr *Frame, a []Value) Value {
		s, _ := in.sprintf(in.concString(a[0]), args(a[1]))
		return s
	}
	N["fmt.Sprint"] = func(in *Interp, fr *Frame, a []Value) Value { return in.sprint(args(a[0]), false) }
	N["fmt.Sprintln"] = func(in *Interp, fr *Frame, a []Value) Value { return in.sprint(args(a[0]), true) }
	N["fmt.Fprintf"] = func(in *Interp, fr *Frame, a []Value) Value {
		s, _ := in.sprintf(in.concString(a[1]), args(a[2]))
		return in.writeTo(a[0], s)
	}
	N["fmt.Fprint"] = func(in *Interp, fr *Frame, a []Value) Value {
		return in.writeTo(a[0], in.sprint(args(a[1]), false))
	}
	N["fmt.Fprintln"] = func(in *Interp, fr *Frame, a []Value) Value {
		return in.writeTo(a[0], in.sprint(args(a[1]), true))
	}
	appended := func(in *Interp, b Value, s Value) Value {
		old, _ := b.(Slice)
		return append(old[:len(old):len(old)], in.strBytes(s)...)
	}
	N["fmt.Appendf"] = func(in *Interp, fr *Frame, a []Value) Value {
		s, _ := in.sprintf(in.concString(a[1]), args(a[2]))
		return appended(in, a[0], s)
	}
	N["fmt.Append"] = func(in *Interp, fr *Frame, a []Value) Value { return appended(in, a[0], in.sprint(args(a[1]), false)) }
	N["fmt.Appendln"] = func(in *Interp, fr *Frame, a []Value) Value { return appended(in, a[0], in.sprint(args(a[1]), true)) }
	discard := func(in *Interp, fr *Frame, a []Value) Value { return Tuple{int64(0), Iface{}} }
	N["fmt.Printf"], N["fmt.Println"], N["fmt.Print"] = discard, discard, discard
	N["fmt.Errorf"] = func(in *Interp, fr *Frame, a []Value) Value {
		format := in.concString(a[0])
		av := append([]Value{}, args(a[1])...)
		// the message is built on demand; only the wrapping structure is needed eagerly
		var wrapped []int
		n := 0
		for i := 0; i < len(format); i++ {
			if format[i] != '%' {
				continue
			}
			i++
			for i < len(format) && strings.IndexByte("#+- 0123456789.", format[i]) >= 0 {
				i++
			}
			if i >= len(format) || format[i] == '%' {
				continue
			}
			if format[i] == '*' || format[i] == '[' {
				in.unsupported("Errorf format %q", format)
			}
			if format[i] == 'w' && n < len(av) {
				wrapped = append(wrapped, n)
			}
			n++
		}
		msg := &LazyStr{f: func(in *Interp) Value { s, _ := in.sprintf(format, av); return s }}
		errT := types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
		isErr := func(k int) (Iface, bool) {
			x := av[k].(Iface)
			if x.t == nil || !implements(x.t, errT) {
				return Iface{}, false
			}
			return x, true
		}
		switch len(wrapped) {
		case 0:
			return in.call(in.p.funcByName("errors", "New"), []Value{msg}, nil, nil)
		case 1:
			e, _ := isErr(wrapped[0])
			c := new(Value)
			*c = Struct{msg, e}
			return Iface{rtypeOf(types.NewPointer(in.p.typeByName("fmt", "wrapError"))), c}
		}
		var es Slice
		for _, k := range wrapped {
			if e, ok := isErr(k); ok {
				es = append(es, e)
			}
		}
		c := new(Value)
		*c = Struct{msg, es}
		return Iface{rtypeOf(types.NewPointer(in.p.typeByName("fmt", "wrapErrors"))), c}
	}
}

// fmtAddr prints an address; its digits are arbitrary.
func (in *Interp) fmtAddr(f *fspec, t types.Type, a int64) Value {
	if f.sharp {
		return fmt.Sprintf("(%s)(0x%x)", typeString(t), a)
	}
	return fmt.Sprintf("0x%x", a)
}
