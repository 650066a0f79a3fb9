package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/bits"
	"unicode/utf8"
)

type binFn func(in *Interp, a, b Value) Value

func compileBinOp(op token.Token, xt, yt types.Type) binFn {
	switch op {
	case token.EQL:
		return func(in *Interp, a, b Value) Value { return in.eqT(xt, yt, a, b) }
	case token.NEQ:
		return func(in *Interp, a, b Value) Value { return in.not(in.eqT(xt, yt, a, b)) }
	}
	if ii, ok := intInfoOf(xt); ok {
		return compileIntOp(op, ii, yt)
	}
	b := xt.Underlying().(*types.Basic)
	switch {
	case b.Info()&types.IsString != 0:
		switch op {
		case token.ADD:
			return func(in *Interp, a, b Value) Value { return in.strConcat(a, b) }
		case token.LSS:
			return func(in *Interp, a, b Value) Value { return in.strLess(a, b) }
		case token.GTR:
			return func(in *Interp, a, b Value) Value { return in.strLess(b, a) }
		case token.LEQ:
			return func(in *Interp, a, b Value) Value { return in.not(in.strLess(b, a)) }
		case token.GEQ:
			return func(in *Interp, a, b Value) Value { return in.not(in.strLess(a, b)) }
		}
	case b.Info()&types.IsFloat != 0:
		return compileFloatOp(op, b.Kind() == types.Float32)
	case b.Info()&types.IsComplex != 0:
		return func(in *Interp, a, b Value) Value {
			x, y := a.(complex128), b.(complex128)
			switch op {
			case token.ADD:
				return x + y
			case token.SUB:
				return x - y
			case token.MUL:
				return x * y
			case token.QUO:
				return x / y
			}
			panic("complex op")
		}
	case b.Info()&types.IsBoolean != 0:
		return func(in *Interp, a, b Value) Value {
			x, y := in.boolTerm(a), in.boolTerm(b)
			switch op {
			case token.AND, token.LAND:
				return lowerBool(in.tc.And(x, y))
			case token.OR, token.LOR:
				return lowerBool(in.tc.Or(x, y))
			}
			panic("bool op")
		}
	}
	panic(fmt.Sprintf("binop %v on %v", op, xt))
}

// eqT handles mixed interface/concrete comparisons and nil constants.
func (in *Interp) eqT(xt, yt types.Type, a, b Value) Value {
	switch x := a.(type) {
	case int64:
		if y, ok := b.(int64); ok {
			return x == y
		}
	case Iface:
		if y, ok := b.(Iface); ok {
			return in.ifaceEq(x, y)
		}
		if x.t != rtypeOf(yt) {
			return false
		}
		return in.eq(x.v, b)
	}
	if y, ok := b.(Iface); ok {
		if y.t != rtypeOf(xt) {
			return false
		}
		return in.eq(a, y.v)
	}
	return in.eq(a, b)
}

func compileIntOp(op token.Token, ii intInfo, yt types.Type) binFn {
	w := ii.w
	arith := func(conc func(x, y int64) int64, top Op) binFn {
		return func(in *Interp, a, b Value) Value {
			x, ok1 := a.(int64)
			y, ok2 := b.(int64)
			if ok1 && ok2 {
				return ii.norm(conc(x, y))
			}
			return ii.lower(in.tc.Bin(top, in.intTerm(a, w), in.intTerm(b, w)))
		}
	}
	cmp := func(concS func(x, y int64) bool, concU func(x, y uint64) bool, f func(in *Interp, x, y *Term) *Term) binFn {
		return func(in *Interp, a, b Value) Value {
			x, ok1 := a.(int64)
			y, ok2 := b.(int64)
			if ok1 && ok2 {
				if ii.signed {
					return concS(x, y)
				}
				return concU(uint64(x), uint64(y))
			}
			return lowerBool(f(in, in.intTerm(a, w), in.intTerm(b, w)))
		}
	}
	switch op {
	case token.ADD:
		return arith(func(x, y int64) int64 { return x + y }, OpAdd)
	case token.SUB:
		return arith(func(x, y int64) int64 { return x - y }, OpSub)
	case token.MUL:
		return arith(func(x, y int64) int64 { return x * y }, OpMul)
	case token.AND:
		return arith(func(x, y int64) int64 { return x & y }, OpBAnd)
	case token.OR:
		return arith(func(x, y int64) int64 { return x | y }, OpBOr)
	case token.XOR:
		return arith(func(x, y int64) int64 { return x ^ y }, OpBXor)
	case token.AND_NOT:
		return func(in *Interp, a, b Value) Value {
			x, ok1 := a.(int64)
			y, ok2 := b.(int64)
			if ok1 && ok2 {
				return ii.norm(x &^ y)
			}
			return ii.lower(in.tc.Bin(OpBAnd, in.intTerm(a, w), in.tc.BNot(in.intTerm(b, w))))
		}
	case token.QUO, token.REM:
		return func(in *Interp, a, b Value) Value {
			if y, ok := b.(int64); ok {
				if y == 0 {
					in.rtPanic("integer divide by zero")
				}
				if x, ok := a.(int64); ok {
					if ii.signed {
						if y == -1 {
							if op == token.REM {
								return int64(0)
							}
							return ii.norm(-x)
						}
						if op == token.QUO {
							return ii.norm(x / y)
						}
						return ii.norm(x % y)
					}
					if op == token.QUO {
						return ii.norm(int64(uint64(x) / uint64(y)))
					}
					return ii.norm(int64(uint64(x) % uint64(y)))
				}
			}
			tb := in.intTerm(b, w)
			if in.branch(in.tc.Eq(tb, in.tc.BV(0, w))) {
				in.rtPanic("integer divide by zero")
			}
			o := OpUdiv
			switch {
			case ii.signed && op == token.QUO:
				o = OpSdiv
			case ii.signed:
				o = OpSrem
			case op == token.REM:
				o = OpUrem
			}
			return ii.lower(in.tc.Bin(o, in.intTerm(a, w), tb))
		}
	case token.SHL, token.SHR:
		yi, _ := intInfoOf(yt)
		return func(in *Interp, a, b Value) Value {
			if y, ok := b.(int64); ok {
				if yi.signed && y < 0 {
					in.rtPanic("negative shift amount")
				}
				n := uint64(y)
				if x, ok := a.(int64); ok {
					if op == token.SHL {
						if n >= 64 {
							return int64(0)
						}
						return ii.norm(x << n)
					}
					if ii.signed {
						if n > 63 {
							n = 63
						}
						return ii.norm(x >> n)
					}
					if n >= 64 {
						return int64(0)
					}
					return ii.norm(int64(uint64(x) >> n))
				}
				if n >= uint64(w) {
					n = uint64(w)
				}
				return in.shift(op, ii, a, in.tc.BV(n, w))
			}
			t := b.(*Term)
			if yi.signed {
				if in.branch(in.tc.Slt(t, in.tc.BV(0, t.sort))) {
					in.rtPanic("negative shift amount")
				}
			}
			var c *Term
			if t.sort <= w {
				c = in.tc.Zext(t, w)
			} else {
				big := in.tc.Ule(in.tc.BV(uint64(w), t.sort), t)
				c = in.tc.Ite(big, in.tc.BV(uint64(w), w), in.tc.Extract(t, 0, w))
			}
			return in.shift(op, ii, a, c)
		}
	case token.LSS:
		return cmp(func(x, y int64) bool { return x < y }, func(x, y uint64) bool { return x < y }, func(in *Interp, x, y *Term) *Term {
			if ii.signed {
				return in.tc.Slt(x, y)
			}
			return in.tc.Ult(x, y)
		})
	case token.LEQ:
		return cmp(func(x, y int64) bool { return x <= y }, func(x, y uint64) bool { return x <= y }, func(in *Interp, x, y *Term) *Term {
			if ii.signed {
				return in.tc.Sle(x, y)
			}
			return in.tc.Ule(x, y)
		})
	case token.GTR:
		return cmp(func(x, y int64) bool { return x > y }, func(x, y uint64) bool { return x > y }, func(in *Interp, x, y *Term) *Term {
			if ii.signed {
				return in.tc.Slt(y, x)
			}
			return in.tc.Ult(y, x)
		})
	case token.GEQ:
		return cmp(func(x, y int64) bool { return x >= y }, func(x, y uint64) bool { return x >= y }, func(in *Interp, x, y *Term) *Term {
			if ii.signed {
				return in.tc.Sle(y, x)
			}
			return in.tc.Ule(y, x)
		})
	}
	panic("int op " + op.String())
}

func (in *Interp) shift(op token.Token, ii intInfo, a Value, c *Term) Value {
	o := OpShl
	if op == token.SHR {
		o = OpLshr
		if ii.signed {
			o = OpAshr
		}
	}
	return ii.lower(in.tc.Bin(o, in.intTerm(a, ii.w), c))
}

func compileFloatOp(op token.Token, f32 bool) binFn {
	r32 := func(f float64) float64 {
		if f32 {
			return float64(float32(f))
		}
		return f
	}
	return func(in *Interp, a, b Value) Value {
		x, ok1 := a.(float64)
		y, ok2 := b.(float64)
		if ok1 && ok2 {
			switch op {
			case token.ADD:
				return r32(x + y)
			case token.SUB:
				return r32(x - y)
			case token.MUL:
				return r32(x * y)
			case token.QUO:
				return r32(x / y)
			case token.LSS:
				return x < y
			case token.LEQ:
				return x <= y
			case token.GTR:
				return x > y
			case token.GEQ:
				return x >= y
			}
		}
		p, q := in.fpTerm(a), in.fpTerm(b)
		fp := func(t *Term) Value {
			if f32 {
				t = in.tc.FUn(OpFSingle, t, 0)
			}
			if t.op == OpConst {
				return math.Float64frombits(t.val)
			}
			return t
		}
		switch op {
		case token.ADD:
			return fp(in.tc.FBin(OpFAdd, p, q))
		case token.SUB:
			return fp(in.tc.FBin(OpFSub, p, q))
		case token.MUL:
			return fp(in.tc.FBin(OpFMul, p, q))
		case token.QUO:
			return fp(in.tc.FBin(OpFDiv, p, q))
		case token.LSS:
			return lowerBool(in.tc.FCmp(OpFLt, p, q))
		case token.LEQ:
			return lowerBool(in.tc.FCmp(OpFLe, p, q))
		case token.GTR:
			return lowerBool(in.tc.FCmp(OpFLt, q, p))
		case token.GEQ:
			return lowerBool(in.tc.FCmp(OpFLe, q, p))
		}
		panic("float op " + op.String())
	}
}

// ---- conversions

func compileConvert(from, to types.Type) func(in *Interp, v Value) Value {
	ident := func(in *Interp, v Value) Value { return v }
	uf, ut := from.Underlying(), to.Underlying()
	fi, fInt := intInfoOf(from)
	ti, tInt := intInfoOf(to)
	fb, _ := uf.(*types.Basic)
	tb, _ := ut.(*types.Basic)
	isF := func(b *types.Basic) bool { return b != nil && b.Info()&types.IsFloat != 0 }
	isS := func(b *types.Basic) bool { return b != nil && b.Info()&types.IsString != 0 }
	switch {
	case fb != nil && fb.Kind() == types.UnsafePointer, tb != nil && tb.Kind() == types.UnsafePointer:
		if tInt {
			return func(in *Interp, v Value) Value { in.unsupported("uintptr(unsafe.Pointer)"); return nil }
		}
		if fInt {
			return func(in *Interp, v Value) Value {
				if v == int64(0) {
					return Ptr(nil)
				}
				in.unsupported("unsafe.Pointer(uintptr)")
				return nil
			}
		}
		return ident
	case fInt && tInt:
		return func(in *Interp, v Value) Value {
			switch x := v.(type) {
			case int64:
				return ti.norm(x)
			case *Term:
				var t *Term
				switch {
				case ti.w <= fi.w:
					t = in.tc.Extract(x, 0, ti.w)
				case fi.signed:
					t = in.tc.Sext(x, ti.w)
				default:
					t = in.tc.Zext(x, ti.w)
				}
				return ti.lower(t)
			}
			panic("conv int")
		}
	case fInt && isF(tb):
		f32 := tb.Kind() == types.Float32
		return func(in *Interp, v Value) Value {
			switch x := v.(type) {
			case int64:
				var f float64
				if fi.signed {
					f = float64(x)
				} else {
					f = float64(uint64(x))
				}
				if f32 {
					f = float64(float32(f))
				}
				return f
			case *Term:
				if f32 && fi.signed {
					return in.tc.FUn(OpFSingle, in.tc.Sext(x, 64), 0)
				}
				if f32 {
					in.unsupported("symbolic float32")
				}
				if fi.signed {
					return in.tc.FUn(OpFFromS, in.tc.Sext(x, 64), 0)
				}
				return in.tc.FUn(OpFFromU, in.tc.Zext(x, 64), 0)
			}
			panic("conv int->float")
		}
	case isF(fb) && tInt:
		return func(in *Interp, v Value) Value {
			switch x := v.(type) {
			case float64:
				switch {
				case ti.signed && ti.w == 64:
					return int64(x)
				case ti.signed && ti.w == 32:
					return int64(int32(x))
				case ti.w == 64:
					return int64(uint64(x))
				case ti.signed:
					return ti.norm(int64(int32(x)))
				}
				return ti.norm(int64(x))
			case *Term:
				if !(ti.signed && ti.w == 64) {
					in.unsupported("symbolic float to %v", to)
				}
				return in.floatToInt64(x)
			}
			panic("conv float->int")
		}
	case isF(fb) && isF(tb):
		f32 := tb.Kind() == types.Float32
		return func(in *Interp, v Value) Value {
			if x, ok := v.(float64); ok && f32 {
				return float64(float32(x))
			}
			if x, ok := v.(*Term); ok && f32 {
				return in.tc.FUn(OpFSingle, x, 0)
			}
			return v
		}
	case fb != nil && fb.Info()&types.IsComplex != 0:
		return ident
	case fInt && isS(tb):
		return func(in *Interp, v Value) Value {
			if x, ok := v.(int64); ok {
				if x < 0 || x > 0x10ffff {
					return "\uFFFD"
				}
				return string(rune(x))
			}
			t := v.(*Term)
			if fi.signed {
				t = in.tc.Sext(t, 64)
			} else {
				t = in.tc.Zext(t, 64)
			}
			return mkStr(in.encodeRune(t))
		}
	case isS(fb) && isS(tb):
		return ident
	case isS(fb):
		et := ut.(*types.Slice).Elem()
		ei, _ := intInfoOf(et)
		if ei.w == 8 {
			return func(in *Interp, v Value) Value {
				b := in.strBytes(v)
				return Slice(append(make([]Value, 0, len(b)), b...))
			}
		}
		return func(in *Interp, v Value) Value {
			it := &strIter{s: in.force(v)}
			r := Slice{}
			for {
				t := it.next(in).(Tuple)
				if t[0] == false {
					return r
				}
				r = append(r, t[2])
			}
		}
	case isS(tb):
		et := uf.(*types.Slice).Elem()
		ei, _ := intInfoOf(et)
		if ei.w == 8 {
			return func(in *Interp, v Value) Value { return mkStr(v.(Slice)) }
		}
		return func(in *Interp, v Value) Value {
			var out []Value
			for _, e := range v.(Slice) {
				switch x := e.(type) {
				case int64:
					r := rune(x)
					for _, c := range []byte(string(r)) {
						out = append(out, int64(c))
					}
				case *Term:
					out = append(out, in.encodeRune(in.tc.Sext(x, 64))...)
				}
			}
			return mkStr(out)
		}
	}
	return ident
}

// floatToInt64 follows amd64 CVTTSD2SQ.
func (in *Interp) floatToInt64(x *Term) Value {
	tc := in.tc
	lo := tc.FP(-9223372036854775808.0)
	hi := tc.FP(9223372036854775808.0)
	ok := tc.And(tc.FCmp(OpFLe, lo, x), tc.FCmp(OpFLt, x, hi))
	if !in.branch(ok) {
		return int64(math.MinInt64)
	}
	return intInfo{64, true}.lower(tc.FUn(OpFToS, x, 0))
}

// encodeRune UTF-8-encodes a symbolic rune (BV64), forking on its length class.
func (in *Interp) encodeRune(t *Term) []Value {
	tc := in.tc
	c := func(v uint64) *Term { return tc.BV(v, 64) }
	b := func(x *Term) Value { return intInfo{8, false}.lower(tc.Extract(x, 0, 8)) }
	bad := []Value{int64(0xEF), int64(0xBF), int64(0xBD)}
	cont := func(sh uint64) Value {
		return b(tc.Bin(OpBOr, c(0x80), tc.Bin(OpBAnd, tc.Bin(OpLshr, t, c(sh)), c(0x3f))))
	}
	if in.branch(tc.Ult(t, c(0x80))) {
		return []Value{b(t)}
	}
	if in.branch(tc.Ult(t, c(0x800))) {
		return []Value{b(tc.Bin(OpBOr, c(0xC0), tc.Bin(OpLshr, t, c(6)))), cont(0)}
	}
	if in.branch(tc.Ult(t, c(0x10000))) {
		if in.branch(tc.And(tc.Ule(c(0xD800), t), tc.Ule(t, c(0xDFFF)))) {
			return bad
		}
		return []Value{b(tc.Bin(OpBOr, c(0xE0), tc.Bin(OpLshr, t, c(12)))), cont(6), cont(0)}
	}
	if in.branch(tc.Ule(t, c(0x10FFFF))) {
		return []Value{b(tc.Bin(OpBOr, c(0xF0), tc.Bin(OpLshr, t, c(18)))), cont(12), cont(6), cont(0)}
	}
	return bad
}

// decodeRune decodes the first rune of b (len>0); returns rune value (int32) and size.
func (in *Interp) decodeRune(b []Value) (Value, int) {
	conc := true
	n := min(len(b), 4)
	var buf [4]byte
	for i := 0; i < n; i++ {
		if x, ok := b[i].(int64); ok {
			buf[i] = byte(x)
		} else {
			conc = false
			break
		}
	}
	if x, ok := b[0].(int64); ok && x < 0x80 {
		return x, 1
	}
	if conc {
		r, sz := utf8.DecodeRune(buf[:n])
		return int64(r), sz
	}
	tc := in.tc
	t := in.intTerm(b[0], 8)
	k := func(v uint64) *Term { return tc.BV(v, 8) }
	if in.branch(tc.Ult(t, k(0x80))) {
		return intInfo{32, true}.lower(tc.Zext(t, 32)), 1
	}
	bad := func() (Value, int) { return int64(utf8.RuneError), 1 }
	if in.branch(tc.Or(tc.Ult(t, k(0xC2)), tc.Ult(k(0xF4), t))) {
		return bad()
	}
	rng := func(i int, lo, hi uint64) bool {
		if i >= len(b) {
			return false
		}
		x := in.intTerm(b[i], 8)
		return in.branch(tc.And(tc.Ule(k(lo), x), tc.Ule(x, k(hi))))
	}
	z := func(i int, m uint64, sh uint64) *Term {
		x := tc.Bin(OpBAnd, in.intTerm(b[i], 8), k(m))
		return tc.Bin(OpShl, tc.Zext(x, 32), tc.BV(sh, 32))
	}
	or := func(xs ...*Term) Value {
		r := xs[0]
		for _, x := range xs[1:] {
			r = tc.Bin(OpBOr, r, x)
		}
		return intInfo{32, true}.lower(r)
	}
	if in.branch(tc.Ult(t, k(0xE0))) {
		if !rng(1, 0x80, 0xBF) {
			return bad()
		}
		return or(z(0, 0x1F, 6), z(1, 0x3F, 0)), 2
	}
	if in.branch(tc.Ult(t, k(0xF0))) {
		lo, hi := uint64(0x80), uint64(0xBF)
		if in.branch(tc.Eq(t, k(0xE0))) {
			lo = 0xA0
		} else if in.branch(tc.Eq(t, k(0xED))) {
			hi = 0x9F
		}
		if !rng(1, lo, hi) || !rng(2, 0x80, 0xBF) {
			return bad()
		}
		return or(z(0, 0x0F, 12), z(1, 0x3F, 6), z(2, 0x3F, 0)), 3
	}
	lo, hi := uint64(0x80), uint64(0xBF)
	if in.branch(tc.Eq(t, k(0xF0))) {
		lo = 0x90
	} else if in.branch(tc.Eq(t, k(0xF4))) {
		hi = 0x8F
	}
	if !rng(1, lo, hi) || !rng(2, 0x80, 0xBF) || !rng(3, 0x80, 0xBF) {
		return bad()
	}
	return or(z(0, 0x07, 18), z(1, 0x3F, 12), z(2, 0x3F, 6), z(3, 0x3F, 0)), 4
}

type strIter struct {
	s Value
	i int
}

func (it *strIter) next(in *Interp) Value {
	switch s := it.s.(type) {
	case string:
		if it.i >= len(s) {
			return Tuple{false, int64(0), int64(0)}
		}
		r, sz := utf8.DecodeRuneInString(s[it.i:])
		p := it.i
		it.i += sz
		return Tuple{true, int64(p), int64(r)}
	case *SymStr:
		if it.i >= len(s.b) {
			return Tuple{false, int64(0), int64(0)}
		}
		r, sz := in.decodeRune(s.b[it.i:])
		p := it.i
		it.i += sz
		return Tuple{true, int64(p), r}
	}
	panic("strIter")
}

var _ = bits.Len
