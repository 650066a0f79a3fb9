package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"strconv"
	"strings"
	"time"
	"unicode"
	"unicode/utf8"
)

func shortStack() string {
	s := string(debug.Stack())
	ls := strings.Split(s, "\n")
	var out []string
	for _, l := range ls {
		if strings.Contains(l, "/engine/") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 12 {
		out = out[:12]
	}
	return strings.Join(out, " | ")
}

var i64 = intInfo{64, true}
var i32 = intInfo{32, true}

func (in *Interp) constStr(v Value) string {
	v = in.force(v)
	if s, ok := v.(string); ok {
		return s
	}
	in.unsupported("symbolic string where a constant is needed")
	return ""
}

// concString concretises a symbolic string by forking on each byte.
func (in *Interp) concString(v Value) string {
	v = in.force(v)
	switch s := v.(type) {
	case string:
		return s
	case *SymStr:
		b := make([]byte, len(s.b))
		for i, e := range s.b {
			switch x := e.(type) {
			case int64:
				b[i] = byte(x)
			case *Term:
				b[i] = byte(in.concretize(x))
			}
		}
		return string(b)
	}
	panic("concString")
}

func (in *Interp) concInt(v Value, ii intInfo) int64 {
	switch x := v.(type) {
	case int64:
		return x
	case *Term:
		return ii.norm(int64(in.concretize(x)))
	}
	panic("concInt")
}

func fpVal(t *Term) Value {
	if t.op == OpConst {
		return math.Float64frombits(t.val)
	}
	return t
}

func (in *Interp) newError(msg string) Value {
	// errors.New(msg)
	fn := in.p.funcByName("errors", "New")
	return in.call(fn, []Value{msg}, nil, nil)
}

func (p *Program) funcByName(pkg, name string) *Fn {
	for _, pk := range p.prog.AllPackages() {
		if pk.Pkg.Path() == pkg {
			if f := pk.Func(name); f != nil {
				return p.fnOf(f)
			}
		}
	}
	panic("no function " + pkg + "." + name)
}

func (p *Program) typeByName(pkg, name string) types.Type {
	for _, pk := range p.prog.AllPackages() {
		if pk.Pkg.Path() == pkg {
			if t := pk.Type(name); t != nil {
				return t.Type()
			}
		}
	}
	panic("no type " + pkg + "." + name)
}

func (in *Interp) strArr(s Value) Slice {
	sl, _ := s.(Slice)
	return sl
}

func (in *Interp) rangesTerm(t *Term, rs ...uint64) *Term {
	r := in.tc.False
	for i := 0; i+1 < len(rs); i += 2 {
		lo, hi := in.tc.BV(rs[i], t.sort), in.tc.BV(rs[i+1], t.sort)
		if rs[i] == rs[i+1] {
			r = in.tc.Or(r, in.tc.Eq(t, lo))
		} else {
			r = in.tc.Or(r, in.tc.And(in.tc.Ule(lo, t), in.tc.Ule(t, hi)))
		}
	}
	return r
}

// asciiPred decides a unicode predicate exactly: symbolic formula for ASCII, forking above.
func asciiPred(f func(rune) bool) NativeFn {
	var rs []uint64
	for c := uint64(0); c < 128; {
		if !f(rune(c)) {
			c++
			continue
		}
		e := c
		for e+1 < 128 && f(rune(e+1)) {
			e++
		}
		rs = append(rs, c, e)
		c = e + 1
	}
	return func(in *Interp, fr *Frame, a []Value) Value {
		switch x := a[0].(type) {
		case int64:
			return f(rune(x))
		case *Term:
			if in.branch(in.tc.Ult(x, in.tc.BV(128, x.sort))) {
				return lowerBool(in.rangesTerm(x, rs...))
			}
			return f(rune(in.concInt(x, i32)))
		}
		panic("asciiPred")
	}
}

func asciiMap(f func(rune) rune) NativeFn {
	return func(in *Interp, fr *Frame, a []Value) Value {
		switch x := a[0].(type) {
		case int64:
			return int64(f(rune(x)))
		case *Term:
			if in.branch(in.tc.Ult(x, in.tc.BV(128, x.sort))) {
				r := x
				up := in.rangesTerm(x, 'A', 'Z')
				lo := in.rangesTerm(x, 'a', 'z')
				if f('A') == 'a' {
					r = in.tc.Ite(up, in.tc.Bin(OpAdd, x, in.tc.BV(32, x.sort)), r)
				}
				if f('a') == 'A' {
					r = in.tc.Ite(lo, in.tc.Bin(OpSub, x, in.tc.BV(32, x.sort)), r)
				}
				return i32.lower(r)
			}
			return int64(f(rune(in.concInt(x, i32))))
		}
		panic("asciiMap")
	}
}

func fRound(mode uint64, f func(float64) float64) NativeFn {
	return func(in *Interp, fr *Frame, a []Value) Value {
		switch x := a[0].(type) {
		case float64:
			return f(x)
		case *Term:
			return fpVal(in.tc.FUn(OpFRound, x, mode))
		}
		panic("fRound")
	}
}

func fNat(f func(float64) float64) NativeFn {
	return func(in *Interp, fr *Frame, a []Value) Value {
		if x, ok := a[0].(float64); ok {
			return f(x)
		}
		in.unsupported("symbolic argument of math function")
		return nil
	}
}
func fNat2(f func(x, y float64) float64) NativeFn {
	return func(in *Interp, fr *Frame, a []Value) Value {
		x, ok := a[0].(float64)
		y, ok2 := a[1].(float64)
		if ok && ok2 {
			return f(x, y)
		}
		in.unsupported("symbolic argument of math function")
		return nil
	}
}

func retNil(in *Interp, fr *Frame, a []Value) Value { return nil }

func (in *Interp) nativeOf(v Value) any {
	p, ok := v.(Ptr)
	if !ok || p == nil {
		in.nilDeref()
	}
	n, ok := (*p).(*Native)
	if !ok {
		in.unsupported("not a native object: %T", *p)
	}
	return n.v
}

func newNative(v any) Ptr {
	p := new(Value)
	*p = &Native{v}
	return p
}

func (in *Interp) idxByte(b []Value, c Value) Value {
	for i, e := range b {
		if in.truth(in.eq(e, c)) {
			return int64(i)
		}
	}
	return int64(-1)
}

func sliceOf(v Value) []Value {
	switch x := v.(type) {
	case Slice:
		return x
	}
	panic(fmt.Sprintf("sliceOf %T", v))
}

func goStrings(xs []string) Slice {
	if xs == nil {
		return nil
	}
	r := make(Slice, len(xs))
	for i, x := range xs {
		r[i] = x
	}
	return r
}

var repoDir = "/repo"

func registerNatives(p *Program) {
	N := p.natives
	sym := symPkg + "."
	// ---- harness primitives
	N[sym+"Int64"] = func(in *Interp, fr *Frame, a []Value) Value { return in.freshVar(in.constStr(a[0]), 64) }
	N[sym+"Int"] = N[sym+"Int64"]
	N[sym+"Byte"] = func(in *Interp, fr *Frame, a []Value) Value { return in.freshVar(in.constStr(a[0]), 8) }
	N[sym+"Int32"] = func(in *Interp, fr *Frame, a []Value) Value { return in.freshVar(in.constStr(a[0]), 32) }
	N[sym+"Bool"] = func(in *Interp, fr *Frame, a []Value) Value {
		v := in.freshVar(in.constStr(a[0]), 8)
		in.assume(lowerBool(in.tc.Ult(v, in.tc.BV(2, 8))))
		return lowerBool(in.tc.Eq(v, in.tc.BV(1, 8)))
	}
	N[sym+"Float64"] = func(in *Interp, fr *Frame, a []Value) Value {
		v := in.freshVar(in.constStr(a[0]), 64)
		return in.tc.FUn(OpFFromBits, v, 0)
	}
	N[sym+"Choice"] = func(in *Interp, fr *Frame, a []Value) Value {
		n := a[1].(int64)
		if n <= 1 {
			return int64(0)
		}
		if n > 256 {
			in.unsupported("Choice over %d", n)
		}
		v := in.freshVar(in.constStr(a[0]), 8)
		if n < 256 {
			in.assume(lowerBool(in.tc.Ult(v, in.tc.BV(uint64(n), 8))))
		}
		return int64(in.concretize(v))
	}
	N[sym+"Concrete"] = func(in *Interp, fr *Frame, a []Value) Value { return in.concInt(a[0], i64) }
	N[sym+"Assume"] = func(in *Interp, fr *Frame, a []Value) Value { in.assume(a[0]); return nil }
	N[sym+"Assert"] = func(in *Interp, fr *Frame, a []Value) Value {
		in.assertV(a[0], in.constStr(a[1]))
		return nil
	}
	N[sym+"Reach"] = func(in *Interp, fr *Frame, a []Value) Value {
		in.path.reach = append(in.path.reach, in.constStr(a[0]))
		return nil
	}
	N[sym+"Symbolic"] = func(in *Interp, fr *Frame, a []Value) Value { return true }
	N[sym+"Thorough"] = func(in *Interp, fr *Frame, a []Value) Value { return in.ex.tier == "thorough" }
	for _, k := range []string{"ObserveInt", "ObserveBool", "ObserveStr", "ObserveFloat"} {
		N[sym+k] = func(in *Interp, fr *Frame, a []Value) Value {
			in.path.obs = append(in.path.obs, Obs{in.constStr(a[0]), in.force(a[1]), 0})
			return nil
		}
	}
	N[sym+"And"] = func(in *Interp, fr *Frame, a []Value) Value {
		r := in.tc.True
		for _, v := range sliceOf(a[0]) {
			r = in.tc.And(r, in.boolTerm(v))
		}
		return lowerBool(r)
	}
	N[sym+"Or"] = func(in *Interp, fr *Frame, a []Value) Value {
		r := in.tc.False
		for _, v := range sliceOf(a[0]) {
			r = in.tc.Or(r, in.boolTerm(v))
		}
		return lowerBool(r)
	}
	N[sym+"Implies"] = func(in *Interp, fr *Frame, a []Value) Value {
		return lowerBool(in.tc.Or(in.tc.Not(in.boolTerm(a[0])), in.boolTerm(a[1])))
	}
	N[sym+"Iff"] = func(in *Interp, fr *Frame, a []Value) Value {
		return lowerBool(in.tc.Eq(in.boolTerm(a[0]), in.boolTerm(a[1])))
	}
	N[sym+"IteInt"] = func(in *Interp, fr *Frame, a []Value) Value {
		return i64.lower(in.tc.Ite(in.boolTerm(a[0]), in.intTerm(a[1], 64), in.intTerm(a[2], 64)))
	}
	N[sym+"SameFloat"] = func(in *Interp, fr *Frame, a []Value) Value {
		return lowerBool(in.tc.FCmp(OpFBitEq, in.fpTerm(a[0]), in.fpTerm(a[1])))
	}
	N[sym+"BytesString"] = func(in *Interp, fr *Frame, a []Value) Value { return mkStr(sliceOf(a[0])) }

	// ---- errors
	N["errors.Is"] = nativeErrorsIs
	N["errors.As"] = nativeErrorsAs
	N["internal/errors.As"] = nativeErrorsAs
	// ---- math
	N["math.Floor"] = fRound(3, math.Floor)
	N["math.floor"] = fRound(3, math.Floor)
	N["math.Ceil"] = fRound(2, math.Ceil)
	N["math.ceil"] = fRound(2, math.Ceil)
	N["math.Trunc"] = fRound(4, math.Trunc)
	N["math.trunc"] = fRound(4, math.Trunc)
	N["math.Round"] = fRound(1, math.Round)
	N["math.RoundToEven"] = fRound(0, math.RoundToEven)
	N["math.Abs"] = func(in *Interp, fr *Frame, a []Value) Value {
		if x, ok := a[0].(float64); ok {
			return math.Abs(x)
		}
		return fpVal(in.tc.FUn(OpFAbs, a[0].(*Term), 0))
	}
	N["math.Sqrt"] = func(in *Interp, fr *Frame, a []Value) Value {
		if x, ok := a[0].(float64); ok {
			return math.Sqrt(x)
		}
		return fpVal(in.tc.FUn(OpFSqrt, a[0].(*Term), 0))
	}
	N["math.sqrt"] = N["math.Sqrt"]
	N["math.IsNaN"] = func(in *Interp, fr *Frame, a []Value) Value {
		if x, ok := a[0].(float64); ok {
			return x != x
		}
		return lowerBool(in.tc.FUn(OpFIsNaN, a[0].(*Term), 0))
	}
	N["math.Float64bits"] = func(in *Interp, fr *Frame, a []Value) Value {
		switch x := a[0].(type) {
		case float64:
			return int64(math.Float64bits(x))
		case *Term:
			if x.op == OpFFromBits {
				return x.a[0]
			}
			b := in.freshVar("fbits", 64)
			in.assume(lowerBool(in.tc.FCmp(OpFBitEq, in.tc.FUn(OpFFromBits, b, 0), x)))
			return b
		}
		panic("Float64bits")
	}
	N["math.Float64frombits"] = func(in *Interp, fr *Frame, a []Value) Value {
		switch x := a[0].(type) {
		case int64:
			return math.Float64frombits(uint64(x))
		case *Term:
			return fpVal(in.tc.FUn(OpFFromBits, x, 0))
		}
		panic("Float64frombits")
	}
	N["math.Float32bits"] = func(in *Interp, fr *Frame, a []Value) Value {
		if x, ok := a[0].(float64); ok {
			return int64(math.Float32bits(float32(x)))
		}
		in.unsupported("Float32bits")
		return nil
	}
	N["math.Float32frombits"] = func(in *Interp, fr *Frame, a []Value) Value {
		return float64(math.Float32frombits(uint32(a[0].(int64))))
	}
	for arch, pure := range map[string]string{"math.archMax": "max", "math.archMin": "min"} {
		pure := pure
		N[arch] = func(in *Interp, fr *Frame, a []Value) Value {
			return in.call(in.p.fnOf(in.p.prog.ImportedPackage("math").Func(pure)), a, nil, fr)
		}
	}
	N["math.Hypot"], N["math.Exp2"], N["math.Atan2"] = fNat2(math.Hypot), fNat(math.Exp2), fNat2(math.Atan2)
	N["math.Pow"] = fNat2(math.Pow)
	N["math.Mod"] = fNat2(math.Mod)
	N["math.Remainder"] = fNat2(math.Remainder)
	N["math.Log"] = fNat(math.Log)
	N["math.Exp"] = fNat(math.Exp)
	N["math.Log2"] = fNat(math.Log2)
	// ---- unicode
	N["unicode.IsSpace"] = func(in *Interp, fr *Frame, a []Value) Value {
		switch x := a[0].(type) {
		case int64:
			return unicode.IsSpace(rune(x))
		case *Term:
			return lowerBool(in.rangesTerm(x, 9, 13, 32, 32, 0x85, 0x85, 0xA0, 0xA0, 0x1680, 0x1680, 0x2000, 0x200a,
				0x2028, 0x2029, 0x202f, 0x202f, 0x205f, 0x205f, 0x3000, 0x3000))
		}
		panic("IsSpace")
	}
	for n, f := range map[string]func(rune) bool{"IsLetter": unicode.IsLetter, "IsDigit": unicode.IsDigit, "IsUpper": unicode.IsUpper,
		"IsLower": unicode.IsLower, "IsPrint": unicode.IsPrint, "IsControl": unicode.IsControl, "IsPunct": unicode.IsPunct,
		"IsGraphic": unicode.IsGraphic, "IsNumber": unicode.IsNumber, "IsSymbol": unicode.IsSymbol} {
		N["unicode."+n] = asciiPred(f)
	}
	N["strconv.IsPrint"] = asciiPred(strconv.IsPrint)
	N["unicode.ToLower"] = asciiMap(unicode.ToLower)
	N["unicode.ToUpper"] = asciiMap(unicode.ToUpper)
	N["unicode.SimpleFold"] = func(in *Interp, fr *Frame, a []Value) Value {
		return int64(unicode.SimpleFold(rune(in.concInt(a[0], i32))))
	}
	// ---- utf8
	N["unicode/utf8.DecodeRuneInString"] = func(in *Interp, fr *Frame, a []Value) Value {
		b := in.strBytesN(a[0], 4)
		if len(b) == 0 {
			return Tuple{int64(utf8.RuneError), int64(0)}
		}
		r, n := in.decodeRune(b)
		return Tuple{r, int64(n)}
	}
	N["unicode/utf8.DecodeRune"] = func(in *Interp, fr *Frame, a []Value) Value {
		b := sliceOf(a[0])
		if len(b) == 0 {
			return Tuple{int64(utf8.RuneError), int64(0)}
		}
		r, n := in.decodeRune(b)
		return Tuple{r, int64(n)}
	}
	// ---- strings / bytes kernels
	N["internal/bytealg.IndexByteString"] = func(in *Interp, fr *Frame, a []Value) Value {
		if s, ok := in.force(a[0]).(string); ok {
			if c, ok := a[1].(int64); ok {
				return int64(strings.IndexByte(s, byte(c)))
			}
		}
		return in.idxByte(in.strBytes(a[0]), a[1])
	}
	N["internal/bytealg.IndexByte"] = func(in *Interp, fr *Frame, a []Value) Value {
		return in.idxByte(sliceOf(a[0]), a[1])
	}
	N["internal/bytealg.CountString"] = func(in *Interp, fr *Frame, a []Value) Value {
		n := int64(0)
		for _, e := range in.strBytes(a[0]) {
			if in.truth(in.eq(e, a[1])) {
				n++
			}
		}
		return n
	}
	N["internal/bytealg.Count"] = func(in *Interp, fr *Frame, a []Value) Value {
		n := int64(0)
		for _, e := range sliceOf(a[0]) {
			if in.truth(in.eq(e, a[1])) {
				n++
			}
		}
		return n
	}
	cmp := func(in *Interp, x, y Value) Value {
		if in.truth(in.strEq(x, y)) {
			return int64(0)
		}
		if in.truth(in.strLess(x, y)) {
			return int64(-1)
		}
		return int64(1)
	}
	N["internal/bytealg.CompareString"] = func(in *Interp, fr *Frame, a []Value) Value { return cmp(in, a[0], a[1]) }
	N["strings.Compare"] = N["internal/bytealg.CompareString"]
	N["internal/bytealg.Compare"] = func(in *Interp, fr *Frame, a []Value) Value {
		return cmp(in, mkStr(sliceOf(a[0])), mkStr(sliceOf(a[1])))
	}
	N["internal/bytealg.Equal"] = func(in *Interp, fr *Frame, a []Value) Value {
		return in.strEq(mkStr(sliceOf(a[0])), mkStr(sliceOf(a[1])))
	}
	N["bytes.Equal"] = N["internal/bytealg.Equal"]
	idx := func(in *Interp, s, sub []Value) Value {
		for i := 0; i+len(sub) <= len(s); i++ {
			if in.truth(in.strEq(mkStr(s[i:i+len(sub)]), mkStr(sub))) {
				return int64(i)
			}
		}
		return int64(-1)
	}
	N["strings.Index"] = func(in *Interp, fr *Frame, a []Value) Value {
		x, ok := in.force(a[0]).(string)
		y, ok2 := in.force(a[1]).(string)
		if ok && ok2 {
			return int64(strings.Index(x, y))
		}
		return idx(in, in.strBytes(a[0]), in.strBytes(a[1]))
	}
	N["bytes.Index"] = func(in *Interp, fr *Frame, a []Value) Value { return idx(in, sliceOf(a[0]), sliceOf(a[1])) }
	N["internal/bytealg.IndexString"] = N["strings.Index"]
	N["internal/bytealg.MakeNoZero"] = func(in *Interp, fr *Frame, a []Value) Value {
		n := in.allocSize(a[0], i64, 1, "makeslice: len out of range")
		r := make(Slice, n)
		for i := range r {
			r[i] = int64(0)
		}
		return r
	}
	N["strings.EqualFold"] = func(in *Interp, fr *Frame, a []Value) Value {
		x, ok1 := in.force(a[0]).(string)
		y, ok2 := in.force(a[1]).(string)
		if ok1 && ok2 {
			return strings.EqualFold(x, y)
		}
		if ok1 {
			a[0], a[1] = a[1], a[0]
			y, ok2 = x, true
		}
		if !ok2 {
			return in.foldEq(a[0], a[1])
		}
		for _, c := range y {
			if c >= 128 || c == 'k' || c == 'K' || c == 's' || c == 'S' {
				return in.foldEq(a[0], a[1])
			}
		}
		b := in.strBytes(a[0])
		if len(b) != len(y) {
			return false
		}
		r := in.tc.True
		for i := range b {
			t := in.intTerm(b[i], 8)
			c := y[i]
			e := in.tc.Eq(t, in.tc.BV(uint64(c), 8))
			if unicode.IsLetter(rune(c)) {
				e = in.tc.Or(e, in.tc.Eq(t, in.tc.BV(uint64(c^0x20), 8)))
			}
			r = in.tc.And(r, e)
		}
		return lowerBool(r)
	}
	for _, c := range []struct {
		name   string
		f      func(string) string
		lo, hi uint64
		shift  Op
	}{{"ToUpper", strings.ToUpper, 'a', 'z', OpSub}, {"ToLower", strings.ToLower, 'A', 'Z', OpAdd}} {
		N["strings."+c.name] = func(in *Interp, fr *Frame, a []Value) Value {
			if s, ok := in.force(a[0]).(string); ok {
				return c.f(s)
			}
			b := in.strBytes(a[0])
			ascii := in.tc.True
			for _, x := range b {
				ascii = in.tc.And(ascii, in.tc.Ult(in.intTerm(x, 8), in.tc.BV(128, 8)))
			}
			if !in.branch(ascii) { // the way strings does it
				return in.call(in.p.funcByName("strings", "Map"), []Value{&Closure{fn: in.p.funcByName("unicode", c.name)}, a[0]}, nil, fr)
			}
			out := make([]Value, len(b))
			for i, x := range b {
				if t, ok := x.(*Term); ok {
					out[i] = intInfo{8, false}.lower(in.tc.Ite(in.rangesTerm(t, c.lo, c.hi), in.tc.Bin(c.shift, t, in.tc.BV(32, 8)), t))
				} else {
					out[i] = int64(c.f(string(rune(x.(int64))))[0])
				}
			}
			return mkStr(out)
		}
	}
	N["internal/abi.NoEscape"] = func(in *Interp, fr *Frame, a []Value) Value { return a[0] }
	N["strings.noescape"] = N["internal/abi.NoEscape"]
	N["internal/abi.Escape"] = N["internal/abi.NoEscape"]
	N["(*strings.Builder).copyCheck"] = retNil
	N["internal/stringslite.Clone"] = func(in *Interp, fr *Frame, a []Value) Value { return a[0] }
	N["strings.Clone"] = N["internal/stringslite.Clone"]
	// ---- strconv
	N["strconv.Itoa"] = func(in *Interp, fr *Frame, a []Value) Value { return in.fmtInt(a[0], i64, 10) }
	N["strconv.FormatInt"] = func(in *Interp, fr *Frame, a []Value) Value {
		return in.fmtInt(a[0], i64, int(in.concInt(a[1], i64)))
	}
	N["strconv.FormatUint"] = func(in *Interp, fr *Frame, a []Value) Value {
		return in.fmtInt(a[0], intInfo{64, false}, int(in.concInt(a[1], i64)))
	}
	N["strconv.FormatFloat"] = func(in *Interp, fr *Frame, a []Value) Value {
		x, ok := a[0].(float64)
		if !ok {
			in.unsupported("FormatFloat of a symbolic float")
		}
		return strconv.FormatFloat(x, byte(in.concInt(a[1], intInfo{8, false})), int(in.concInt(a[2], i64)), int(in.concInt(a[3], i64)))
	}
	parseFloat := func(in *Interp, fr *Frame, a []Value) Value {
		s := in.concString(a[0])
		f, err := strconv.ParseFloat(s, int(a[1].(int64)))
		if err == nil {
			return Tuple{f, Iface{}}
		}
		return Tuple{f, in.numError("ParseFloat", s, err)}
	}
	N["strconv.ParseFloat"] = parseFloat
	// ---- regexp
	registerRegexp(p)
	// ---- sync / atomic
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock",
		"(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*internal/sync.Mutex).Lock", "(*internal/sync.Mutex).Unlock",
		"internal/race.Enable", "internal/race.Disable", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.GC",
		"internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge"} {
		N[n] = retNil
	}
	atomicLoad := func(in *Interp, fr *Frame, a []Value) Value { return *(a[0].(Ptr)) }
	atomicStore := func(in *Interp, fr *Frame, a []Value) Value { in.set(a[0].(Ptr), a[1]); return nil }
	intKinds := map[string]types.BasicKind{"Int32": types.Int32, "Int64": types.Int64, "Uint32": types.Uint32, "Uint64": types.Uint64, "Uintptr": types.Uintptr}
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		var add binFn
		if k, ok := intKinds[t]; ok {
			add = compileBinOp(token.ADD, types.Typ[k], types.Typ[k])
		}
		for _, pk := range []string{"sync/atomic.", "internal/runtime/atomic."} {
			N[pk+"Load"+t] = atomicLoad
			N[pk+"Store"+t] = atomicStore
			N[pk+"Add"+t] = func(in *Interp, fr *Frame, a []Value) Value {
				p := a[0].(Ptr)
				v := add(in, *p, a[1])
				in.set(p, v)
				return v
			}
			N[pk+"CompareAndSwap"+t] = func(in *Interp, fr *Frame, a []Value) Value {
				p := a[0].(Ptr)
				if in.truth(in.eq(*p, a[1])) {
					in.set(p, a[2])
					return true
				}
				return false
			}
			N[pk+"Swap"+t] = func(in *Interp, fr *Frame, a []Value) Value {
				p := a[0].(Ptr)
				o := *p
				in.set(p, a[1])
				return o
			}
		}
	}
	value := func(a []Value) Ptr { return &(*(a[0].(Ptr))).(Struct)[0] }
	N["(*sync/atomic.Value).Load"] = func(in *Interp, fr *Frame, a []Value) Value { return *value(a) }
	N["(*sync/atomic.Value).Store"] = func(in *Interp, fr *Frame, a []Value) Value { in.set(value(a), a[1]); return nil }
	N["(*sync/atomic.Value).Swap"] = func(in *Interp, fr *Frame, a []Value) Value {
		o := *value(a)
		in.set(value(a), a[1])
		return o
	}
	N["(*sync/atomic.Value).CompareAndSwap"] = func(in *Interp, fr *Frame, a []Value) Value {
		if in.truth(in.eq(*value(a), a[1])) {
			in.set(value(a), a[2])
			return true
		}
		return false
	}
	// a pool hands out what was put into it last; its objects are kept in an unused field
	N["(*sync.Pool).Get"] = func(in *Interp, fr *Frame, a []Value) Value {
		st := (*(a[0].(Ptr))).(Struct)
		if items, ok := st[1].(Slice); ok && len(items) > 0 {
			v := items[len(items)-1]
			in.set(&st[1], items[:len(items)-1:len(items)-1])
			return v
		}
		if f, ok := st[len(st)-1].(*Closure); ok && f != nil {
			return in.callClosure(f, nil, fr)
		}
		return Iface{}
	}
	N["(*sync.Pool).Put"] = func(in *Interp, fr *Frame, a []Value) Value {
		st := (*(a[0].(Ptr))).(Struct)
		items, _ := st[1].(Slice)
		in.set(&st[1], append(items[:len(items):len(items)], a[1]))
		return nil
	}
	// a sync.Map is a map kept in an unused field
	smap := func(in *Interp, a []Value) *Map {
		st := (*(a[0].(Ptr))).(Struct)
		m, ok := st[0].(*Map)
		if !ok {
			m = newMap()
			in.set(&st[0], m)
		}
		return m
	}
	load := func(in *Interp, m *Map, k Value) (Value, bool) {
		if e := in.mapFind(m, k); e != nil {
			return e.v, true
		}
		return Iface{}, false
	}
	N["(*sync.Map).Load"] = func(in *Interp, fr *Frame, a []Value) Value {
		v, ok := load(in, smap(in, a), a[1])
		return Tuple{v, ok}
	}
	N["(*sync.Map).Store"] = func(in *Interp, fr *Frame, a []Value) Value { in.mapSet(smap(in, a), a[1], a[2]); return nil }
	N["(*sync.Map).Swap"] = func(in *Interp, fr *Frame, a []Value) Value {
		v, ok := load(in, smap(in, a), a[1])
		in.mapSet(smap(in, a), a[1], a[2])
		return Tuple{v, ok}
	}
	N["(*sync.Map).LoadOrStore"] = func(in *Interp, fr *Frame, a []Value) Value {
		if v, ok := load(in, smap(in, a), a[1]); ok {
			return Tuple{v, true}
		}
		in.mapSet(smap(in, a), a[1], a[2])
		return Tuple{a[2], false}
	}
	N["(*sync.Map).LoadAndDelete"] = func(in *Interp, fr *Frame, a []Value) Value {
		v, ok := load(in, smap(in, a), a[1])
		in.mapDelete(smap(in, a), a[1])
		return Tuple{v, ok}
	}
	N["(*sync.Map).CompareAndSwap"] = func(in *Interp, fr *Frame, a []Value) Value {
		if v, ok := load(in, smap(in, a), a[1]); ok && in.truth(in.eq(v, a[2])) {
			in.mapSet(smap(in, a), a[1], a[3])
			return true
		}
		return false
	}
	N["(*sync.Map).Delete"] = func(in *Interp, fr *Frame, a []Value) Value { in.mapDelete(smap(in, a), a[1]); return nil }
	N["(*sync.Map).Clear"] = func(in *Interp, fr *Frame, a []Value) Value { in.mapClear(smap(in, a)); return nil }
	N["(*sync.Map).Range"] = func(in *Interp, fr *Frame, a []Value) Value {
		for _, e := range append([]*mapEntry(nil), smap(in, a).ents...) {
			if !e.dead && !in.truth(in.callClosure(a[1].(*Closure), []Value{e.k, e.v}, fr)) {
				break
			}
		}
		return nil
	}
	N["maps.clone"] = func(in *Interp, fr *Frame, a []Value) Value {
		x := a[0].(Iface)
		m, _ := x.v.(*Map)
		if m == nil {
			return x
		}
		c := newMap()
		for _, e := range m.ents {
			if !e.dead {
				in.mapSet(c, e.k, e.v)
			}
		}
		return Iface{t: x.t, v: c}
	}
	// ---- os / io / time
	registerOS(N, sym)
	N["os.Getenv"] = func(in *Interp, fr *Frame, a []Value) Value { return "" }
	N["(embed.FS).ReadFile"] = func(in *Interp, fr *Frame, a []Value) Value {
		name := in.concString(a[1])
		full := filepath.Join(repoDir, filepath.FromSlash(name))
		if strings.HasPrefix(name, "embed/") && !strings.Contains(name, "..") {
			if b, err := os.ReadFile(full); err == nil {
				s := make(Slice, len(b))
				for i, c := range b {
					s[i] = int64(c)
				}
				return Tuple{s, Iface{}}
			}
		}
		return Tuple{Slice(nil), in.globalByName("io/fs", "ErrNotExist")}
	}
	N["time.Now"] = func(in *Interp, fr *Frame, a []Value) Value {
		return zeroFn(in.p.typeByName("time", "Time"))()
	}
	N["(time.Time).Unix"] = func(in *Interp, fr *Frame, a []Value) Value { return int64(1700000000) }
	N["(time.Time).UnixNano"] = func(in *Interp, fr *Frame, a []Value) Value { return int64(1700000000000000000) }
	N["(time.Time).UnixMicro"] = func(in *Interp, fr *Frame, a []Value) Value { return int64(1700000000000000) }
	N["(time.Time).UnixMilli"] = func(in *Interp, fr *Frame, a []Value) Value { return int64(1700000000000) }
	N["internal/godebug.New"] = func(in *Interp, fr *Frame, a []Value) Value { return newNative("godebug") }
	N["(*internal/godebug.Setting).Value"] = func(in *Interp, fr *Frame, a []Value) Value { return "" }
	N["(*internal/godebug.Setting).IncNonDefault"] = retNil
	N["sort.Slice"] = nativeSortSlice
	N["sort.SliceStable"] = nativeSortSlice
	registerFmt(p)
	_ = time.Now
}

func (in *Interp) strBytesN(v Value, n int) []Value {
	switch x := in.force(v).(type) {
	case string:
		if len(x) > n {
			x = x[:n]
		}
		r := make([]Value, len(x))
		for i := 0; i < len(x); i++ {
			r[i] = int64(x[i])
		}
		return r
	case *SymStr:
		return x.b
	}
	panic("strBytesN")
}

func (in *Interp) foldEq(a, b Value) Value {
	ia, ib := &strIter{s: in.force(a)}, &strIter{s: in.force(b)}
	for {
		x := ia.next(in).(Tuple)
		y := ib.next(in).(Tuple)
		if x[0] == false || y[0] == false {
			return x[0] == y[0]
		}
		if in.truth(in.eq(x[2], y[2])) {
			continue
		}
		// ASCII case folding symbolically, else concretise
		p, q := in.intTerm(x[2], 32), in.intTerm(y[2], 32)
		asc := in.tc.And(in.tc.Ult(p, in.tc.BV(128, 32)), in.tc.Ult(q, in.tc.BV(128, 32)))
		if in.branch(asc) {
			lp := in.tc.Bin(OpBOr, p, in.tc.BV(0x20, 32))
			lq := in.tc.Bin(OpBOr, q, in.tc.BV(0x20, 32))
			e := in.tc.And(in.tc.Eq(lp, lq), in.rangesTerm(lp, 'a', 'z'))
			if !in.branch(e) {
				return false
			}
			continue
		}
		r1, r2 := rune(in.concInt(x[2], i32)), rune(in.concInt(y[2], i32))
		if !strings.EqualFold(string(r1), string(r2)) {
			return false
		}
	}
}

func (in *Interp) globalByName(pkg, name string) Value {
	for _, pk := range in.p.prog.AllPackages() {
		if pk.Pkg.Path() == pkg {
			if g := pk.Var(name); g != nil {
				return *in.globalCell(in.p.globalIndex(g))
			}
		}
	}
	panic("no global " + pkg + "." + name)
}

func (in *Interp) numError(fn, s string, err error) Value {
	ne := err.(*strconv.NumError)
	var inner Value
	if ne.Err == strconv.ErrRange {
		inner = in.globalByName("strconv", "ErrRange")
	} else {
		inner = in.globalByName("strconv", "ErrSyntax")
	}
	p := new(Value)
	*p = Struct{fn, s, inner}
	return Iface{rtypeOf(types.NewPointer(in.p.typeByName("strconv", "NumError"))), p}
}

// ---- errors.Is / errors.As

func (in *Interp) unwrap(e Iface) (Iface, []Iface) {
	fn := in.p.methodByName(e.t, "Unwrap")
	if fn == nil {
		return Iface{}, nil
	}
	sig := fn.f.Signature
	if sig.Results().Len() != 1 {
		return Iface{}, nil
	}
	r := in.call(fn, []Value{e.v}, nil, nil)
	switch x := r.(type) {
	case Iface:
		return x, nil
	case Slice:
		var l []Iface
		for _, v := range x {
			l = append(l, v.(Iface))
		}
		return Iface{}, l
	}
	return Iface{}, nil
}

func nativeErrorsIs(in *Interp, fr *Frame, a []Value) Value {
	err, target := a[0].(Iface), a[1].(Iface)
	if err.t == nil || target.t == nil {
		return err.t == target.t
	}
	return in.errIs(err, target, target.t.comparable())
}

func (in *Interp) errIs(err, target Iface, cmp bool) bool {
	for {
		if cmp && err.t == target.t && in.truth(in.ifaceEq(err, target)) {
			return true
		}
		if fn := in.p.methodByName(err.t, "Is"); fn != nil && fn.f.Signature.Params().Len() == 1 &&
			types.Identical(fn.f.Signature.Params().At(0).Type(), types.Universe.Lookup("error").Type()) {
			if in.truth(in.call(fn, []Value{err.v, target}, nil, nil)) {
				return true
			}
		}
		one, many := in.unwrap(err)
		if many != nil {
			for _, e := range many {
				if e.t != nil && in.errIs(e, target, cmp) {
					return true
				}
			}
			return false
		}
		if one.t == nil {
			return false
		}
		err = one
	}
}

func nativeErrorsAs(in *Interp, fr *Frame, a []Value) Value {
	err := a[0].(Iface)
	target := a[1].(Iface)
	if err.t == nil {
		return false
	}
	if target.t == nil {
		in.rtPanicPlain("errors: target cannot be nil")
	}
	pt, ok := target.t.t.Underlying().(*types.Pointer)
	if !ok {
		in.rtPanicPlain("errors: target must be a non-nil pointer")
	}
	return in.errAs(err, target.v.(Ptr), pt.Elem(), target)
}

func (in *Interp) errAs(err Iface, p Ptr, tt types.Type, target Iface) bool {
	it, isI := tt.Underlying().(*types.Interface)
	var rt *RType
	if !isI {
		rt = rtypeOf(tt)
	}
	for {
		if isI {
			if implements(err.t, it) {
				in.store(p, err)
				return true
			}
		} else if err.t == rt {
			in.store(p, err.v)
			return true
		}
		if fn := in.p.methodByName(err.t, "As"); fn != nil {
			if in.truth(in.call(fn, []Value{err.v, target}, nil, nil)) {
				return true
			}
		}
		one, many := in.unwrap(err)
		if many != nil {
			for _, e := range many {
				if e.t != nil && in.errAs(e, p, tt, target) {
					return true
				}
			}
			return false
		}
		if one.t == nil {
			return false
		}
		err = one
	}
}

func nativeSortSlice(in *Interp, fr *Frame, a []Value) Value {
	s := a[0].(Iface).v.(Slice)
	less := a[1].(*Closure)
	// insertion sort through the target's comparison
	for i := 1; i < len(s); i++ {
		for j := i; j > 0; j-- {
			if !in.truth(in.callClosure(less, []Value{int64(j), int64(j - 1)}, fr)) {
				break
			}
			x, y := s[j], s[j-1]
			in.set(&s[j], y)
			in.set(&s[j-1], x)
		}
	}
	return nil
}

// ---- integer formatting

func digitsOf(base int) string { return "0123456789abcdefghijklmnopqrstuvwxyz"[:base] }

func (in *Interp) fmtInt(v Value, ii intInfo, base int) Value {
	if x, ok := v.(int64); ok {
		if ii.signed {
			return strconv.FormatInt(x, base)
		}
		return strconv.FormatUint(uint64(x), base)
	}
	tc := in.tc
	t := v.(*Term)
	if ii.signed {
		t = tc.Sext(t, 64)
	} else {
		t = tc.Zext(t, 64)
	}
	var out []Value
	neg := false
	abs := t
	if ii.signed && in.branch(tc.Slt(t, tc.BV(0, 64))) {
		neg = true
		abs = tc.Neg(t)
	}
	if neg {
		out = append(out, int64('-'))
	}
	return mkStr(append(out, in.udigits(abs, base)...))
}

type digitsKey struct {
	t    *Term
	base int
}

// udigits renders an unsigned 64-bit term; forks on the number of digits.
func (in *Interp) udigits(abs *Term, base int) []Value {
	tc := in.tc
	b := uint64(base)
	// number of digits
	n := 1
	lim := b
	for {
		if in.branch(tc.Ult(abs, tc.BV(lim, 64))) {
			break
		}
		n++
		if lim > math.MaxUint64/b {
			break
		}
		lim *= b
	}
	dig := func(d *Term) Value { // d: BV8 digit value
		if base <= 10 {
			return intInfo{8, false}.lower(tc.Bin(OpAdd, d, tc.BV('0', 8)))
		}
		return intInfo{8, false}.lower(tc.Ite(tc.Ult(d, tc.BV(10, 8)), tc.Bin(OpAdd, d, tc.BV('0', 8)), tc.Bin(OpAdd, d, tc.BV('a'-10, 8))))
	}
	out := make([]Value, n)
	if b&(b-1) == 0 {
		sh := uint(0)
		for 1<<sh != b {
			sh++
		}
		for i := 0; i < n; i++ {
			lo := uint(i) * sh
			w := sh
			if lo+w > 64 {
				w = 64 - lo
			}
			out[n-1-i] = dig(tc.Zext(tc.Extract(abs, lo, Sort(w)), 8))
		}
		return out
	}
	if n == 1 {
		out[0] = dig(tc.Extract(abs, 0, 8))
		return out
	}
	// fresh digit variables d_i with abs = sum d_i * b^i (no overflow because n is exact)
	key := digitsKey{abs, base}
	if m, ok := in.path.digits[key]; ok {
		return m
	}
	sum := tc.BV(0, 64)
	var top *Term
	pow := uint64(1)
	for i := 0; i < n; i++ {
		d := in.auxVar("digit", 8)
		in.addPC(tc.Ult(d, tc.BV(b, 8)))
		sum = tc.Bin(OpAdd, sum, tc.Bin(OpMul, tc.Zext(d, 64), tc.BV(pow, 64)))
		out[n-1-i] = dig(d)
		top = d
		// keep the model consistent
		in.path.model = in.path.model.with(d.name, in.tc.eval(abs, in.path.model)/pow%b)
		if i < n-1 {
			pow *= b
		}
	}
	// the leading digit is at most max/pow, so a sum that wraps around is below pow and cannot be abs
	if l := math.MaxUint64 / pow; l < b-1 {
		in.addPC(tc.Ult(top, tc.BV(l+1, 8)))
	}
	in.addPC(tc.Eq(sum, abs))
	if in.path.digits == nil {
		in.path.digits = map[digitsKey][]Value{}
	}
	in.path.digits[key] = out
	return out
}

// auxVar declares an engine-defined auxiliary variable (functionally determined by the inputs).
func (in *Interp) auxVar(name string, s Sort) *Term {
	return in.freshVar("~"+name, s)
}

var _ = regexp.Compile
