package main

import (
	"fmt"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/types/typeutil"
)

// Value representation:
//
//	integers    int64 (normalised by static type; uint64 bit-cast) or *Term(BV)
//	bool        bool or *Term(Bool)
//	float32/64  float64 or *Term(FP)
//	complex     complex128
//	string      string, *SymStr, *LazyStr
//	pointers    Ptr (*Value); unsafe.Pointer likewise
//	struct      Struct, array Array (cells)
//	slice       Slice
//	map         *Map
//	interface   Iface
//	func        *Closure
//	chan        *Chan
//	tuple       Tuple
type Value = any
type Ptr = *Value
type Struct []Value
type Array []Value
type Slice []Value
type Tuple []Value
type Iface struct {
	t *RType
	v Value
}
type Closure struct {
	fn   *Fn
	env  []Value
	bi   string // builtin name
	name string
	nat  func(in *Interp, fr *Frame, args []Value) Value
}
type Chan struct {
	closed bool
	buf    []Value
	cap    int
}
type SymStr struct{ b []Value } // each int64 (0..255) or *Term BV8
type LazyStr struct {
	f    func(in *Interp) Value
	done bool
	v    Value
}
type Native struct{ v any }
type SlicePtr struct{ s Slice } // result of unsafe.SliceData
type StrPtr struct{ s Value }

// RType is the canonical run-time type.
type RType struct {
	t       types.Type
	id      int
	methods sync.Map // string key -> *Fn
	impl    sync.Map // *types.Interface -> bool
	cmp     int      // 0 unknown 1 comparable 2 not
}

type Types struct {
	mu sync.Mutex
	m  typeutil.Map
	n  int
}

var typeTab Types

func rtypeOf(t types.Type) *RType {
	t = types.Unalias(t)
	typeTab.mu.Lock()
	defer typeTab.mu.Unlock()
	if r := typeTab.m.At(t); r != nil {
		return r.(*RType)
	}
	typeTab.n++
	r := &RType{t: t, id: typeTab.n}
	typeTab.m.Set(t, r)
	return r
}

func (r *RType) comparable() bool {
	if r.cmp == 0 {
		if dynComparable(r.t) {
			r.cmp = 1
		} else {
			r.cmp = 2
		}
	}
	return r.cmp == 1
}

func dynComparable(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Map, *types.Signature:
		return false
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !dynComparable(u.Field(i).Type()) {
				return false
			}
		}
	case *types.Array:
		return dynComparable(u.Elem())
	}
	return true
}

// ---- integer types

type intInfo struct {
	w      Sort
	signed bool
}

func intInfoOf(t types.Type) (intInfo, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return intInfo{}, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return intInfo{64, true}, true
	case types.Int32, types.UntypedRune:
		return intInfo{32, true}, true
	case types.Int16:
		return intInfo{16, true}, true
	case types.Int8:
		return intInfo{8, true}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return intInfo{64, false}, true
	case types.Uint32:
		return intInfo{32, false}, true
	case types.Uint16:
		return intInfo{16, false}, true
	case types.Uint8:
		return intInfo{8, false}, true
	}
	return intInfo{}, false
}

func (ii intInfo) norm(v int64) int64 {
	if ii.w == 64 {
		return v
	}
	sh := 64 - uint(ii.w)
	if ii.signed {
		return v << sh >> sh
	}
	return int64(uint64(v) << sh >> sh)
}

// lower converts a term of an integer type to a Value.
func (ii intInfo) lower(t *Term) Value {
	if t.op == OpConst {
		return ii.norm(int64(t.val))
	}
	return t
}

func lowerBool(t *Term) Value {
	if t.op == OpConst {
		return t.val != 0
	}
	return t
}

func zeroFn(t types.Type) func() Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return func() Value { return int64(0) }
		case u.Info()&types.IsBoolean != 0:
			return func() Value { return false }
		case u.Info()&types.IsFloat != 0:
			return func() Value { return float64(0) }
		case u.Info()&types.IsComplex != 0:
			return func() Value { return complex128(0) }
		case u.Info()&types.IsString != 0:
			return func() Value { return "" }
		case u.Kind() == types.UnsafePointer:
			return func() Value { return Ptr(nil) }
		case u.Kind() == types.UntypedNil:
			return func() Value { return nil }
		}
	case *types.Pointer:
		return func() Value { return Ptr(nil) }
	case *types.Slice:
		return func() Value { return Slice(nil) }
	case *types.Map:
		return func() Value { return (*Map)(nil) }
	case *types.Chan:
		return func() Value { return (*Chan)(nil) }
	case *types.Signature:
		return func() Value { return (*Closure)(nil) }
	case *types.Interface:
		return func() Value { return Iface{} }
	case *types.Struct:
		fs := make([]func() Value, u.NumFields())
		for i := range fs {
			fs[i] = zeroFn(u.Field(i).Type())
		}
		return func() Value {
			s := make(Struct, len(fs))
			for i, f := range fs {
				s[i] = f()
			}
			return s
		}
	case *types.Array:
		n := int(u.Len())
		f := zeroFn(u.Elem())
		return func() Value {
			s := make(Array, n)
			for i := range s {
				s[i] = f()
			}
			return s
		}
	case *types.Tuple:
		fs := make([]func() Value, u.Len())
		for i := range fs {
			fs[i] = zeroFn(u.At(i).Type())
		}
		return func() Value {
			s := make(Tuple, len(fs))
			for i, f := range fs {
				s[i] = f()
			}
			return s
		}
	case *types.TypeParam:
		return func() Value { panic("zero of type param") }
	}
	panic(fmt.Sprintf("zeroFn %v", t))
}

func isAggregate(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		r := make(Struct, len(x))
		for i, e := range x {
			r[i] = copyVal(e)
		}
		return r
	case Array:
		r := make(Array, len(x))
		for i, e := range x {
			r[i] = copyVal(e)
		}
		return r
	}
	return v
}

// ---- trail

type trailEntry struct {
	p    Ptr
	old  Value
	undo func()
}

func (in *Interp) set(p Ptr, v Value) {
	if in.trailing {
		in.trail = append(in.trail, trailEntry{p: p, old: *p})
	}
	*p = v
}

func (in *Interp) store(p Ptr, v Value) {
	switch x := v.(type) {
	case Struct:
		if d, ok := (*p).(Struct); ok && len(d) == len(x) {
			if len(x) > 0 && &d[0] == &x[0] {
				return
			}
			for i := range x {
				in.store(&d[i], x[i])
			}
			return
		}
		in.set(p, copyVal(v))
		return
	case Array:
		if d, ok := (*p).(Array); ok && len(d) == len(x) {
			if len(x) > 0 && &d[0] == &x[0] {
				return
			}
			for i := range x {
				in.store(&d[i], x[i])
			}
			return
		}
		in.set(p, copyVal(v))
		return
	}
	in.set(p, v)
}

func (in *Interp) rollback(n int) {
	for i := len(in.trail) - 1; i >= n; i-- {
		e := &in.trail[i]
		if e.undo != nil {
			e.undo()
		} else {
			*e.p = e.old
		}
		*e = trailEntry{}
	}
	in.trail = in.trail[:n]
}

// ---- term conversion

func (in *Interp) intTerm(v Value, w Sort) *Term {
	switch x := v.(type) {
	case int64:
		return in.tc.BV(uint64(x), w)
	case *Term:
		if x.sort != w {
			panic(fmt.Sprintf("intTerm: sort %d want %d", x.sort, w))
		}
		return x
	}
	panic(fmt.Sprintf("intTerm: %T", v))
}

func (in *Interp) boolTerm(v Value) *Term {
	switch x := v.(type) {
	case bool:
		return in.tc.Bool(x)
	case *Term:
		return x
	}
	panic(fmt.Sprintf("boolTerm: %T", v))
}

func (in *Interp) fpTerm(v Value) *Term {
	switch x := v.(type) {
	case float64:
		return in.tc.FP(x)
	case *Term:
		return x
	}
	panic(fmt.Sprintf("fpTerm: %T", v))
}

// truth forces a boolean value, forking when symbolic.
func (in *Interp) truth(v Value) bool {
	switch x := v.(type) {
	case bool:
		return x
	case *Term:
		return in.branch(x)
	}
	panic(fmt.Sprintf("truth: %T", v))
}

// ---- equality (returns bool or *Term Bool)

func (in *Interp) and(a Value, b func() Value) Value {
	if x, ok := a.(bool); ok {
		if !x {
			return false
		}
		return b()
	}
	y := b()
	if yb, ok := y.(bool); ok {
		if !yb {
			return false
		}
		return a
	}
	return lowerBool(in.tc.And(a.(*Term), y.(*Term)))
}

func (in *Interp) not(a Value) Value {
	switch x := a.(type) {
	case bool:
		return !x
	case *Term:
		return lowerBool(in.tc.Not(x))
	}
	panic("not")
}

func (in *Interp) eq(a, b Value) Value {
	switch x := a.(type) {
	case int64:
		switch y := b.(type) {
		case int64:
			return x == y
		case *Term:
			return lowerBool(in.tc.Eq(in.tc.BV(uint64(x), y.sort), y))
		}
	case bool:
		switch y := b.(type) {
		case bool:
			return x == y
		case *Term:
			return lowerBool(in.tc.Eq(in.tc.Bool(x), y))
		}
	case *Term:
		switch y := b.(type) {
		case *Term:
			if x.sort == SFP {
				return lowerBool(in.tc.FCmp(OpFEq, x, y))
			}
			return lowerBool(in.tc.Eq(x, y))
		case int64:
			return lowerBool(in.tc.Eq(x, in.tc.BV(uint64(y), x.sort)))
		case bool:
			return lowerBool(in.tc.Eq(x, in.tc.Bool(y)))
		case float64:
			return lowerBool(in.tc.FCmp(OpFEq, x, in.tc.FP(y)))
		}
	case float64:
		switch y := b.(type) {
		case float64:
			return x == y
		case *Term:
			return lowerBool(in.tc.FCmp(OpFEq, in.tc.FP(x), y))
		}
	case complex128:
		return x == b.(complex128)
	case string, *SymStr, *LazyStr:
		return in.strEq(a, b)
	case Ptr:
		y, ok := b.(Ptr)
		return ok && x == y
	case Iface:
		y := b.(Iface)
		return in.ifaceEq(x, y)
	case Struct:
		y := b.(Struct)
		var r Value = true
		for i := range x {
			i := i
			r = in.and(r, func() Value { return in.eq(x[i], y[i]) })
			if r == false {
				return false
			}
		}
		return r
	case Array:
		y := b.(Array)
		var r Value = true
		for i := range x {
			i := i
			r = in.and(r, func() Value { return in.eq(x[i], y[i]) })
			if r == false {
				return false
			}
		}
		return r
	case *Chan:
		y, _ := b.(*Chan)
		return x == y
	case *Map:
		y, _ := b.(*Map)
		return x == y
	case *Closure:
		y, _ := b.(*Closure)
		return x == nil && y == nil
	case Slice:
		y, _ := b.(Slice)
		return x == nil && y == nil
	case SlicePtr:
		y, ok := b.(SlicePtr)
		return ok && len(x.s) > 0 && len(y.s) > 0 && &x.s[0] == &y.s[0]
	}
	panic(fmt.Sprintf("eq: %T %T", a, b))
}

func (in *Interp) ifaceEq(x, y Iface) Value {
	if x.t != y.t {
		return false
	}
	if x.t == nil {
		return true
	}
	if !x.t.comparable() {
		in.rtPanic("comparing uncomparable type " + x.t.String())
	}
	return in.eq(x.v, y.v)
}

func (r *RType) String() string {
	return typeString(r.t)
}
func typeString(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// ---- strings

func (in *Interp) force(v Value) Value {
	for {
		l, ok := v.(*LazyStr)
		if !ok {
			return v
		}
		if !l.done {
			l.v = l.f(in)
			l.done = true
			if in.trailing {
				in.trail = append(in.trail, trailEntry{undo: func() { l.done = false; l.v = nil }})
			}
		}
		v = l.v
	}
}

func (in *Interp) strLen(v Value) int {
	switch x := in.force(v).(type) {
	case string:
		return len(x)
	case *SymStr:
		return len(x.b)
	}
	panic(fmt.Sprintf("strLen %T", v))
}

func (in *Interp) strBytes(v Value) []Value {
	switch x := in.force(v).(type) {
	case string:
		r := make([]Value, len(x))
		for i := 0; i < len(x); i++ {
			r[i] = int64(x[i])
		}
		return r
	case *SymStr:
		return x.b
	}
	panic(fmt.Sprintf("strBytes %T", v))
}

func mkStr(b []Value) Value {
	for _, e := range b {
		if _, ok := e.(*Term); ok {
			return &SymStr{b: append([]Value(nil), b...)}
		}
	}
	var sb strings.Builder
	sb.Grow(len(b))
	for _, e := range b {
		sb.WriteByte(byte(e.(int64)))
	}
	return sb.String()
}

func (in *Interp) strIndex(v Value, i int) Value {
	switch x := in.force(v).(type) {
	case string:
		return int64(x[i])
	case *SymStr:
		return x.b[i]
	}
	panic("strIndex")
}

func (in *Interp) strSlice(v Value, lo, hi int) Value {
	switch x := in.force(v).(type) {
	case string:
		return x[lo:hi]
	case *SymStr:
		return mkStr(x.b[lo:hi])
	}
	panic("strSlice")
}

func (in *Interp) strConcat(a, b Value) Value {
	a, b = in.force(a), in.force(b)
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
		if x == "" {
			return b
		}
	}
	if y, ok := b.(string); ok && y == "" {
		return a
	}
	r := append([]Value(nil), in.strBytes(a)...)
	r = append(r, in.strBytes(b)...)
	return &SymStr{b: r}
}

func (in *Interp) strEq(a, b Value) Value {
	a, b = in.force(a), in.force(b)
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return x == y
	}
	if in.strLen(a) != in.strLen(b) {
		return false
	}
	p, q := in.strBytes(a), in.strBytes(b)
	var r Value = true
	for i := range p {
		e := in.eq(p[i], q[i])
		if e == false {
			return false
		}
		r = in.and(r, func() Value { return e })
	}
	return r
}

// strLess: a < b
func (in *Interp) strLess(a, b Value) Value {
	a, b = in.force(a), in.force(b)
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return x < y
	}
	p, q := in.strBytes(a), in.strBytes(b)
	n := min(len(p), len(q))
	r := in.tc.Bool(len(p) < len(q))
	for i := n - 1; i >= 0; i-- {
		s, t := in.intTerm(p[i], 8), in.intTerm(q[i], 8)
		r = in.tc.Ite(in.tc.Eq(s, t), r, in.tc.Ult(s, t))
	}
	return lowerBool(r)
}

// ---- maps

type mapEntry struct {
	k    Value
	v    Value
	dead bool
	sym  bool
}
type Map struct {
	ents []*mapEntry
	idx  map[any]*mapEntry
	n    int
	nsym int
}

func newMap() *Map { return &Map{idx: map[any]*mapEntry{}} }

type pairKey struct{ a, b any }
type ifaceKey struct {
	t *RType
	k any
}

// keyOf canonicalises a concrete key; ok=false when it contains symbolic parts.
func (in *Interp) keyOf(v Value) (any, bool) {
	switch x := v.(type) {
	case int64, bool, float64, string, complex128, Ptr, *Chan:
		return x, true
	case *Term:
		return nil, false
	case *SymStr:
		return nil, false
	case *LazyStr:
		return in.keyOf(in.force(x))
	case Iface:
		if x.t == nil {
			return ifaceKey{}, true
		}
		if !x.t.comparable() {
			in.rtPanic("hash of unhashable type " + x.t.String())
		}
		k, ok := in.keyOf(x.v)
		return ifaceKey{x.t, k}, ok
	case Struct:
		return in.keyOfSeq(x)
	case Array:
		return in.keyOfSeq(x)
	}
	panic(fmt.Sprintf("keyOf %T", v))
}
func (in *Interp) keyOfSeq(x []Value) (any, bool) {
	var r any
	all := true
	for _, e := range x {
		k, ok := in.keyOf(e)
		all = all && ok
		if ok {
			r = pairKey{r, k}
		}
	}
	return r, all
}

// find returns the entry equal to k, forking on symbolic equality.
func (in *Interp) mapFind(m *Map, k Value) *mapEntry {
	key, conc := in.keyOf(k)
	if m == nil {
		return nil
	}
	if conc {
		if e, ok := m.idx[key]; ok {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
		for _, e := range m.ents {
			if e.dead || !e.sym {
				continue
			}
			if in.truth(in.eq(e.k, k)) {
				return e
			}
		}
		return nil
	}
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		if in.truth(in.eq(e.k, k)) {
			return e
		}
	}
	return nil
}

func (in *Interp) mapSet(m *Map, k, v Value) {
	if m == nil {
		in.rtPanicPlain("assignment to entry in nil map")
	}
	k = in.forceKey(k)
	if e := in.mapFind(m, k); e != nil {
		if in.trailing {
			old := e.v
			in.trail = append(in.trail, trailEntry{undo: func() { e.v = old }})
		}
		e.v = copyVal(v)
		return
	}
	key, conc := in.keyOf(k)
	e := &mapEntry{k: copyVal(k), v: copyVal(v), sym: !conc}
	m.ents = append(m.ents, e)
	m.n++
	if conc {
		m.idx[key] = e
	} else {
		m.nsym++
	}
	if in.trailing {
		in.trail = append(in.trail, trailEntry{undo: func() {
			// entries may have been compacted; remove by identity
			for i := len(m.ents) - 1; i >= 0; i-- {
				if m.ents[i] == e {
					m.ents = append(m.ents[:i:i], m.ents[i+1:]...)
					break
				}
			}
			m.n--
			if conc {
				delete(m.idx, key)
			} else {
				m.nsym--
			}
		}})
	}
}

func (in *Interp) forceKey(k Value) Value {
	if l, ok := k.(*LazyStr); ok {
		return in.force(l)
	}
	return k
}

func (in *Interp) mapDelete(m *Map, k Value) {
	if m == nil {
		in.keyOf(k)
		return
	}
	e := in.mapFind(m, in.forceKey(k))
	if e == nil {
		return
	}
	in.mapKill(m, e)
}

func (in *Interp) mapKill(m *Map, e *mapEntry) {
	e.dead = true
	m.n--
	key, conc := in.keyOf(e.k)
	if conc {
		delete(m.idx, key)
	} else {
		m.nsym--
	}
	if in.trailing {
		in.trail = append(in.trail, trailEntry{undo: func() {
			e.dead = false
			m.n++
			if conc {
				m.idx[key] = e
			} else {
				m.nsym++
			}
		}})
	}
}

func (in *Interp) mapClear(m *Map) {
	if m == nil {
		return
	}
	for _, e := range m.ents {
		if !e.dead {
			in.mapKill(m, e)
		}
	}
}

type mapIter struct {
	m *Map
	i int
}

func (it *mapIter) next() Value {
	if it.m != nil {
		for it.i < len(it.m.ents) {
			e := it.m.ents[it.i]
			it.i++
			if !e.dead {
				return Tuple{true, e.k, copyVal(e.v)}
			}
		}
	}
	return Tuple{false, nil, nil}
}
