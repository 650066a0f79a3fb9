package main

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

// Terms are hash-consed per worker.  Sorts: Bool, BV(w) with 1<=w<=64, FP64.

type Op uint8

const (
	OpConst Op = iota // Bool/BV: val ; FP: val = IEEE bits
	OpVar             // name
	OpNot
	OpAnd
	OpOr
	OpIte
	OpEq // any sort except FP (FP uses OpFEq)
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpAdd
	OpSub
	OpMul
	OpUdiv
	OpUrem
	OpSdiv
	OpSrem
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpNeg
	OpShl
	OpLshr
	OpAshr
	OpZext
	OpSext
	OpExtract // low bits: [w-1:0] shifted by val: extract (val+w-1) val
	OpConcat  // a ++ b
	OpFAdd
	OpFSub
	OpFMul
	OpFDiv
	OpFNeg
	OpFAbs
	OpFSqrt
	OpFLt
	OpFLe
	OpFEq
	OpFIsNaN
	OpFIsInf
	OpFRound    // val: 0 RNE 1 RNA 2 RTP 3 RTN 4 RTZ
	OpFFromBits // BV64 -> FP
	OpFFromS    // signed BV64 -> FP (RNE)
	OpFFromU    // unsigned
	OpFToS      // RTZ, only meaningful when in range
	OpFSingle   // FP or signed BV64 rounded to single precision, as FP
	OpFBitEq    // identical values incl. NaN==NaN, -0 != 0 (SMT =)
)

type Sort uint8 // 0 Bool, 1..64 BV width, 65 FP64

const (
	SBool Sort = 0
	SFP   Sort = 65
)

type Term struct {
	id   int
	op   Op
	sort Sort
	n    uint8
	a    [3]*Term
	val  uint64
	name string

	vi    *varInfo
	ev    uint64 // cached eval
	epoch int64

	emitted bool
}

type termKey struct {
	op   Op
	sort Sort
	a    [3]*Term
	val  uint64
	name string
}

type TermCtx struct {
	tab   map[termKey]*Term
	next  int
	True  *Term
	False *Term
}

func NewTermCtx() *TermCtx {
	c := &TermCtx{tab: map[termKey]*Term{}}
	c.True = c.mk(OpConst, SBool, 1, "")
	c.False = c.mk(OpConst, SBool, 0, "")
	return c
}

func (c *TermCtx) mk(op Op, s Sort, val uint64, name string, args ...*Term) *Term {
	k := termKey{op: op, sort: s, val: val, name: name}
	copy(k.a[:], args)
	if t, ok := c.tab[k]; ok {
		return t
	}
	c.next++
	t := &Term{id: c.next, op: op, sort: s, n: uint8(len(args)), a: k.a, val: val, name: name}
	c.tab[k] = t
	return t
}

func mask(w Sort) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w Sort) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func (t *Term) isConst() bool { return t.op == OpConst }

func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}
func (c *TermCtx) BV(v uint64, w Sort) *Term { return c.mk(OpConst, w, v&mask(w), "") }
func (c *TermCtx) FP(f float64) *Term {
	if f != f {
		return c.mk(OpConst, SFP, 0x7ff8000000000001, "")
	}
	return c.mk(OpConst, SFP, math.Float64bits(f), "")
}
func (c *TermCtx) Var(name string, s Sort) *Term { return c.mk(OpVar, s, 0, name) }

func (c *TermCtx) Not(a *Term) *Term {
	if a.isConst() {
		return c.Bool(a.val == 0)
	}
	if a.op == OpNot {
		return a.a[0]
	}
	return c.mk(OpNot, SBool, 0, "", a)
}

func (c *TermCtx) And(a, b *Term) *Term {
	if a.isConst() {
		if a.val == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.val == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OpNot && a.a[0] == b) || (b.op == OpNot && b.a[0] == a) {
		return c.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpAnd, SBool, 0, "", a, b)
}

func (c *TermCtx) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.val != 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.val != 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OpNot && a.a[0] == b) || (b.op == OpNot && b.a[0] == a) {
		return c.True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpOr, SBool, 0, "", a, b)
}

func (c *TermCtx) Ite(q, a, b *Term) *Term {
	if q.isConst() {
		if q.val != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.sort == SBool {
		if a.isConst() {
			if a.val != 0 {
				return c.Or(q, b)
			}
			return c.And(c.Not(q), b)
		}
		if b.isConst() {
			if b.val != 0 {
				return c.Or(c.Not(q), a)
			}
			return c.And(q, a)
		}
	}
	if q.op == OpNot {
		return c.Ite(q.a[0], b, a)
	}
	return c.mk(OpIte, a.sort, 0, "", q, a, b)
}

func (c *TermCtx) Eq(a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sort mismatch %d %d", a.sort, b.sort))
	}
	if a == b {
		return c.True
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.val == b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.sort == SBool {
		if b.isConst() {
			if b.val != 0 {
				return a
			}
			return c.Not(a)
		}
	} else if b.isConst() {
		switch a.op {
		case OpZext:
			x := a.a[0]
			if b.val&^mask(x.sort) != 0 {
				return c.False
			}
			return c.Eq(x, c.BV(b.val, x.sort))
		case OpSext:
			x := a.a[0]
			if uint64(sext(b.val&mask(x.sort), x.sort))&mask(a.sort) != b.val {
				return c.False
			}
			return c.Eq(x, c.BV(b.val, x.sort))
		case OpIte:
			if a.a[1].isConst() || a.a[2].isConst() {
				return c.Ite(a.a[0], c.Eq(a.a[1], b), c.Eq(a.a[2], b))
			}
		case OpAdd:
			if a.a[1].isConst() {
				return c.Eq(a.a[0], c.BV(b.val-a.a[1].val, a.sort))
			}
		case OpSub:
			if a.a[0].isConst() {
				return c.Eq(a.a[1], c.BV(a.a[0].val-b.val, a.sort))
			}
		case OpNeg:
			return c.Eq(a.a[0], c.BV(-b.val, a.sort))
		case OpBNot:
			return c.Eq(a.a[0], c.BV(^b.val, a.sort))
		}
	} else {
		if a.op == OpZext && b.op == OpZext && a.a[0].sort == b.a[0].sort {
			return c.Eq(a.a[0], b.a[0])
		}
		if a.op == OpSext && b.op == OpSext && a.a[0].sort == b.a[0].sort {
			return c.Eq(a.a[0], b.a[0])
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return c.mk(OpEq, SBool, 0, "", a, b)
}

func (c *TermCtx) Ult(a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("Ult sort mismatch %d %d", a.sort, b.sort))
	}
	if a == b {
		return c.False
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.val < b.val)
	}
	if b.isConst() && b.val == 0 {
		return c.False
	}
	if a.isConst() && a.val == mask(a.sort) {
		return c.False
	}
	if b.isConst() && a.op == OpZext {
		x := a.a[0]
		if b.val > mask(x.sort) {
			return c.True
		}
		return c.Ult(x, c.BV(b.val, x.sort))
	}
	if a.isConst() && b.op == OpZext {
		x := b.a[0]
		if a.val >= mask(x.sort) {
			return c.False
		}
		return c.Ult(c.BV(a.val, x.sort), x)
	}
	if a.op == OpZext && b.op == OpZext && a.a[0].sort == b.a[0].sort {
		return c.Ult(a.a[0], b.a[0])
	}
	return c.mk(OpUlt, SBool, 0, "", a, b)
}
func (c *TermCtx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }

func (c *TermCtx) Slt(a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("Slt sort mismatch %d %d", a.sort, b.sort))
	}
	if a == b {
		return c.False
	}
	if a.isConst() && b.isConst() {
		return c.Bool(sext(a.val, a.sort) < sext(b.val, b.sort))
	}
	if b.isConst() && a.op == OpZext && a.sort > a.a[0].sort {
		sv := sext(b.val, b.sort)
		if sv <= 0 {
			return c.False
		}
		return c.Ult(a, b)
	}
	if a.isConst() && b.op == OpZext && b.sort > b.a[0].sort {
		sv := sext(a.val, a.sort)
		if sv < 0 {
			return c.True
		}
		return c.Ult(a, b)
	}
	if a.op == OpZext && b.op == OpZext && a.a[0].sort == b.a[0].sort && a.sort > a.a[0].sort {
		return c.Ult(a.a[0], b.a[0])
	}
	if b.isConst() && sext(b.val, b.sort) == minS(b.sort) {
		return c.False
	}
	if a.isConst() && sext(a.val, a.sort) == maxS(a.sort) {
		return c.False
	}
	return c.mk(OpSlt, SBool, 0, "", a, b)
}
func minS(w Sort) int64                 { return -int64(1) << (w - 1) }
func maxS(w Sort) int64                 { return ^minS(w) }
func (c *TermCtx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

func (c *TermCtx) Bin(op Op, a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("Bin %d sort mismatch %d %d", op, a.sort, b.sort))
	}
	w := a.sort
	if a.isConst() && b.isConst() {
		return c.BV(evalBV(op, a.val, b.val, w), w)
	}
	switch op {
	case OpAdd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return a
			}
			if a.op == OpAdd && a.a[1].isConst() {
				return c.Bin(OpAdd, a.a[0], c.BV(a.a[1].val+b.val, w))
			}
		} else if a.id > b.id {
			a, b = b, a
		}
	case OpSub:
		if a == b {
			return c.BV(0, w)
		}
		if b.isConst() {
			return c.Bin(OpAdd, a, c.BV(-b.val, w))
		}
	case OpMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
		} else if a.id > b.id {
			a, b = b, a
		}
	case OpBAnd:
		if a == b {
			return a
		}
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
			if a.op == OpZext && b.val&mask(a.a[0].sort) == mask(a.a[0].sort) {
				return a
			}
		}
	case OpBOr:
		if a == b {
			return a
		}
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return a
			}
			if b.val == mask(w) {
				return b
			}
		}
	case OpBXor:
		if a == b {
			return c.BV(0, w)
		}
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.val == 0 {
			return a
		}
	case OpUdiv, OpSdiv:
		if b.isConst() && b.val == 1 {
			return a
		}
	case OpShl, OpLshr, OpAshr:
		if b.isConst() && b.val == 0 {
			return a
		}
		if op != OpAshr && b.isConst() && b.val >= uint64(w) {
			return c.BV(0, w)
		}
	}
	return c.mk(op, w, 0, "", a, b)
}

func (c *TermCtx) Neg(a *Term) *Term {
	if a.isConst() {
		return c.BV(-a.val, a.sort)
	}
	if a.op == OpNeg {
		return a.a[0]
	}
	return c.mk(OpNeg, a.sort, 0, "", a)
}
func (c *TermCtx) BNot(a *Term) *Term {
	if a.isConst() {
		return c.BV(^a.val, a.sort)
	}
	if a.op == OpBNot {
		return a.a[0]
	}
	return c.mk(OpBNot, a.sort, 0, "", a)
}
func (c *TermCtx) Zext(a *Term, w Sort) *Term {
	if a.sort == w {
		return a
	}
	if a.isConst() {
		return c.BV(a.val, w)
	}
	if a.op == OpZext {
		return c.Zext(a.a[0], w)
	}
	return c.mk(OpZext, w, 0, "", a)
}
func (c *TermCtx) Sext(a *Term, w Sort) *Term {
	if a.sort == w {
		return a
	}
	if a.isConst() {
		return c.BV(uint64(sext(a.val, a.sort)), w)
	}
	if a.op == OpZext && a.sort > a.a[0].sort {
		return c.Zext(a.a[0], w)
	}
	if a.op == OpSext {
		return c.Sext(a.a[0], w)
	}
	return c.mk(OpSext, w, 0, "", a)
}

// Extract w bits starting at lo.
func (c *TermCtx) Extract(a *Term, lo uint, w Sort) *Term {
	if lo == 0 && a.sort == w {
		return a
	}
	if a.isConst() {
		return c.BV(a.val>>lo, w)
	}
	if (a.op == OpZext || a.op == OpSext) && lo == 0 {
		x := a.a[0]
		if x.sort == w {
			return x
		}
		if x.sort > w {
			return c.Extract(x, 0, w)
		}
		if a.op == OpZext {
			return c.Zext(x, w)
		}
		return c.Sext(x, w)
	}
	if a.op == OpZext && lo >= uint(a.a[0].sort) {
		return c.BV(0, w)
	}
	if a.op == OpIte && (a.a[1].isConst() || a.a[2].isConst()) {
		return c.Ite(a.a[0], c.Extract(a.a[1], lo, w), c.Extract(a.a[2], lo, w))
	}
	return c.mk(OpExtract, w, uint64(lo), "", a)
}

func evalBV(op Op, a, b uint64, w Sort) uint64 {
	m := mask(w)
	switch op {
	case OpAdd:
		return (a + b) & m
	case OpSub:
		return (a - b) & m
	case OpMul:
		return (a * b) & m
	case OpUdiv:
		if b == 0 {
			return m
		}
		return a / b
	case OpUrem:
		if b == 0 {
			return a
		}
		return a % b
	case OpSdiv:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OpSrem:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OpBAnd:
		return a & b
	case OpBOr:
		return a | b
	case OpBXor:
		return a ^ b
	case OpShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OpLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OpAshr:
		x := sext(a, w)
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(x>>b) & m
	}
	panic("evalBV")
}

// ---- floats

func (c *TermCtx) FBin(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.FP(evalF(op, math.Float64frombits(a.val), math.Float64frombits(b.val)))
	}
	return c.mk(op, SFP, 0, "", a, b)
}
func evalF(op Op, x, y float64) float64 {
	switch op {
	case OpFAdd:
		return x + y
	case OpFSub:
		return x - y
	case OpFMul:
		return x * y
	case OpFDiv:
		return x / y
	}
	panic("evalF")
}
func (c *TermCtx) FCmp(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.Bool(evalFCmp(op, math.Float64frombits(a.val), math.Float64frombits(b.val)))
	}
	return c.mk(op, SBool, 0, "", a, b)
}
func evalFCmp(op Op, x, y float64) bool {
	switch op {
	case OpFLt:
		return x < y
	case OpFLe:
		return x <= y
	case OpFEq:
		return x == y
	case OpFBitEq:
		return x != x && y != y || math.Float64bits(x) == math.Float64bits(y)
	}
	panic("evalFCmp")
}
func evalRound(mode uint64, x float64) float64 {
	switch mode {
	case 0:
		return math.RoundToEven(x)
	case 1:
		return math.Round(x)
	case 2:
		return math.Ceil(x)
	case 3:
		return math.Floor(x)
	case 4:
		return math.Trunc(x)
	}
	panic("evalRound")
}
func (c *TermCtx) FUn(op Op, a *Term, val uint64) *Term {
	s := SFP
	switch op {
	case OpFIsNaN, OpFIsInf:
		s = SBool
	case OpFToS:
		s = 64
	}
	t := c.mk(op, s, val, "", a)
	if a.isConst() {
		v := evalOp(t, [3]uint64{a.val})
		if s == SFP {
			return c.FP(math.Float64frombits(v))
		}
		if s == SBool {
			return c.Bool(v != 0)
		}
		return c.BV(v, s)
	}
	return t
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func evalOp(t *Term, v [3]uint64) uint64 {
	w := t.sort
	f := func(i int) float64 { return math.Float64frombits(v[i]) }
	switch t.op {
	case OpConst:
		return t.val
	case OpNot:
		return 1 - v[0]
	case OpAnd:
		return v[0] & v[1]
	case OpOr:
		return v[0] | v[1]
	case OpIte:
		if v[0] != 0 {
			return v[1]
		}
		return v[2]
	case OpEq:
		return b2u(v[0] == v[1])
	case OpUlt:
		return b2u(v[0] < v[1])
	case OpSlt:
		s := t.a[0].sort
		return b2u(sext(v[0], s) < sext(v[1], s))
	case OpAdd, OpSub, OpMul, OpUdiv, OpUrem, OpSdiv, OpSrem, OpBAnd, OpBOr, OpBXor, OpShl, OpLshr, OpAshr:
		return evalBV(t.op, v[0], v[1], w)
	case OpBNot:
		return ^v[0] & mask(w)
	case OpNeg:
		return -v[0] & mask(w)
	case OpZext:
		return v[0]
	case OpSext:
		return uint64(sext(v[0], t.a[0].sort)) & mask(w)
	case OpExtract:
		return (v[0] >> t.val) & mask(w)
	case OpConcat:
		return (v[0]<<t.a[1].sort | v[1]) & mask(w)
	case OpFAdd, OpFSub, OpFMul, OpFDiv:
		return math.Float64bits(evalF(t.op, f(0), f(1)))
	case OpFNeg:
		return math.Float64bits(-f(0))
	case OpFAbs:
		return math.Float64bits(math.Abs(f(0)))
	case OpFSqrt:
		return math.Float64bits(math.Sqrt(f(0)))
	case OpFLt, OpFLe, OpFEq, OpFBitEq:
		return b2u(evalFCmp(t.op, f(0), f(1)))
	case OpFIsNaN:
		return b2u(f(0) != f(0))
	case OpFIsInf:
		return b2u(math.IsInf(f(0), 0))
	case OpFRound:
		return math.Float64bits(evalRound(t.val, f(0)))
	case OpFFromBits:
		return v[0]
	case OpFFromS:
		return math.Float64bits(float64(sext(v[0], t.a[0].sort)))
	case OpFFromU:
		return math.Float64bits(float64(v[0]))
	case OpFSingle:
		if t.a[0].sort != SFP {
			return math.Float64bits(float64(float32(sext(v[0], t.a[0].sort))))
		}
		return math.Float64bits(float64(float32(f(0))))
	case OpFToS:
		return uint64(int64(f(0)))
	}
	panic(fmt.Sprintf("evalOp %d", t.op))
}

// Model maps variable names to values; missing variables are zero.
type Model struct {
	m     map[string]uint64
	epoch int64
}

var epochCounter int64

func (c *TermCtx) eval(t *Term, m *Model) uint64 {
	if t.op == OpConst {
		return t.val
	}
	if t.epoch == m.epoch {
		return t.ev
	}
	var r uint64
	if t.op == OpVar {
		r = m.m[t.name]
	} else if t.op == OpIte {
		if c.eval(t.a[0], m) != 0 {
			r = c.eval(t.a[1], m)
		} else {
			r = c.eval(t.a[2], m)
		}
	} else {
		var v [3]uint64
		for i := 0; i < int(t.n); i++ {
			v[i] = c.eval(t.a[i], m)
		}
		r = evalOp(t, v)
	}
	t.ev, t.epoch = r, m.epoch
	return r
}

// ---- SMT-LIB output

func sortName(s Sort) string {
	switch s {
	case SBool:
		return "Bool"
	case SFP:
		return "(_ FloatingPoint 11 53)"
	}
	return fmt.Sprintf("(_ BitVec %d)", s)
}

// smtName tells variables of one label and different sorts apart.
func (t *Term) smtName() string {
	return fmt.Sprintf("|%s~%d|", t.name, t.sort)
}

func (t *Term) ref() string {
	switch t.op {
	case OpConst:
		switch t.sort {
		case SBool:
			if t.val != 0 {
				return "true"
			}
			return "false"
		case SFP:
			f := math.Float64frombits(t.val)
			if f != f {
				return "(_ NaN 11 53)"
			}
			return fmt.Sprintf("(fp #b%01b #b%011b #b%052b)", t.val>>63, (t.val>>52)&0x7ff, t.val&((1<<52)-1))
		}
		if t.sort%4 == 0 {
			return fmt.Sprintf("#x%0*x", int(t.sort)/4, t.val)
		}
		return fmt.Sprintf("(_ bv%d %d)", t.val, t.sort)
	case OpVar:
		return t.smtName()
	}
	return fmt.Sprintf("t%d", t.id)
}

var opNames = map[Op]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpIte: "ite", OpEq: "=", OpUlt: "bvult", OpSlt: "bvslt",
	OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUdiv: "bvudiv", OpUrem: "bvurem", OpSdiv: "bvsdiv", OpSrem: "bvsrem",
	OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor", OpBNot: "bvnot", OpNeg: "bvneg", OpShl: "bvshl", OpLshr: "bvlshr", OpAshr: "bvashr",
	OpConcat: "concat", OpFAdd: "fp.add RNE", OpFSub: "fp.sub RNE", OpFMul: "fp.mul RNE", OpFDiv: "fp.div RNE",
	OpFNeg: "fp.neg", OpFAbs: "fp.abs", OpFSqrt: "fp.sqrt RNE", OpFLt: "fp.lt", OpFLe: "fp.leq", OpFEq: "fp.eq",
	OpFIsNaN: "fp.isNaN", OpFIsInf: "fp.isInfinite", OpFFromBits: "(_ to_fp 11 53)", OpFFromS: "(_ to_fp 11 53) RNE",
	OpFFromU: "(_ to_fp_unsigned 11 53) RNE", OpFToS: "(_ fp.to_sbv 64) RTZ", OpFBitEq: "=",
}

func (t *Term) body() string {
	var sb strings.Builder
	sb.WriteByte('(')
	switch t.op {
	case OpZext:
		fmt.Fprintf(&sb, "(_ zero_extend %d)", t.sort-t.a[0].sort)
	case OpSext:
		fmt.Fprintf(&sb, "(_ sign_extend %d)", t.sort-t.a[0].sort)
	case OpExtract:
		fmt.Fprintf(&sb, "(_ extract %d %d)", t.val+uint64(t.sort)-1, t.val)
	case OpFSingle:
		return "((_ to_fp 11 53) RNE ((_ to_fp 8 24) RNE " + t.a[0].ref() + "))"
	case OpFRound:
		fmt.Fprintf(&sb, "fp.roundToIntegral %s", [...]string{"RNE", "RNA", "RTP", "RTN", "RTZ"}[t.val])
	default:
		s, ok := opNames[t.op]
		if !ok {
			panic(fmt.Sprintf("no smt name for op %d", t.op))
		}
		sb.WriteString(s)
	}
	for i := 0; i < int(t.n); i++ {
		sb.WriteByte(' ')
		sb.WriteString(t.a[i].ref())
	}
	sb.WriteByte(')')
	return sb.String()
}

var _ = bits.Len64
