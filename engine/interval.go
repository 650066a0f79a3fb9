package main

import "math/bits"

// Interval facts: every path keeps, for the terms its path condition compares with constants, an
// unsigned and a signed interval.  They decide many bound checks without a solver query.

type ival struct {
	lo, hi   uint64
	slo, shi int64
}

func fullIval(w Sort) ival {
	return ival{0, mask(w), -1 << (w - 1), int64(mask(w) >> 1)}
}

// norm lets the signed and the unsigned view inform each other.
func (v ival) norm(w Sort) ival {
	smax := mask(w) >> 1
	for i := 0; i < 2; i++ {
		if v.slo >= 0 {
			v.lo = max(v.lo, uint64(v.slo))
			v.hi = min(v.hi, uint64(v.shi))
		}
		if v.hi <= smax {
			v.slo = max(v.slo, int64(v.lo))
			v.shi = min(v.shi, int64(v.hi))
		} else if v.lo > smax {
			v.slo = max(v.slo, sext(v.lo, w))
			v.shi = min(v.shi, sext(v.hi, w))
		}
	}
	return v
}

func (v ival) meet(u ival, w Sort) ival {
	return ival{max(v.lo, u.lo), min(v.hi, u.hi), max(v.slo, u.slo), min(v.shi, u.shi)}.norm(w)
}

type ivEval struct {
	in   *Interp
	memo map[*Term]ival
	n    int
}

func (e *ivEval) get(t *Term) ival {
	w := t.sort
	if t.op == OpConst {
		return ival{t.val, t.val, sext(t.val, w), sext(t.val, w)}
	}
	if v, ok := e.memo[t]; ok {
		return v
	}
	e.n++
	v := fullIval(w)
	if e.n < 300 {
		v = e.comp(t).norm(w)
	}
	if r, ok := e.in.path.rng[t]; ok {
		v = v.meet(r, w)
	}
	e.memo[t] = v
	return v
}

func sadd(a, b int64) (int64, bool) {
	c := a + b
	return c, (a >= 0) != (b >= 0) || (c >= 0) == (a >= 0)
}

func (e *ivEval) comp(t *Term) ival {
	w := t.sort
	full := fullIval(w)
	switch t.op {
	case OpVar:
		if w <= 8 {
			d := e.in.domain(t)
			lo, hi := -1, -1
			for i := 0; i < 4; i++ {
				if d[i] != 0 {
					if lo < 0 {
						lo = i*64 + bits.TrailingZeros64(d[i])
					}
					hi = i*64 + 63 - bits.LeadingZeros64(d[i])
				}
			}
			if lo >= 0 {
				full.lo, full.hi = uint64(lo), uint64(hi)
			}
		}
		return full
	case OpZext:
		a := e.get(t.a[0])
		full.lo, full.hi = a.lo, a.hi
		return full
	case OpSext:
		a := e.get(t.a[0])
		full.slo, full.shi = a.slo, a.shi
		return full
	case OpExtract:
		if t.val == 0 {
			a := e.get(t.a[0])
			if a.hi <= mask(w) {
				full.lo, full.hi = a.lo, a.hi
			}
		}
		return full
	case OpAdd, OpSub, OpMul:
		a, b := e.get(t.a[0]), e.get(t.a[1])
		full2 := full
		switch t.op {
		case OpAdd:
			if h, c := bits.Add64(a.hi, b.hi, 0); c == 0 && h <= mask(w) {
				full.lo, full.hi = a.lo+b.lo, h
			}
			l, ok1 := sadd(a.slo, b.slo)
			h, ok2 := sadd(a.shi, b.shi)
			if ok1 && ok2 && l >= full2.slo && h <= full2.shi {
				full.slo, full.shi = l, h
			}
		case OpSub:
			if a.lo >= b.hi {
				full.lo, full.hi = a.lo-b.hi, a.hi-b.lo
			}
			if b.slo != -1<<63 {
				l, ok1 := sadd(a.slo, -b.shi)
				h, ok2 := sadd(a.shi, -b.slo)
				if ok1 && ok2 && l >= full2.slo && h <= full2.shi {
					full.slo, full.shi = l, h
				}
			}
		case OpMul:
			if c, h := bits.Mul64(a.hi, b.hi); c == 0 && h <= mask(w) {
				full.lo, full.hi = a.lo*b.lo, h
			}
		}
		return full
	case OpNeg:
		a := e.get(t.a[0])
		if a.slo > full.slo {
			full.slo, full.shi = -a.shi, -a.slo
		}
		return full
	case OpIte:
		a, b := e.get(t.a[1]), e.get(t.a[2])
		return ival{min(a.lo, b.lo), max(a.hi, b.hi), min(a.slo, b.slo), max(a.shi, b.shi)}
	case OpLshr:
		if k := t.a[1]; k.isConst() && k.val < uint64(w) {
			a := e.get(t.a[0])
			full.lo, full.hi = a.lo>>k.val, a.hi>>k.val
		}
		return full
	case OpBAnd:
		a, b := e.get(t.a[0]), e.get(t.a[1])
		full.hi = min(a.hi, b.hi)
		return full
	case OpUdiv:
		if k := t.a[1]; k.isConst() && k.val != 0 {
			a := e.get(t.a[0])
			full.lo, full.hi = a.lo/k.val, a.hi/k.val
		}
		return full
	case OpUrem:
		if k := t.a[1]; k.isConst() && k.val != 0 {
			full.hi = min(k.val-1, e.get(t.a[0]).hi)
		}
		return full
	}
	return full
}

// truth is 1, 0 or -1 (unknown).
func (e *ivEval) truth(t *Term) int {
	switch t.op {
	case OpConst:
		return int(t.val)
	case OpNot:
		if r := e.truth(t.a[0]); r >= 0 {
			return 1 - r
		}
	case OpAnd, OpOr:
		z := 0
		if t.op == OpOr {
			z = 1
		}
		r := 1 - z
		for i := 0; i < int(t.n); i++ {
			switch e.truth(t.a[i]) {
			case z:
				return z
			case -1:
				r = -1
			}
		}
		return r
	case OpUlt:
		a, b := e.get(t.a[0]), e.get(t.a[1])
		if a.hi < b.lo {
			return 1
		}
		if a.lo >= b.hi {
			return 0
		}
		if x := t.a[0]; x.op == OpAdd && (x.a[0] == t.a[1] || x.a[1] == t.a[1]) {
			// x+y < x only on overflow
			if h, c := bits.Add64(e.get(x.a[0]).hi, e.get(x.a[1]).hi, 0); c == 0 && h <= mask(x.sort) {
				return 0
			}
		}
	case OpSlt:
		a, b := e.get(t.a[0]), e.get(t.a[1])
		if a.shi < b.slo {
			return 1
		}
		if a.slo >= b.shi {
			return 0
		}
	case OpEq:
		if t.a[0].sort == SBool || t.a[0].sort == SFP {
			return -1
		}
		a, b := e.get(t.a[0]), e.get(t.a[1])
		if a.hi < b.lo || b.hi < a.lo || a.shi < b.slo || b.shi < a.slo {
			return 0
		}
		if a.lo == a.hi && b.lo == b.hi && a.lo == b.lo {
			return 1
		}
	}
	return -1
}

func (in *Interp) ivTruth(c *Term) int {
	e := ivEval{in: in, memo: map[*Term]ival{}}
	return e.truth(c)
}

// ivRecord learns intervals from a path constraint.
func (in *Interp) ivRecord(t *Term, pos bool) {
	switch t.op {
	case OpNot:
		in.ivRecord(t.a[0], !pos)
	case OpAnd:
		if pos {
			in.ivRecord(t.a[0], true)
			in.ivRecord(t.a[1], true)
		}
	case OpOr:
		if !pos {
			in.ivRecord(t.a[0], false)
			in.ivRecord(t.a[1], false)
		}
	case OpUlt, OpSlt, OpEq:
		a, b := t.a[0], t.a[1]
		w := a.sort
		if w == SBool || w == SFP || t.op == OpEq && !pos {
			return
		}
		if a.isConst() == b.isConst() {
			return
		}
		x, c, left := a, b, true
		if a.isConst() {
			x, c, left = b, a, false
		}
		v := fullIval(w)
		s := sext(c.val, w)
		switch {
		case t.op == OpEq:
			v = ival{c.val, c.val, s, s}
		case t.op == OpUlt && left && pos: // x < c
			v.hi = c.val - 1
		case t.op == OpUlt && left: // x >= c
			v.lo = c.val
		case t.op == OpUlt && pos: // c < x
			v.lo = c.val + 1
		case t.op == OpUlt: // x <= c
			v.hi = c.val
		case left && pos:
			v.shi = s - 1
		case left:
			v.slo = s
		case pos:
			v.slo = s + 1
		default:
			v.shi = s
		}
		if r, ok := in.path.rng[x]; ok {
			v = v.meet(r, w)
		} else {
			v = v.norm(w)
		}
		in.path.rng[x] = v
	}
}
