package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Program is shared by all workers.
type Program struct {
	prog    *ssa.Program
	fset    *token.FileSet
	mu      sync.Mutex
	fns     map[*ssa.Function]*Fn
	globals map[*ssa.Global]int
	gzero   []func() Value
	gnames  []string
	natives map[string]NativeFn
	initOK  func(path string) bool
	sizes   types.Sizes
	entered sync.Map // *Fn -> struct{}: functions encoded (executed symbolically) in this run
	embed   func(dir, name string) ([]byte, bool)
}

type NativeFn func(in *Interp, fr *Frame, args []Value) Value

type Block struct {
	phiDst []int
	phiSrc [][]operand // per predecessor
	code   []func(fr *Frame)
	term   func(fr *Frame) int
	n      int
	hit    bool // executed after the initialisation
	at     token.Pos
}

type Fn struct {
	p        *Program
	f        *ssa.Function
	name     string
	once     sync.Once
	blocks   []*Block
	nregs    int
	nparams  int
	hasDefer bool
	recovBlk int
	native   NativeFn
	nores    int
	zeroRes  []func() Value
	skipInit bool
	target   bool // belongs to the code under test
	noblocks bool
}

type Frame struct {
	in        *Interp
	fn        *Fn
	regs      []Value
	caller    *Frame
	defers    []deferred
	panicking *goPanic
	result    Value
	pred      int
	cur       ssa.Instruction
}

type deferred struct {
	call func(caller *Frame)
}

type goPanic struct {
	v     Iface
	where string
	fatal string // non-empty: engine-modelled fatal condition
}

type operand struct {
	reg int // >=0 register; -1 const; -2 global
	val Value
	gi  int
}

func (o *operand) get(fr *Frame) Value {
	if o.reg >= 0 {
		return fr.regs[o.reg]
	}
	if o.reg == -1 {
		return o.val
	}
	return fr.in.globalCell(o.gi)
}

// Interp is one worker's machine.
type Interp struct {
	p                                      *Program
	globals                                []Ptr
	tc                                     *TermCtx
	solver                                 *Solver
	trailing                               bool
	trail                                  []trailEntry
	fs                                     *memFS
	steps                                  int64
	maxSteps                               int64
	depth                                  int
	stack                                  []*Frame
	path                                   *Path
	ex                                     *Explorer
	id                                     int
	nDec, nForks, nDom, nAssertQ, nAsserts int64
}

func (in *Interp) globalCell(i int) Ptr {
	for i >= len(in.globals) {
		in.globals = append(in.globals, nil)
	}
	if in.globals[i] == nil {
		in.p.mu.Lock()
		z := in.p.gzero[i]
		in.p.mu.Unlock()
		c := new(Value)
		*c = z()
		in.globals[i] = c
	}
	return in.globals[i]
}

func (p *Program) globalIndex(g *ssa.Global) int {
	p.mu.Lock()
	defer p.mu.Unlock()
	if i, ok := p.globals[g]; ok {
		return i
	}
	i := len(p.gzero)
	p.globals[g] = i
	t := g.Type().Underlying().(*types.Pointer).Elem()
	p.gzero = append(p.gzero, zeroFn(t))
	p.gnames = append(p.gnames, g.String())
	return i
}

func (p *Program) fnOf(f *ssa.Function) *Fn {
	p.mu.Lock()
	defer p.mu.Unlock()
	if x, ok := p.fns[f]; ok {
		return x
	}
	x := &Fn{p: p, f: f, name: f.String(), recovBlk: -1}
	p.fns[f] = x
	name := x.name
	if o := f.Origin(); o != nil {
		name = o.String()
	}
	if n, ok := p.natives[x.name]; ok {
		x.native = n
	} else if n, ok := p.natives[name]; ok {
		x.native = n
	}
	if f.Pkg != nil {
		pp := f.Pkg.Pkg.Path()
		x.target = isTarget(pp)
		if f.Name() == "init" && f.Synthetic != "" && f.Signature.Recv() == nil {
			if !p.initOK(pp) {
				x.skipInit = true
			}
		}
	} else if o := f.Origin(); o != nil && o.Pkg != nil {
		x.target = isTarget(o.Pkg.Pkg.Path())
	}
	return x
}

var targetPrefix = "github.com/hymkor/gmnlisp"

// cliPath and progsPath are the packages that the command and pkg/command are rewritten to.
const (
	cliPath   = "gmnverif/cli"
	progsPath = "gmnverif/progs"
)

func isTarget(path string) bool {
	return strings.HasPrefix(path, targetPrefix) || path == cliPath || path == progsPath
}

type pathAbort struct {
	kind string // "assume", "unsupported", "steps", "depth", "limit", "infeasible", "unknown", "stop"
	msg  string
}

func (in *Interp) where() string {
	var sb strings.Builder
	n := 0
	for i := len(in.stack) - 1; i >= 0 && n < 8; i-- {
		if n > 0 {
			sb.WriteString(" < ")
		}
		fr := in.stack[i]
		sb.WriteString(strings.ReplaceAll(fr.fn.name, "github.com/hymkor/gmnlisp", "gmnlisp"))
		if fr.cur != nil && fr.cur.Pos().IsValid() {
			ps := in.p.fset.Position(fr.cur.Pos())
			fn := ps.Filename
			if j := strings.LastIndexByte(fn, '/'); j >= 0 {
				fn = fn[j+1:]
			}
			fmt.Fprintf(&sb, "(%s:%d)", fn, ps.Line)
		}
		n++
	}
	return sb.String()
}

func (in *Interp) unsupported(format string, a ...any) {
	panic(pathAbort{"unsupported", fmt.Sprintf(format, a...) + " @ " + in.where()})
}

func (in *Interp) rtErrorType() types.Type {
	for _, pk := range in.p.prog.AllPackages() {
		if pk.Pkg.Path() == "runtime" {
			return pk.Type("errorString").Type()
		}
	}
	panic("no runtime package")
}

var rtErrOnce sync.Once
var rtErrT *RType

func (in *Interp) rtPanic(msg string) {
	rtErrOnce.Do(func() { rtErrT = rtypeOf(in.rtErrorType()) })
	panic(&goPanic{v: Iface{rtErrT, msg}, where: in.where()})
}
func (in *Interp) rtPanicPlain(msg string) { in.rtPanic(msg) }

// ---- calls

const maxDepth = 6000

func (in *Interp) call(fn *Fn, args []Value, env []Value, caller *Frame) Value {
	if fn.native != nil {
		return fn.native(in, caller, args)
	}
	if fn.skipInit {
		return nil
	}
	fn.once.Do(fn.compile)
	if fn.noblocks {
		in.unsupported("function without body %s", fn.name)
	}
	fr := &Frame{in: in, fn: fn, caller: caller, regs: make([]Value, fn.nregs)}
	copy(fr.regs, args)
	copy(fr.regs[fn.nparams:], env)
	return in.runFrame(fr)
}

func (in *Interp) runFrame(fr *Frame) Value {
	in.depth++
	if in.depth > maxDepth {
		in.depth = 0
		panic(pathAbort{"depth", "call depth bound @ " + in.where()})
	}
	in.stack = append(in.stack, fr)
	n := len(in.stack)
	d := in.depth
	if !fr.fn.hasDefer {
		fr.exec(0)
	} else {
		in.execDefer(fr)
		in.stack = in.stack[:n]
		in.depth = d
	}
	in.stack = in.stack[:n-1]
	in.depth = d - 1
	return fr.result
}

func (in *Interp) execDefer(fr *Frame) {
	n, d := len(in.stack), in.depth
	fr.protect(func() { fr.exec(0) })
	in.stack, in.depth = in.stack[:n], d
	if fr.panicking == nil {
		return
	}
	fr.runDefers()
	if fr.panicking != nil {
		panic(fr.panicking)
	}
	// recovered
	if fr.fn.recovBlk >= 0 {
		fr.protect(func() { fr.exec(fr.fn.recovBlk) })
		if fr.panicking != nil {
			panic(fr.panicking)
		}
		return
	}
	switch len(fr.fn.zeroRes) {
	case 0:
		fr.result = nil
	case 1:
		fr.result = fr.fn.zeroRes[0]()
	default:
		t := make(Tuple, len(fr.fn.zeroRes))
		for i, z := range fr.fn.zeroRes {
			t[i] = z()
		}
		fr.result = t
	}
}

func (fr *Frame) protect(f func()) {
	defer func() {
		if r := recover(); r != nil {
			if gp, ok := r.(*goPanic); ok {
				fr.panicking = gp
				return
			}
			panic(r)
		}
	}()
	f()
}

func (fr *Frame) runDefers() {
	in := fr.in
	n, d := len(in.stack), in.depth
	for len(fr.defers) > 0 {
		df := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		fr.protect(func() { df.call(fr) })
		in.stack, in.depth = in.stack[:n], d
	}
}

func (fr *Frame) exec(blk int) {
	fn := fr.fn
	in := fr.in
	var tmp [8]Value
	for {
		b := fn.blocks[blk]
		if !b.hit {
			b.hit = true
		}
		in.steps += int64(b.n)
		if in.steps > in.maxSteps {
			panic(pathAbort{"steps", "step bound @ " + in.where()})
		}
		if len(b.phiDst) > 0 {
			src := b.phiSrc[fr.pred]
			if len(src) == 1 {
				fr.regs[b.phiDst[0]] = src[0].get(fr)
			} else {
				t := tmp[:0]
				for i := range src {
					t = append(t, src[i].get(fr))
				}
				for i, d := range b.phiDst {
					fr.regs[d] = t[i]
				}
			}
		}
		for _, c := range b.code {
			c(fr)
		}
		next := b.term(fr)
		if next < 0 {
			return
		}
		blk = next
	}
}

// ---- compile

func predIndex(from, to *ssa.BasicBlock, nth int) int {
	k := 0
	for i, p := range to.Preds {
		if p == from {
			if k == nth {
				return i
			}
			k++
		}
	}
	return 0
}

type compiler struct {
	fn   *Fn
	p    *Program
	regs map[ssa.Value]int
}

func (fn *Fn) compile() {
	f := fn.f
	if f.Blocks == nil && f.Pkg != nil {
		f.Pkg.Build()
	}
	if f.Blocks == nil {
		if o := f.Origin(); o != nil && o.Pkg != nil {
			o.Pkg.Build()
		}
	}
	if f.Blocks == nil {
		fn.noblocks = true
		return
	}
	c := &compiler{fn: fn, p: fn.p, regs: map[ssa.Value]int{}}
	for _, p := range f.Params {
		c.regs[p] = len(c.regs)
	}
	fn.nparams = len(f.Params)
	for _, p := range f.FreeVars {
		c.regs[p] = len(c.regs)
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				c.regs[v] = len(c.regs)
			}
		}
	}
	fn.nregs = len(c.regs)
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		fn.zeroRes = append(fn.zeroRes, zeroFn(res.At(i).Type()))
	}
	if f.Recover != nil {
		fn.recovBlk = f.Recover.Index
	}
	blocks := make([]*Block, len(f.Blocks))
	for _, b := range f.Blocks {
		blk := &Block{n: len(b.Instrs)}
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.DebugRef); !ok && i.Pos().IsValid() {
				blk.at = i.Pos()
				break
			}
		}
		var srcs [][]operand
		for range b.Preds {
			srcs = append(srcs, nil)
		}
		for _, i := range b.Instrs {
			if phi, ok := i.(*ssa.Phi); ok {
				blk.phiDst = append(blk.phiDst, c.regs[phi])
				for k, e := range phi.Edges {
					srcs[k] = append(srcs[k], c.operand(e))
				}
				continue
			}
			if _, ok := i.(*ssa.DebugRef); ok {
				continue
			}
			switch x := i.(type) {
			case *ssa.If:
				cond := c.operand(x.Cond)
				t, e := b.Succs[0], b.Succs[1]
				ti, ei := t.Index, e.Index
				tp := predIndex(b, t, 0)
				nth := 0
				if t == e {
					nth = 1
				}
				ep := predIndex(b, e, nth)
				ins := i
				blk.term = func(fr *Frame) int {
					switch v := cond.get(fr).(type) {
					case bool:
						if v {
							fr.pred = tp
							return ti
						}
					case *Term:
						fr.cur = ins
						if fr.in.branch(v) {
							fr.pred = tp
							return ti
						}
					}
					fr.pred = ep
					return ei
				}
			case *ssa.Jump:
				t := b.Succs[0]
				ti, tp := t.Index, predIndex(b, t, 0)
				blk.term = func(fr *Frame) int { fr.pred = tp; return ti }
			case *ssa.Return:
				switch len(x.Results) {
				case 0:
					blk.term = func(fr *Frame) int { fr.result = nil; return -1 }
				case 1:
					o := c.operand(x.Results[0])
					blk.term = func(fr *Frame) int { fr.result = o.get(fr); return -1 }
				default:
					os := c.operands(x.Results)
					blk.term = func(fr *Frame) int {
						t := make(Tuple, len(os))
						for i := range os {
							t[i] = os[i].get(fr)
						}
						fr.result = t
						return -1
					}
				}
			case *ssa.Panic:
				o := c.operand(x.X)
				ins := i
				blk.term = func(fr *Frame) int {
					fr.cur = ins
					v := o.get(fr).(Iface)
					panic(&goPanic{v: v, where: fr.in.where()})
				}
			default:
				if code := c.instr(i); code != nil {
					blk.code = append(blk.code, code)
				}
			}
		}
		blk.phiSrc = srcs
		blocks[b.Index] = blk
	}
	fn.blocks = blocks
	fn.p.entered.Store(fn, struct{}{})
}

func (c *compiler) operands(vs []ssa.Value) []operand {
	r := make([]operand, len(vs))
	for i, v := range vs {
		r[i] = c.operand(v)
	}
	return r
}

func (c *compiler) operand(v ssa.Value) operand {
	switch x := v.(type) {
	case *ssa.Const:
		return operand{reg: -1, val: constValue(x)}
	case *ssa.Global:
		return operand{reg: -2, gi: c.p.globalIndex(x)}
	case *ssa.Function:
		return operand{reg: -1, val: &Closure{fn: c.p.fnOf(x)}}
	case *ssa.Builtin:
		return operand{reg: -1, val: &Closure{bi: x.Name()}}
	}
	r, ok := c.regs[v]
	if !ok {
		panic(fmt.Sprintf("operand %v %T in %s", v, v, c.fn.name))
	}
	return operand{reg: r}
}

func constValue(c *ssa.Const) Value {
	if c.Value == nil {
		return zeroFn(c.Type())()
	}
	t := c.Type().Underlying()
	if b, ok := t.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return constant.BoolVal(c.Value)
		case b.Info()&types.IsInteger != 0:
			ii, _ := intInfoOf(t)
			v := constant.ToInt(c.Value)
			if i, ok := constant.Int64Val(v); ok {
				return ii.norm(i)
			}
			u, _ := constant.Uint64Val(v)
			return int64(u)
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			if b.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return f
		case b.Info()&types.IsComplex != 0:
			return c.Complex128()
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
			return string(rune(c.Int64()))
		}
	}
	panic(fmt.Sprintf("constValue %v", c))
}

func deref(t types.Type) types.Type {
	return t.Underlying().(*types.Pointer).Elem()
}

func (in *Interp) nilDeref() {
	in.rtPanic("invalid memory address or nil pointer dereference")
}

func (c *compiler) instr(i ssa.Instruction) func(fr *Frame) {
	var dst int
	if v, ok := i.(ssa.Value); ok {
		dst = c.regs[v]
	}
	switch x := i.(type) {
	case *ssa.Alloc:
		z := zeroFn(deref(x.Type()))
		return func(fr *Frame) {
			p := new(Value)
			*p = z()
			fr.regs[dst] = p
		}
	case *ssa.BinOp:
		a, b := c.operand(x.X), c.operand(x.Y)
		f := compileBinOp(x.Op, x.X.Type(), x.Y.Type())
		return func(fr *Frame) {
			fr.cur = x
			fr.regs[dst] = f(fr.in, a.get(fr), b.get(fr))
		}
	case *ssa.UnOp:
		return c.unop(x, dst)
	case *ssa.Call:
		call := c.call(&x.Call, x)
		return func(fr *Frame) {
			fr.cur = x
			fr.regs[dst] = call(fr)
		}
	case *ssa.Defer:
		c.fn.hasDefer = true
		prep := c.deferCall(&x.Call, x)
		return func(fr *Frame) {
			fr.cur = x
			fr.defers = append(fr.defers, deferred{prep(fr)})
		}
	case *ssa.Go:
		return func(fr *Frame) { fr.cur = x; fr.in.unsupported("go statement") }
	case *ssa.RunDefers:
		return func(fr *Frame) {
			fr.runDefers()
			if fr.panicking != nil {
				p := fr.panicking
				fr.panicking = nil
				panic(p)
			}
		}
	case *ssa.ChangeInterface:
		o := c.operand(x.X)
		return func(fr *Frame) { fr.regs[dst] = o.get(fr) }
	case *ssa.ChangeType:
		o := c.operand(x.X)
		return func(fr *Frame) { fr.regs[dst] = o.get(fr) }
	case *ssa.Convert:
		o := c.operand(x.X)
		f := compileConvert(x.X.Type(), x.Type())
		return func(fr *Frame) { fr.cur = x; fr.regs[dst] = f(fr.in, o.get(fr)) }
	case *ssa.MultiConvert:
		o := c.operand(x.X)
		f := compileConvert(x.X.Type(), x.Type())
		return func(fr *Frame) { fr.cur = x; fr.regs[dst] = f(fr.in, o.get(fr)) }
	case *ssa.SliceToArrayPointer:
		o := c.operand(x.X)
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		return func(fr *Frame) {
			fr.cur = x
			s, _ := o.get(fr).(Slice)
			if len(s) < n {
				fr.in.rtPanic(fmt.Sprintf("cannot convert slice with length %d to array or pointer to array with length %d", len(s), n))
			}
			if s == nil {
				fr.regs[dst] = Ptr(nil)
				return
			}
			var v Value = Array(s[:n:n])
			fr.regs[dst] = Ptr(&v)
		}
	case *ssa.Extract:
		o := c.operand(x.Tuple)
		idx := x.Index
		return func(fr *Frame) { fr.regs[dst] = o.get(fr).(Tuple)[idx] }
	case *ssa.Field:
		o := c.operand(x.X)
		idx := x.Field
		return func(fr *Frame) { fr.regs[dst] = o.get(fr).(Struct)[idx] }
	case *ssa.FieldAddr:
		o := c.operand(x.X)
		idx := x.Field
		return func(fr *Frame) {
			p, ok := o.get(fr).(Ptr)
			if !ok {
				fr.cur = x
				fr.in.unsupported("FieldAddr on %T", o.get(fr))
			}
			if p == nil {
				fr.cur = x
				fr.in.nilDeref()
			}
			s, ok := (*p).(Struct)
			if !ok {
				fr.cur = x
				fr.in.unsupported("FieldAddr: cell holds %T", *p)
			}
			fr.regs[dst] = &s[idx]
		}
	case *ssa.Index:
		a, b := c.operand(x.X), c.operand(x.Index)
		w, _ := intInfoOf(x.Index.Type())
		return func(fr *Frame) {
			fr.cur = x
			in := fr.in
			switch s := a.get(fr).(type) {
			case Array:
				k := in.index(b.get(fr), w, len(s))
				fr.regs[dst] = s[k]
			case string, *SymStr, *LazyStr:
				fr.regs[dst] = in.indexStr(s, b.get(fr), w)
			default:
				in.unsupported("Index %T", s)
			}
		}
	case *ssa.IndexAddr:
		a, b := c.operand(x.X), c.operand(x.Index)
		load := loadOnly(x)
		w, _ := intInfoOf(x.Index.Type())
		return func(fr *Frame) {
			fr.cur = x
			in := fr.in
			var s []Value
			switch v := a.get(fr).(type) {
			case Slice:
				s = v
			case Ptr:
				if v == nil {
					in.nilDeref()
				}
				s = (*v).(Array)
			default:
				in.unsupported("IndexAddr %T", v)
			}
			var k int
			if iv, ok := b.get(fr).(int64); ok {
				if iv < 0 || iv >= int64(len(s)) {
					in.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", iv, len(s)))
				}
				k = int(iv)
			} else if load {
				fr.regs[dst] = in.indexLoad(b.get(fr).(*Term), w, s)
				return
			} else {
				k = in.index(b.get(fr), w, len(s))
			}
			fr.regs[dst] = &s[k]
		}
	case *ssa.Lookup:
		a, b := c.operand(x.X), c.operand(x.Index)
		if _, isMap := x.X.Type().Underlying().(*types.Map); !isMap {
			w, _ := intInfoOf(x.Index.Type())
			return func(fr *Frame) {
				fr.cur = x
				fr.regs[dst] = fr.in.indexStr(a.get(fr), b.get(fr), w)
			}
		}
		z := zeroFn(x.X.Type().Underlying().(*types.Map).Elem())
		commaOk := x.CommaOk
		return func(fr *Frame) {
			fr.cur = x
			m := a.get(fr).(*Map)
			e := fr.in.mapFind(m, fr.in.forceKey(b.get(fr)))
			var v Value
			if e != nil {
				v = copyVal(e.v)
			} else {
				v = z()
			}
			if commaOk {
				fr.regs[dst] = Tuple{v, e != nil}
			} else {
				fr.regs[dst] = v
			}
		}
	case *ssa.MapUpdate:
		m, k, v := c.operand(x.Map), c.operand(x.Key), c.operand(x.Value)
		return func(fr *Frame) {
			fr.cur = x
			fr.in.mapSet(m.get(fr).(*Map), k.get(fr), v.get(fr))
		}
	case *ssa.MakeChan:
		o := c.operand(x.Size)
		return func(fr *Frame) {
			n, _ := o.get(fr).(int64)
			fr.regs[dst] = &Chan{cap: int(n)}
		}
	case *ssa.MakeClosure:
		fn := c.p.fnOf(x.Fn.(*ssa.Function))
		bs := c.operands(x.Bindings)
		return func(fr *Frame) {
			env := make([]Value, len(bs))
			for i := range bs {
				env[i] = bs[i].get(fr)
			}
			fr.regs[dst] = &Closure{fn: fn, env: env}
		}
	case *ssa.MakeInterface:
		o := c.operand(x.X)
		rt := rtypeOf(x.X.Type())
		return func(fr *Frame) { fr.regs[dst] = Iface{rt, o.get(fr)} }
	case *ssa.MakeMap:
		return func(fr *Frame) { fr.regs[dst] = newMap() }
	case *ssa.MakeSlice:
		l, cp := c.operand(x.Len), c.operand(x.Cap)
		lw, _ := intInfoOf(x.Len.Type())
		cw, _ := intInfoOf(x.Cap.Type())
		et := x.Type().Underlying().(*types.Slice).Elem()
		z := zeroFn(et)
		agg := isAggregate(et)
		esz := c.p.sizes.Sizeof(et)
		return func(fr *Frame) {
			fr.cur = x
			in := fr.in
			n := in.allocSize(l.get(fr), lw, esz, "makeslice: len out of range")
			m := in.allocSize(cp.get(fr), cw, esz, "makeslice: cap out of range")
			if n > m {
				in.rtPanic("makeslice: cap out of range")
			}
			s := make(Slice, n, m)
			if agg {
				full := s[:m]
				for i := range full {
					full[i] = z()
				}
			} else {
				zv := z()
				full := s[:m]
				for i := range full {
					full[i] = zv
				}
			}
			fr.regs[dst] = s
		}
	case *ssa.Range:
		o := c.operand(x.X)
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			return func(fr *Frame) { fr.regs[dst] = &mapIter{m: o.get(fr).(*Map)} }
		}
		return func(fr *Frame) { fr.regs[dst] = &strIter{s: fr.in.force(o.get(fr))} }
	case *ssa.Next:
		o := c.operand(x.Iter)
		if x.IsString {
			return func(fr *Frame) { fr.cur = x; fr.regs[dst] = o.get(fr).(*strIter).next(fr.in) }
		}
		return func(fr *Frame) { fr.regs[dst] = o.get(fr).(*mapIter).next() }
	case *ssa.Select:
		return c.selectInstr(x, dst)
	case *ssa.Send:
		ch, v := c.operand(x.Chan), c.operand(x.X)
		return func(fr *Frame) {
			fr.cur = x
			cc := ch.get(fr).(*Chan)
			if cc == nil || len(cc.buf) >= cc.cap {
				fr.in.unsupported("blocking send")
			}
			if cc.closed {
				fr.in.rtPanicPlain("send on closed channel")
			}
			cc.buf = append(cc.buf, v.get(fr))
		}
	case *ssa.Slice:
		return c.slice(x, dst)
	case *ssa.Store:
		a, v := c.operand(x.Addr), c.operand(x.Val)
		agg := isAggregate(x.Val.Type())
		return func(fr *Frame) {
			p, ok := a.get(fr).(Ptr)
			if !ok {
				fr.cur = x
				fr.in.unsupported("Store via %T", a.get(fr))
			}
			if p == nil {
				fr.cur = x
				fr.in.nilDeref()
			}
			if agg {
				fr.in.store(p, v.get(fr))
			} else {
				fr.in.set(p, v.get(fr))
			}
		}
	case *ssa.TypeAssert:
		return c.typeAssert(x, dst)
	}
	panic(fmt.Sprintf("instr %T", i))
}

func (c *compiler) unop(x *ssa.UnOp, dst int) func(fr *Frame) {
	o := c.operand(x.X)
	switch x.Op {
	case token.MUL:
		agg := isAggregate(x.Type())
		return func(fr *Frame) {
			v := o.get(fr)
			p, ok := v.(Ptr)
			if !ok {
				fr.cur = x
				fr.in.unsupported("load via %T", v)
			}
			if p == nil {
				fr.cur = x
				fr.in.nilDeref()
			}
			if agg {
				fr.regs[dst] = copyVal(*p)
			} else {
				fr.regs[dst] = *p
			}
		}
	case token.NOT:
		return func(fr *Frame) { fr.regs[dst] = fr.in.not(o.get(fr)) }
	case token.SUB:
		if ii, ok := intInfoOf(x.Type()); ok {
			return func(fr *Frame) {
				switch v := o.get(fr).(type) {
				case int64:
					fr.regs[dst] = ii.norm(-v)
				case *Term:
					fr.regs[dst] = ii.lower(fr.in.tc.Neg(v))
				}
			}
		}
		return func(fr *Frame) {
			switch v := o.get(fr).(type) {
			case float64:
				fr.regs[dst] = -v
			case *Term:
				fr.regs[dst] = fr.in.tc.FUn(OpFNeg, v, 0)
			case complex128:
				fr.regs[dst] = -v
			}
		}
	case token.XOR:
		ii, _ := intInfoOf(x.Type())
		return func(fr *Frame) {
			switch v := o.get(fr).(type) {
			case int64:
				fr.regs[dst] = ii.norm(^v)
			case *Term:
				fr.regs[dst] = ii.lower(fr.in.tc.BNot(v))
			}
		}
	case token.ARROW:
		z := zeroFn(x.X.Type().Underlying().(*types.Chan).Elem())
		commaOk := x.CommaOk
		return func(fr *Frame) {
			fr.cur = x
			ch := o.get(fr).(*Chan)
			var v Value
			ok := false
			if ch != nil && len(ch.buf) > 0 {
				v, ok = ch.buf[0], true
				ch.buf = ch.buf[1:]
			} else if ch != nil && ch.closed {
				v = z()
			} else {
				fr.in.unsupported("blocking receive")
			}
			if commaOk {
				fr.regs[dst] = Tuple{v, ok}
			} else {
				fr.regs[dst] = v
			}
		}
	}
	panic("unop " + x.Op.String())
}

func (c *compiler) selectInstr(x *ssa.Select, dst int) func(fr *Frame) {
	type st struct {
		ch   operand
		recv bool
		z    func() Value
	}
	var sts []st
	for _, s := range x.States {
		e := st{ch: c.operand(s.Chan), recv: s.Dir == types.RecvOnly}
		e.z = zeroFn(s.Chan.Type().Underlying().(*types.Chan).Elem())
		sts = append(sts, e)
	}
	blocking := x.Blocking
	return func(fr *Frame) {
		fr.cur = x
		res := Tuple{int64(-1), false}
		for _, s := range sts {
			if s.recv {
				res = append(res, s.z())
			}
		}
		ri := 2
		for i, s := range sts {
			ch := s.ch.get(fr).(*Chan)
			if s.recv {
				if ch != nil && (len(ch.buf) > 0 || ch.closed) {
					res[0] = int64(i)
					if len(ch.buf) > 0 {
						res[1] = true
						res[ri] = ch.buf[0]
						ch.buf = ch.buf[1:]
					}
					fr.regs[dst] = res
					return
				}
				ri++
			} else {
				fr.in.unsupported("select send")
			}
		}
		if blocking {
			fr.in.unsupported("blocking select")
		}
		fr.regs[dst] = res
	}
}

func (c *compiler) slice(x *ssa.Slice, dst int) func(fr *Frame) {
	o := c.operand(x.X)
	opt := func(v ssa.Value) (*operand, intInfo) {
		if v == nil {
			return nil, intInfo{}
		}
		p := c.operand(v)
		w, _ := intInfoOf(v.Type())
		return &p, w
	}
	lo, lw := opt(x.Low)
	hi, hw := opt(x.High)
	mx, mw := opt(x.Max)
	return func(fr *Frame) {
		fr.cur = x
		in := fr.in
		v := in.force(o.get(fr))
		n, cp := 0, 0
		var arr []Value
		isStr := false
		switch s := v.(type) {
		case Slice:
			n, cp = len(s), cap(s)
			arr = s
		case Ptr:
			if s == nil {
				in.nilDeref()
			}
			arr = (*s).(Array)
			n, cp = len(arr), len(arr)
		case string:
			n, cp, isStr = len(s), len(s), true
		case *SymStr:
			n, cp, isStr = len(s.b), len(s.b), true
		default:
			in.unsupported("slice of %T", v)
		}
		m := cp
		if mx != nil {
			m = in.bound(mx.get(fr), mw, cp, "slice bounds out of range")
		}
		h := n
		if hi != nil {
			h = in.bound(hi.get(fr), hw, m, "slice bounds out of range")
		} else if h > m {
			in.rtPanic("slice bounds out of range")
		}
		l := 0
		if lo != nil {
			l = in.bound(lo.get(fr), lw, h, "slice bounds out of range")
		}
		if isStr {
			fr.regs[dst] = in.strSlice(v, l, h)
			return
		}
		if arr == nil {
			fr.regs[dst] = Slice(nil)
			return
		}
		fr.regs[dst] = Slice(arr[l:h:m])
	}
}

// bound checks 0<=v<=max (panics in the target otherwise) and returns it concretely.
func (in *Interp) bound(v Value, w intInfo, max int, msg string) int {
	switch x := v.(type) {
	case int64:
		if x < 0 && (w.signed || w.w < 64) || uint64(x) > uint64(max) {
			in.rtPanic(fmt.Sprintf("%s [%d with %d]", msg, x, max))
		}
		return int(x)
	case *Term:
		ok := in.tc.Ule(x, in.tc.BV(uint64(max), x.sort))
		if !in.branch(ok) {
			in.rtPanic(msg)
		}
		return int(in.concretize(x))
	}
	panic("bound")
}

func (in *Interp) index(v Value, w intInfo, n int) int {
	switch x := v.(type) {
	case int64:
		if uint64(x) >= uint64(n) {
			in.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", x, n))
		}
		return int(x)
	case *Term:
		var ok *Term
		if x.sort < 64 && uint64(n) > mask(x.sort) {
			ok = in.tc.True
		} else {
			ok = in.tc.Ult(x, in.tc.BV(uint64(n), x.sort))
		}
		if !in.branch(ok) {
			in.rtPanic(fmt.Sprintf("index out of range with length %d", n))
		}
		return int(in.concretize(x))
	}
	panic("index")
}

// loadOnly reports whether the address is used by nothing but the load that follows it.
func loadOnly(x *ssa.IndexAddr) bool {
	r := x.Referrers()
	if r == nil || len(*r) != 1 {
		return false
	}
	u, ok := (*r)[0].(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	b := x.Block().Instrs
	for i := range b {
		if b[i] == ssa.Instruction(x) {
			for i++; i < len(b); i++ {
				if _, ok := b[i].(*ssa.DebugRef); !ok {
					return b[i] == ssa.Instruction(u)
				}
			}
		}
	}
	return false
}

// indexLoad reads s[x] for a symbolic x: integers become one term, other elements are forked
// over their distinct values instead of over the index.
func (in *Interp) indexLoad(x *Term, w intInfo, s []Value) Ptr {
	n := len(s)
	tc := in.tc
	if !(x.sort < 64 && uint64(n) > mask(x.sort)) {
		if !in.branch(tc.Ult(x, tc.BV(uint64(n), x.sort))) {
			in.rtPanic(fmt.Sprintf("index out of range with length %d", n))
		}
	}
	m := n
	if x.sort < 32 && uint64(m) > mask(x.sort) {
		m = int(mask(x.sort)) + 1
	}
	type sk struct {
		p *Value
		n int
	}
	groups := map[any]int{}
	var keys []any
	of := make([]int, m)
	for i := 0; i < m; i++ {
		var k any
		switch v := s[i].(type) {
		case Slice:
			q := sk{nil, len(v)}
			if v == nil {
				q.n = -1
			} else if len(v) > 0 {
				q.p = &v[0]
			}
			k = q
		case Ptr, int64, bool, string:
			k = v
		default:
			return &s[int(in.concretize(x))]
		}
		g, ok := groups[k]
		if !ok {
			g = len(keys)
			groups[k] = g
			keys = append(keys, k)
		}
		of[i] = g
	}
	if len(keys) > 16 {
		return &s[int(in.concretize(x))]
	}
	member := func(g int) *Term {
		t := tc.False
		for i := 0; i < m; {
			if of[i] != g {
				i++
				continue
			}
			e := i
			for e+1 < m && of[e+1] == g {
				e++
			}
			t = tc.Or(t, tc.And(tc.Ule(tc.BV(uint64(i), x.sort), x), tc.Ule(x, tc.BV(uint64(e), x.sort))))
			i = e + 1
		}
		return t
	}
	p := in.path
	pick := func(g int) Ptr {
		for i := range of {
			if of[i] == g {
				return &s[i]
			}
		}
		panic("indexLoad")
	}
	for {
		for g := range keys {
			if c := member(g); c.isConst() && c.val != 0 || p.pcSet[c] || in.ivTruth(c) == 1 {
				return pick(g)
			}
		}
		var g int
		if p.pos < len(p.prefix) && p.prefix[p.pos].isVal {
			g = int(p.prefix[p.pos].val)
		} else {
			g = of[in.tc.eval(x, p.model)]
		}
		if in.decide(member(g), Dec{isVal: true, val: uint64(g)}) {
			return pick(g)
		}
	}
}

func (in *Interp) indexStr(s, i Value, w intInfo) Value {
	s = in.force(s)
	n := in.strLen(s)
	if x, ok := i.(*Term); ok {
		var okT *Term
		if x.sort < 64 && uint64(n) > mask(x.sort) {
			okT = in.tc.True
		} else {
			okT = in.tc.Ult(x, in.tc.BV(uint64(n), x.sort))
		}
		if !in.branch(okT) {
			in.rtPanic(fmt.Sprintf("index out of range with length %d", n))
		}
		bs := in.strBytes(s)
		r := in.intTerm(bs[n-1], 8)
		for k := n - 2; k >= 0; k-- {
			r = in.tc.Ite(in.tc.Eq(x, in.tc.BV(uint64(k), x.sort)), in.intTerm(bs[k], 8), r)
		}
		return intInfo{8, false}.lower(r)
	}
	return in.strIndex(s, in.index(i, w, n))
}

// allocSize models makeslice's checks; very large sizes are engine-level fatal conditions.
func (in *Interp) allocSize(v Value, w intInfo, esz int64, msg string) int {
	limit := int64(1) << 47
	if esz > 1 {
		limit /= esz
	}
	const small = 1 << 16
	switch x := v.(type) {
	case int64:
		if x < 0 || x > limit {
			in.rtPanic(msg)
		}
		if x > 1<<28 {
			panic(&goPanic{v: Iface{rtypeOf(types.Typ[types.String]), "out of memory: allocation of a huge slice"}, where: in.where(), fatal: "alloc"})
		}
		if x > 1<<22 {
			panic(pathAbort{"limit", "allocation above the model's bound"})
		}
		return int(x)
	case *Term:
		var t *Term
		if w.signed {
			t = in.tc.Sext(x, 64)
		} else {
			t = in.tc.Zext(x, 64)
		}
		if !in.branch(in.tc.Ule(t, in.tc.BV(uint64(limit), 64))) {
			in.rtPanic(msg)
		}
		if !in.branch(in.tc.Ule(t, in.tc.BV(1<<28, 64))) {
			panic(&goPanic{v: Iface{rtypeOf(types.Typ[types.String]), "out of memory: allocation of a huge slice"}, where: in.where(), fatal: "alloc"})
		}
		if !in.branch(in.tc.Ule(t, in.tc.BV(64, 64))) {
			// sizes between 65 and 2^28: explored for a single representative
			panic(pathAbort{"limit", "allocation size above 64"})
		}
		return int(in.concretize(t))
	}
	panic("allocSize")
}

func (c *compiler) typeAssert(x *ssa.TypeAssert, dst int) func(fr *Frame) {
	o := c.operand(x.X)
	commaOk := x.CommaOk
	at := x.AssertedType
	if it, ok := at.Underlying().(*types.Interface); ok {
		return func(fr *Frame) {
			v := o.get(fr).(Iface)
			ok := v.t != nil && implements(v.t, it)
			if ok {
				if commaOk {
					fr.regs[dst] = Tuple{v, true}
				} else {
					fr.regs[dst] = v
				}
				return
			}
			if commaOk {
				fr.regs[dst] = Tuple{Iface{}, false}
				return
			}
			fr.cur = x
			if v.t == nil {
				fr.in.rtPanic("interface conversion: interface is nil, not " + typeString(at))
			}
			fr.in.rtPanic(fmt.Sprintf("interface conversion: %s is not %s: missing method", v.t, typeString(at)))
		}
	}
	rt := rtypeOf(at)
	z := zeroFn(at)
	return func(fr *Frame) {
		v := o.get(fr).(Iface)
		if v.t == rt {
			if commaOk {
				fr.regs[dst] = Tuple{v.v, true}
			} else {
				fr.regs[dst] = v.v
			}
			return
		}
		if commaOk {
			fr.regs[dst] = Tuple{z(), false}
			return
		}
		fr.cur = x
		have := "nil"
		if v.t != nil {
			have = v.t.String()
		}
		fr.in.rtPanic(fmt.Sprintf("interface conversion: interface is %s, not %s", have, typeString(at)))
	}
}

func implements(r *RType, it *types.Interface) bool {
	if b, ok := r.impl.Load(it); ok {
		return b.(bool)
	}
	b := types.Implements(r.t, it)
	r.impl.Store(it, b)
	return b
}

func methodKey(m *types.Func) string {
	if m.Exported() {
		return m.Name()
	}
	return m.Pkg().Path() + "." + m.Name()
}

func (p *Program) method(r *RType, m *types.Func) *Fn {
	key := methodKey(m)
	if f, ok := r.methods.Load(key); ok {
		return f.(*Fn)
	}
	ms := p.prog.MethodSets.MethodSet(r.t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	sf := p.prog.MethodValue(sel)
	if sf == nil {
		return nil
	}
	fn := p.fnOf(sf)
	r.methods.Store(key, fn)
	return fn
}

// methodByName finds an exported method for native helpers.
func (p *Program) methodByName(r *RType, name string) *Fn {
	if r == nil {
		return nil
	}
	if f, ok := r.methods.Load(name); ok {
		return f.(*Fn)
	}
	ms := p.prog.MethodSets.MethodSet(r.t)
	sel := ms.Lookup(nil, name)
	if sel == nil {
		return nil
	}
	sf := p.prog.MethodValue(sel)
	if sf == nil {
		return nil
	}
	fn := p.fnOf(sf)
	r.methods.Store(name, fn)
	return fn
}

func (c *compiler) call(cc *ssa.CallCommon, ins ssa.CallInstruction) func(fr *Frame) Value {
	args := c.operands(cc.Args)
	if cc.IsInvoke() {
		recv := c.operand(cc.Value)
		m := cc.Method
		p := c.p
		return func(fr *Frame) Value {
			v := recv.get(fr).(Iface)
			if v.t == nil {
				fr.in.nilDeref()
			}
			fn := p.method(v.t, m)
			if fn == nil {
				fr.in.unsupported("no method %s on %s", m.Name(), v.t)
			}
			av := make([]Value, len(args)+1)
			av[0] = v.v
			for i := range args {
				av[i+1] = args[i].get(fr)
			}
			return fr.in.call(fn, av, nil, fr)
		}
	}
	switch v := cc.Value.(type) {
	case *ssa.Builtin:
		return c.builtin(v, cc, args)
	case *ssa.Function:
		fn := c.p.fnOf(v)
		return func(fr *Frame) Value {
			if fn.native == nil && !fn.skipInit {
				fn.once.Do(fn.compile)
				if fn.noblocks {
					fr.in.unsupported("function without body %s", fn.name)
				}
				nf := &Frame{in: fr.in, fn: fn, caller: fr, regs: make([]Value, fn.nregs)}
				for i := range args {
					nf.regs[i] = args[i].get(fr)
				}
				return fr.in.runFrame(nf)
			}
			av := make([]Value, len(args))
			for i := range args {
				av[i] = args[i].get(fr)
			}
			return fr.in.call(fn, av, nil, fr)
		}
	}
	fo := c.operand(cc.Value)
	return func(fr *Frame) Value {
		cl := fo.get(fr).(*Closure)
		av := make([]Value, len(args))
		for i := range args {
			av[i] = args[i].get(fr)
		}
		return fr.in.callClosure(cl, av, fr)
	}
}

func (in *Interp) callClosure(cl *Closure, args []Value, fr *Frame) Value {
	if cl == nil {
		in.nilDeref()
	}
	if cl.nat != nil {
		return cl.nat(in, fr, args)
	}
	if cl.fn == nil {
		in.unsupported("call of builtin value %s", cl.bi)
	}
	return in.call(cl.fn, args, cl.env, fr)
}

func (c *compiler) deferCall(cc *ssa.CallCommon, ins ssa.CallInstruction) func(fr *Frame) func(caller *Frame) {
	args := c.operands(cc.Args)
	evalArgs := func(fr *Frame) []Value {
		av := make([]Value, len(args))
		for i := range args {
			av[i] = args[i].get(fr)
		}
		return av
	}
	if cc.IsInvoke() {
		recv := c.operand(cc.Value)
		m := cc.Method
		return func(fr *Frame) func(*Frame) {
			v := recv.get(fr).(Iface)
			if v.t == nil {
				fr.in.nilDeref()
			}
			fn := c.p.method(v.t, m)
			av := append([]Value{v.v}, evalArgs(fr)...)
			return func(caller *Frame) { fr.in.call(fn, av, nil, caller) }
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		// evaluate operands now, run later through a fake frame-independent call
		return func(fr *Frame) func(*Frame) {
			av := evalArgs(fr)
			return func(caller *Frame) { caller.in.builtinCall(b.Name(), cc, av, caller) }
		}
	}
	fo := c.operand(cc.Value)
	return func(fr *Frame) func(*Frame) {
		cl := fo.get(fr).(*Closure)
		av := evalArgs(fr)
		return func(caller *Frame) { caller.in.callClosure(cl, av, caller) }
	}
}

func (c *compiler) builtin(b *ssa.Builtin, cc *ssa.CallCommon, args []operand) func(fr *Frame) Value {
	name := b.Name()
	switch name {
	case "len":
		a := args[0]
		return func(fr *Frame) Value {
			switch x := a.get(fr).(type) {
			case Slice:
				return int64(len(x))
			case string:
				return int64(len(x))
			}
			return fr.in.builtinCall(name, cc, []Value{a.get(fr)}, fr)
		}
	}
	return func(fr *Frame) Value {
		av := make([]Value, len(args))
		for i := range args {
			av[i] = args[i].get(fr)
		}
		return fr.in.builtinCall(name, cc, av, fr)
	}
}

func (in *Interp) builtinCall(name string, cc *ssa.CallCommon, a []Value, fr *Frame) Value {
	switch name {
	case "len":
		switch x := in.force(a[0]).(type) {
		case Slice:
			return int64(len(x))
		case string:
			return int64(len(x))
		case *SymStr:
			return int64(len(x.b))
		case *Map:
			if x == nil {
				return int64(0)
			}
			return int64(x.n)
		case Array:
			return int64(len(x))
		case *Chan:
			if x == nil {
				return int64(0)
			}
			return int64(len(x.buf))
		case Ptr:
			return int64(len((*x).(Array)))
		}
	case "cap":
		switch x := a[0].(type) {
		case Slice:
			return int64(cap(x))
		case Array:
			return int64(len(x))
		case *Chan:
			return int64(x.cap)
		}
	case "append":
		s := a[0].(Slice)
		if len(a) < 2 {
			return s
		}
		var add []Value
		switch y := in.force(a[1]).(type) {
		case Slice:
			add = y
		case string, *SymStr:
			add = in.strBytes(y)
		default:
			in.unsupported("append %T", y)
		}
		return in.appendSlice(s, add)
	case "copy":
		d := a[0].(Slice)
		var src []Value
		switch y := in.force(a[1]).(type) {
		case Slice:
			src = y
		case string, *SymStr:
			src = in.strBytes(y)
		}
		n := min(len(d), len(src))
		if n > 0 {
			tmp := make([]Value, n)
			for i := range tmp {
				tmp[i] = copyVal(src[i])
			}
			for i := range tmp {
				in.set(&d[i], tmp[i])
			}
		}
		return int64(n)
	case "close":
		ch := a[0].(*Chan)
		if ch == nil {
			in.rtPanicPlain("close of nil channel")
		}
		if ch.closed {
			in.rtPanicPlain("close of closed channel")
		}
		ch.closed = true
		if in.trailing {
			in.trail = append(in.trail, trailEntry{undo: func() { ch.closed = false }})
		}
		return nil
	case "delete":
		in.mapDelete(a[0].(*Map), a[1])
		return nil
	case "clear":
		switch x := a[0].(type) {
		case *Map:
			in.mapClear(x)
		case Slice:
			z := zeroFn(cc.Args[0].Type().Underlying().(*types.Slice).Elem())
			for i := range x {
				in.set(&x[i], z())
			}
		}
		return nil
	case "panic":
		panic(&goPanic{v: a[0].(Iface), where: in.where()})
	case "recover":
		if fr != nil && fr.caller != nil && fr.caller.panicking != nil {
			p := fr.caller.panicking
			if p.fatal != "" {
				panic(p)
			}
			fr.caller.panicking = nil
			return p.v
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := a[0]
		t := cc.Args[0].Type()
		less := compileBinOp(token.LSS, t, t)
		for _, y := range a[1:] {
			var c Value
			if name == "min" {
				c = less(in, y, r)
			} else {
				c = less(in, r, y)
			}
			if in.truth(c) {
				r = y
			}
		}
		return r
	case "real":
		return real(a[0].(complex128))
	case "imag":
		return imag(a[0].(complex128))
	case "complex":
		return complex(a[0].(float64), a[1].(float64))
	case "ssa:wrapnilchk":
		if p, ok := a[0].(Ptr); ok && p == nil {
			in.rtPanic(fmt.Sprintf("value method %v.%v called using nil pointer", a[1], a[2]))
		}
		return a[0]
	case "String": // unsafe.String
		switch p := a[0].(type) {
		case SlicePtr:
			n, ok := a[1].(int64)
			if !ok {
				break
			}
			return mkStr(p.s[:n])
		case StrPtr:
			n, ok := a[1].(int64)
			if !ok {
				break
			}
			return in.strSlice(p.s, 0, int(n))
		case Ptr:
			if n, ok := a[1].(int64); ok && n == 0 {
				return ""
			} else if ok && n == 1 && p != nil {
				return mkStr([]Value{*p})
			}
		}
	case "SliceData":
		s := a[0].(Slice)
		if cap(s) == 0 {
			return Ptr(nil)
		}
		return SlicePtr{s[:cap(s)]}
	case "StringData":
		return StrPtr{a[0]}
	case "Slice":
		switch p := a[0].(type) {
		case SlicePtr:
			if n, ok := a[1].(int64); ok {
				return p.s[:n:n]
			}
		case StrPtr:
			if n, ok := a[1].(int64); ok {
				b := in.strBytes(p.s)
				return Slice(append([]Value(nil), b[:n]...))
			}
		case Ptr:
			if n, ok := a[1].(int64); ok && n == 0 {
				return Slice(nil)
			}
		}
	}
	in.unsupported("builtin %s(%T)", name, a[0])
	return nil
}

func (in *Interp) appendSlice(s Slice, add []Value) Slice {
	if len(add) == 0 {
		return s
	}
	n := len(s) + len(add)
	if n <= cap(s) {
		r := s[:n]
		tmp := make([]Value, len(add))
		for i, v := range add {
			tmp[i] = copyVal(v)
		}
		for i, v := range tmp {
			in.set(&r[len(s)+i], v)
		}
		return r
	}
	nc := cap(s) * 2
	if nc < n {
		nc = n
	}
	if nc < 4 {
		nc = 4
	}
	r := make(Slice, n, nc)
	copy(r, s)
	for i, v := range add {
		r[len(s)+i] = copyVal(v)
	}
	switch r[0].(type) {
	case int64, *Term:
		full := r[:nc]
		for i := n; i < nc; i++ {
			full[i] = int64(0)
		}
	}
	// struct cells of the old backing array must not be shared
	for i := range s {
		switch s[i].(type) {
		case Struct, Array:
			r[i] = copyVal(s[i])
		}
	}
	return r
}

var _ = math.Abs
