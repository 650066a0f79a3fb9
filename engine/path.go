package main

import (
	"fmt"
	"math"
	"os"
	"sort"
	"strings"
	"sync"
	"time"
)

// Dec is one recorded decision of a path.
type Dec struct {
	taken  bool
	forked bool // both sides were feasible: the constraint is part of the path condition
	val    uint64
	isVal  bool
	n      int // Choice value (isChoice)
	isCh   bool
}

type Obs struct {
	Label string
	V     Value
	kind  byte
}

type Path struct {
	prefix   []Dec
	pos      int
	decs     []Dec
	pc       []*Term
	pcSet    map[*Term]bool
	rng      map[*Term]ival
	dom      map[*Term]*[4]uint64 // small variables: values allowed by unary constraints
	multi    map[*Term]bool
	model    *Model
	vars     []*Term
	names    map[string]int
	obs      []Obs
	reach    []string
	nAsserts int
	start    time.Time
	digits   map[digitsKey][]Value // renderings of integers already made on this path
}

type workItem struct {
	prefix []Dec
	model  map[string]uint64
}

type Violation struct {
	Harness string            `json:"harness"`
	Kind    string            `json:"kind"` // assert | panic | alloc
	Label   string            `json:"label"`
	Where   string            `json:"where"`
	Inputs  map[string]uint64 `json:"inputs"`
}

type PathSample struct {
	Inputs map[string]uint64 `json:"inputs"`
	Obs    []string          `json:"obs"`
}

type HStats struct {
	Paths, PathsOK, AssumeCut int64
	Decisions, Forks          int64
	DomDecided                int64
	Asserts, AssertQ          int64
	Steps                     int64
	MaxSteps                  int64
	Aborts                    map[string]int64
	AbortMsgs                 map[string]int64
	Reached                   map[string]int64
	Solver                    SolverStats
	Pending                   int64
	Wall                      time.Duration
}

type Explorer struct {
	p        *Program
	harness  string
	fn       *Fn
	mu       sync.Mutex
	cond     *sync.Cond
	items    [][]workItem // per worker
	active   int
	stop     bool
	deadline time.Time
	st       HStats
	samples  []PathSample
	maxSamp  int
	onViol   func(v *Violation) bool // returns true to stop
	tier     string
	maxSteps int64
	nDone    int64
	intEnc   bool
}

// ---- decisions

func (in *Interp) addPC(t *Term) {
	p := in.path
	if t.isConst() {
		return
	}
	if p.pcSet[t] {
		return
	}
	p.pcSet[t] = true
	p.pc = append(p.pc, t)
	in.ivRecord(t, true)
	if v := t.single(); v != nil && v.sort <= 8 && v.sort != SBool {
		tr := in.truthSet(t, v)
		d := in.domain(v)
		for i := range d {
			d[i] &= tr[i]
		}
	} else {
		in.markMulti(t)
	}
}

func (in *Interp) markMulti(t *Term) {
	for _, v := range t.allVars() {
		in.path.multi[v] = true
	}
}

func (in *Interp) domain(v *Term) *[4]uint64 {
	d := in.path.dom[v]
	if d == nil {
		d = &[4]uint64{}
		n := 1 << v.sort
		for i := 0; i < n; i++ {
			d[i>>6] |= 1 << (i & 63)
		}
		in.path.dom[v] = d
	}
	return d
}

type varInfo struct {
	single *Term
	many   bool
	all    []*Term
	hasAll bool
	truth  *[4]uint64
}

var multiMark = &Term{}

func (t *Term) info() *varInfo {
	if t.vi == nil {
		vi := &varInfo{}
		if t.op == OpVar {
			vi.single = t
		} else {
			for i := 0; i < int(t.n); i++ {
				a := t.a[i].info()
				if a.many {
					vi.many = true
				} else if a.single != nil {
					if vi.single == nil {
						vi.single = a.single
					} else if vi.single != a.single {
						vi.many = true
					}
				}
			}
			if vi.many {
				vi.single = nil
			}
		}
		t.vi = vi
	}
	return t.vi
}

func (t *Term) single() *Term { return t.info().single }

func (t *Term) allVars() []*Term {
	vi := t.info()
	if vi.hasAll {
		return vi.all
	}
	seen := map[*Term]bool{}
	st := []*Term{t}
	var out []*Term
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if x.op == OpVar {
			out = append(out, x)
		}
		for i := 0; i < int(x.n); i++ {
			st = append(st, x.a[i])
		}
	}
	vi.all, vi.hasAll = out, true
	return out
}

func (in *Interp) truthSet(t, v *Term) *[4]uint64 {
	vi := t.info()
	if vi.truth != nil {
		return vi.truth
	}
	tr := &[4]uint64{}
	n := 1 << v.sort
	for i := 0; i < n; i++ {
		m := newModel(map[string]uint64{v.name: uint64(i)})
		if in.tc.eval(t, m) != 0 {
			tr[i>>6] |= 1 << (i & 63)
		}
	}
	vi.truth = tr
	return tr
}

func firstBit(d *[4]uint64) int {
	for i := 0; i < 256; i++ {
		if d[i>>6]>>(i&63)&1 != 0 {
			return i
		}
	}
	return -1
}

func (in *Interp) branch(c *Term) bool { return in.decide(c, Dec{}) }

func (in *Interp) decide(c *Term, base Dec) bool {
	if c.isConst() {
		return c.val != 0
	}
	p := in.path
	if p == nil {
		panic("symbolic branch outside a path")
	}
	tc := in.tc
	if p.pcSet[c] {
		return true
	}
	nc := tc.Not(c)
	if p.pcSet[nc] {
		return false
	}
	if r := in.ivTruth(c); r >= 0 {
		in.nDom++
		return r == 1
	}
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.decs = append(p.decs, d)
		if d.forked {
			if d.taken {
				in.addPC(c)
			} else {
				in.addPC(nc)
			}
		}
		return d.taken
	}
	if in.ex.stopped() {
		panic(pathAbort{"stop", ""})
	}
	in.ex.decCount(in)
	b := tc.eval(c, p.model) != 0
	other := nc
	if !b {
		other = c
	}
	res := Unknown
	var m *Model
	if v := c.single(); v != nil && v.sort <= 8 && v.sort != SBool {
		tr := in.truthSet(other, v)
		d := *in.domain(v)
		for i := range d {
			d[i] &= tr[i]
		}
		k := firstBit(&d)
		if k < 0 {
			res = Unsat
			in.nDom++
		} else if !p.multi[v] {
			res = Sat
			in.nDom++
			mm := make(map[string]uint64, len(p.model.m)+1)
			for a, x := range p.model.m {
				mm[a] = x
			}
			mm[v.name] = uint64(k)
			m = newModel(mm)
		}
	}
	if res == Unknown {
		res, m = in.query(other)
	}
	dec := base
	dec.taken = b
	switch res {
	case Sat:
		dec.forked = true
		alt := dec
		alt.taken = !b
		pre := make([]Dec, len(p.decs)+1)
		copy(pre, p.decs)
		pre[len(p.decs)] = alt
		in.ex.push(in.id, workItem{pre, m.m})
		in.nForks++
		in.noteFork()
	case Unknown:
		dec.forked = true
		in.ex.note("solver-unknown", in.whereShort())
	}
	p.decs = append(p.decs, dec)
	p.prefix = append(p.prefix, dec)
	p.pos++
	if dec.forked {
		if b {
			in.addPC(c)
		} else {
			in.addPC(nc)
		}
	}
	return b
}

// concretize forks over the feasible values of t.
func (in *Interp) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.val
	}
	p := in.path
	for n := 0; ; n++ {
		if n > 2200 {
			panic(pathAbort{"limit", "too many values for a concretised term @ " + in.where()})
		}
		if e := (&ivEval{in: in, memo: map[*Term]ival{}}).get(t); e.lo == e.hi {
			return e.lo // decided by the path: nothing was recorded for it
		}
		var v uint64
		if p.pos < len(p.prefix) && p.prefix[p.pos].isVal {
			v = p.prefix[p.pos].val
		} else {
			v = in.tc.eval(t, p.model)
		}
		if in.decide(in.tc.Eq(t, in.tc.BV(v, t.sort)), Dec{isVal: true, val: v}) {
			return v
		}
	}
}

// choose is an n-way fork recorded natively together with its constraint.
func (in *Interp) freshVar(name string, s Sort) *Term {
	p := in.path
	if p == nil {
		panic("symbolic variable outside a path")
	}
	k := p.names[name]
	p.names[name] = k + 1
	nm := fmt.Sprintf("%s#%d", name, k)
	v := in.tc.Var(nm, s)
	p.vars = append(p.vars, v)
	return v
}

func (in *Interp) assume(v Value) {
	switch c := v.(type) {
	case bool:
		if !c {
			panic(pathAbort{"assume", ""})
		}
	case *Term:
		p := in.path
		if p.pcSet[c] {
			return
		}
		if p.pos >= len(p.prefix) && in.tc.eval(c, p.model) == 0 {
			if v := c.single(); v != nil && v.sort <= 8 && v.sort != SBool && !p.multi[v] {
				d := *in.domain(v)
				tr := in.truthSet(c, v)
				for i := range d {
					d[i] &= tr[i]
				}
				k := firstBit(&d)
				if k < 0 {
					panic(pathAbort{"assume", ""})
				}
				p.model = p.model.with(v.name, uint64(k))
			} else {
				res, m := in.query(c)
				switch res {
				case Unsat:
					panic(pathAbort{"assume", ""})
				case Unknown:
					panic(pathAbort{"unknown", "assume @ " + in.where()})
				}
				p.model = m
			}
		}
		in.addPC(c)
	}
}

func (m *Model) with(name string, v uint64) *Model {
	mm := make(map[string]uint64, len(m.m)+1)
	for a, x := range m.m {
		mm[a] = x
	}
	mm[name] = v
	return newModel(mm)
}

func (in *Interp) assertV(v Value, label string) {
	p := in.path
	p.nAsserts++
	switch c := v.(type) {
	case bool:
		if !c {
			in.report("assert", label, p.model)
			panic(pathAbort{"violated", label})
		}
	case *Term:
		if p.pcSet[c] {
			return
		}
		if p.pos < len(p.prefix) {
			in.addPC(c)
			return
		}
		in.nAssertQ++
		res, m := in.query(in.tc.Not(c))
		switch res {
		case Unknown:
			in.ex.note("solver-unknown-assert", label)
		case Sat:
			in.report("assert", label, m)
		case Unsat:
			in.addPC(c)
			return
		}
		in.assume(c)
	}
}

func (in *Interp) report(kind, label string, m *Model) {
	p := in.path
	inp := map[string]uint64{}
	for _, v := range p.vars {
		inp[v.name] = m.m[v.name]
	}
	v := &Violation{Harness: in.ex.harness, Kind: kind, Label: label, Where: in.where(), Inputs: inp}
	if in.ex.onViol(v) {
		in.ex.halt()
	}
}

// ---- explorer

func (ex *Explorer) stopped() bool {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	return ex.stop
}
func (ex *Explorer) halt() {
	ex.mu.Lock()
	ex.stop = true
	ex.cond.Broadcast()
	ex.mu.Unlock()
}
func (ex *Explorer) decCount(in *Interp) { in.nDec++ }

var forkStats = os.Getenv("GOSYM_FORKS") != ""
var forkMu sync.Mutex
var forkAt = map[string]int{}

func (in *Interp) noteFork() {
	if !forkStats {
		return
	}
	w := in.where()
	if len(w) > 250 {
		w = w[:250]
	}
	forkMu.Lock()
	forkAt[w]++
	forkMu.Unlock()
}

func dumpForks() {
	if !forkStats {
		return
	}
	ks := make([]string, 0, len(forkAt))
	for k := range forkAt {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return forkAt[ks[i]] > forkAt[ks[j]] })
	for i, k := range ks {
		if i < 15 {
			fmt.Fprintln(os.Stderr, "FORKS", forkAt[k], k)
		}
	}
}

func (ex *Explorer) push(id int, it workItem) {
	ex.mu.Lock()
	ex.items[id] = append(ex.items[id], it)
	ex.cond.Signal()
	ex.mu.Unlock()
}

func (ex *Explorer) note(kind, msg string) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	ex.st.Aborts[kind]++
	if len(ex.st.AbortMsgs) < 60 {
		ex.st.AbortMsgs[kind+": "+msg]++
	}
}

func (ex *Explorer) take(id int) (workItem, bool) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.stop {
			return workItem{}, false
		}
		if n := len(ex.items[id]); n > 0 {
			it := ex.items[id][n-1]
			ex.items[id] = ex.items[id][:n-1]
			ex.active++
			return it, true
		}
		best, bn := -1, 0
		for k := range ex.items {
			if n := len(ex.items[k]); n > bn {
				best, bn = k, n
			}
		}
		if best >= 0 {
			it := ex.items[best][0]
			ex.items[best] = ex.items[best][1:]
			ex.active++
			return it, true
		}
		if ex.active == 0 {
			ex.cond.Broadcast()
			return workItem{}, false
		}
		ex.cond.Wait()
	}
}

func (ex *Explorer) done() {
	ex.mu.Lock()
	ex.active--
	if ex.active == 0 {
		ex.cond.Broadcast()
	}
	ex.mu.Unlock()
}

func (ex *Explorer) run(workers []*Interp) {
	t0 := time.Now()
	ex.cond = sync.NewCond(&ex.mu)
	ex.items = make([][]workItem, len(workers))
	ex.items[0] = []workItem{{nil, map[string]uint64{}}}
	ex.st.Aborts = map[string]int64{}
	ex.st.AbortMsgs = map[string]int64{}
	ex.st.Reached = map[string]int64{}
	timer := time.AfterFunc(time.Until(ex.deadline), func() { ex.halt() })
	var wg sync.WaitGroup
	for i, in := range workers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			s0 := in.solver.Stats
			in.ex, in.id = ex, i
			in.nDec, in.nForks, in.nDom, in.nAssertQ, in.nAsserts = 0, 0, 0, 0, 0
			for {
				it, ok := ex.take(i)
				if !ok {
					break
				}
				in.runPath(ex, it)
				ex.done()
			}
			ex.mu.Lock()
			ex.st.Decisions += in.nDec
			ex.st.Forks += in.nForks
			ex.st.DomDecided += in.nDom
			ex.st.AssertQ += in.nAssertQ
			ex.st.Asserts += in.nAsserts
			s := in.solver.Stats
			ex.st.Solver.Queries += s.Queries - s0.Queries
			ex.st.Solver.SatN += s.SatN - s0.SatN
			ex.st.Solver.UnsatN += s.UnsatN - s0.UnsatN
			ex.st.Solver.UnknownN += s.UnknownN - s0.UnknownN
			ex.st.Solver.Fallbacks += s.Fallbacks - s0.Fallbacks
			ex.st.Solver.Time += s.Time - s0.Time
			ex.mu.Unlock()
		}()
	}
	wg.Wait()
	timer.Stop()
	for _, q := range ex.items {
		ex.st.Pending += int64(len(q))
	}
	ex.st.Wall = time.Since(t0)
}

func (in *Interp) runPath(ex *Explorer, it workItem) {
	if len(in.tc.tab) > 3000000 {
		in.tc = NewTermCtx()
		in.solver.tc = in.tc
		in.solver.restart()
	}
	p := &Path{prefix: it.prefix, pcSet: map[*Term]bool{}, dom: map[*Term]*[4]uint64{}, rng: map[*Term]ival{}, multi: map[*Term]bool{},
		model: newModel(it.model), names: map[string]int{}, start: time.Now()}
	in.path = p
	in.fs = newMemFS()
	in.steps = 0
	in.maxSteps = ex.maxSteps
	in.trailing = true
	in.stack = in.stack[:0]
	in.depth = 0
	status, msg := "ok", ""
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch x := r.(type) {
			case pathAbort:
				status, msg = x.kind, x.msg
				switch status {
				case "assume", "infeasible", "stop", "violated":
				default:
					in.reportAt("abort", status+": "+msg, in.where())
				}
			case *goPanic:
				kind := "panic"
				if x.fatal != "" {
					kind = x.fatal
				}
				status = "violated"
				lbl := in.panicText(x)
				in.reportAt(kind, lbl, x.where)
			default:
				status, msg = "engine-error", fmt.Sprintf("%v @ %s\n%s", r, in.where(), shortStack())
			}
		}()
		in.call(ex.fn, nil, nil, nil)
	}()
	var sample *PathSample
	if status == "ok" && ex.wantSample(p) {
		sample = in.sample(p)
	}
	in.nAsserts += int64(p.nAsserts)
	in.rollback(0)
	in.path = nil
	ex.mu.Lock()
	ex.st.Paths++
	ex.st.Steps += in.steps
	if in.steps > ex.st.MaxSteps {
		ex.st.MaxSteps = in.steps
	}
	switch status {
	case "ok":
		ex.st.PathsOK++
	case "assume":
		ex.st.AssumeCut++
	case "stop":
	case "violated":
	default:
		ex.st.Aborts[status]++
		if len(ex.st.AbortMsgs) < 60 {
			ex.st.AbortMsgs[status+": "+msg]++
		}
	}
	for _, r := range p.reach {
		ex.st.Reached[r]++
	}
	if sample != nil {
		ex.samples = append(ex.samples, *sample)
	}
	ex.mu.Unlock()
}

func (ex *Explorer) wantSample(p *Path) bool {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	ex.nDone++
	if len(ex.samples) >= ex.maxSamp {
		return false
	}
	// keep all early ones, then a sparse selection
	n := ex.nDone
	return n <= int64(ex.maxSamp)/2 || n&(n>>3) == 0 || n%97 == 0
}

func (in *Interp) sample(p *Path) *PathSample {
	s := &PathSample{Inputs: map[string]uint64{}}
	for _, v := range p.vars {
		s.Inputs[v.name] = p.model.m[v.name]
	}
	for _, o := range p.obs {
		s.Obs = append(s.Obs, o.Label+"="+in.showUnder(o.V, p.model, o.kind))
	}
	return s
}

func (in *Interp) showUnder(v Value, m *Model, kind byte) string {
	switch x := v.(type) {
	case int64:
		return fmt.Sprint(x)
	case bool:
		return fmt.Sprint(x)
	case float64:
		return fmt.Sprintf("%016x", math.Float64bits(normNaN(x)))
	case string:
		return fmt.Sprintf("%q", x)
	case *SymStr:
		var sb strings.Builder
		for _, b := range x.b {
			if t, ok := b.(*Term); ok {
				sb.WriteByte(byte(in.tc.eval(t, m)))
			} else {
				sb.WriteByte(byte(b.(int64)))
			}
		}
		return fmt.Sprintf("%q", sb.String())
	case *Term:
		e := in.tc.eval(x, m)
		switch {
		case x.sort == SBool:
			return fmt.Sprint(e != 0)
		case x.sort == SFP:
			return fmt.Sprintf("%016x", math.Float64bits(normNaN(math.Float64frombits(e))))
		}
		return fmt.Sprint(sext(e, x.sort))
	}
	return fmt.Sprintf("?%T", v)
}

func normNaN(f float64) float64 {
	if f != f {
		return math.NaN()
	}
	return f
}

func (in *Interp) panicText(g *goPanic) string {
	if g.v.t == nil {
		return "nil"
	}
	switch v := g.v.v.(type) {
	case string:
		return v
	case *SymStr:
		return in.showUnder(v, in.path.model, 0)
	}
	return "value of type " + g.v.t.String()
}

func (in *Interp) reportAt(kind, label, where string) {
	p := in.path
	inp := map[string]uint64{}
	for _, v := range p.vars {
		inp[v.name] = p.model.m[v.name]
	}
	v := &Violation{Harness: in.ex.harness, Kind: kind, Label: label, Where: where, Inputs: inp}
	if in.ex.onViol(v) {
		in.ex.halt()
	}
}

func sortedKeys(m map[string]int64) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// whereShort is the innermost three frames.
func (in *Interp) whereShort() string {
	p := strings.Split(in.where(), " < ")
	if len(p) > 3 {
		p = p[:3]
	}
	return strings.Join(p, " < ")
}

// query decides pc ∧ c through the part of the path condition that shares variables with c;
// the path's model satisfies the rest, so it completes the model of the part.
func (in *Interp) query(c *Term) (Result, *Model) {
	if slowQueries {
		t0 := time.Now()
		defer func() {
			if d := time.Since(t0); d > time.Second {
				fmt.Fprintf(os.Stderr, "SLOW %.1fs %s\n", d.Seconds(), in.whereShort())
			}
		}()
	}
	p := in.path
	reach := map[*Term]bool{}
	for _, v := range c.allVars() {
		reach[v] = true
	}
	keep := make([]bool, len(p.pc))
	nk := 0
	for changed := true; changed; {
		changed = false
		for i, t := range p.pc {
			if keep[i] {
				continue
			}
			vs := t.allVars()
			hit := false
			for _, v := range vs {
				if reach[v] {
					hit = true
					break
				}
			}
			if hit {
				keep[i] = true
				nk++
				for _, v := range vs {
					if !reach[v] {
						reach[v] = true
						changed = true
					}
				}
			}
		}
	}
	if nk == len(p.pc) {
		return in.solver.Check(p.pc, c, p.vars)
	}
	pc := make([]*Term, 0, nk)
	for i, t := range p.pc {
		if keep[i] {
			pc = append(pc, t)
		}
	}
	var want []*Term
	for _, v := range p.vars {
		if reach[v] {
			want = append(want, v)
		}
	}
	res, m := in.solver.Check(pc, c, want)
	if res != Sat {
		return res, m
	}
	mm := make(map[string]uint64, len(p.model.m)+len(m.m))
	for a, x := range p.model.m {
		mm[a] = x
	}
	for a, x := range m.m {
		mm[a] = x
	}
	return res, newModel(mm)
}

var slowQueries = os.Getenv("GOSYM_SLOW") != ""
