package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type Result int

const (
	Unknown Result = iota
	Sat
	Unsat
)

type SolverStats struct {
	Queries, SatN, UnsatN, UnknownN, Fallbacks int64
	Time                                       time.Duration
}

type Solver struct {
	cmd    *exec.Cmd
	in     *bufio.Writer
	inC    io.WriteCloser
	out    *bufio.Reader
	tc     *TermCtx
	stack  []*Term
	vars   []*Term // all emitted variables
	gen    int
	Stats  SolverStats
	dead   bool
	softMS int
	emits  int
}

var solverBin = "z3-new"

func init() {
	if _, err := exec.LookPath(solverBin); err != nil {
		solverBin = "z3"
	}
}

func NewSolver(tc *TermCtx) *Solver {
	s := &Solver{tc: tc, softMS: 5000}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(solverBin, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inC = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.stack = s.stack[:0]
	s.emits = 0
	fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-option :timeout %d)\n(set-logic ALL)\n", s.softMS)
	for _, t := range s.tc.tab {
		t.emitted = false
	}
	s.vars = s.vars[:0]
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inC.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) restart() {
	s.Close()
	s.start()
}

func (s *Solver) emit(t *Term) {
	if t.emitted || t.op == OpConst {
		return
	}
	// iterative to survive deep DAGs
	st := []*Term{t}
	for len(st) > 0 {
		x := st[len(st)-1]
		if x.emitted || x.op == OpConst {
			st = st[:len(st)-1]
			continue
		}
		ready := true
		for i := 0; i < int(x.n); i++ {
			if a := x.a[i]; !a.emitted && a.op != OpConst {
				st = append(st, a)
				ready = false
			}
		}
		if !ready {
			continue
		}
		if x.op == OpVar {
			fmt.Fprintf(s.in, "(declare-const %s %s)\n", x.smtName(), sortName(x.sort))
			s.vars = append(s.vars, x)
		} else {
			fmt.Fprintf(s.in, "(define-fun t%d () %s %s)\n", x.id, sortName(x.sort), x.body())
		}
		x.emitted = true
		s.emits++
		st = st[:len(st)-1]
	}
}

func (s *Solver) sync(pc []*Term) {
	k := 0
	for k < len(pc) && k < len(s.stack) && pc[k] == s.stack[k] {
		k++
	}
	if n := len(s.stack) - k; n > 0 {
		fmt.Fprintf(s.in, "(pop %d)\n", n)
		s.stack = s.stack[:k]
	}
	for _, t := range pc[k:] {
		s.emit(t)
		fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n", t.ref())
		s.stack = append(s.stack, t)
	}
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		l = strings.TrimSpace(l)
		if l != "" || err != nil {
			return l, err
		}
	}
}

// Check decides pc ∧ extra (extra may be nil).  On Sat the model of `want` is returned.
func (s *Solver) Check(pc []*Term, extra *Term, want []*Term) (Result, *Model) {
	t0 := time.Now()
	defer func() { s.Stats.Time += time.Since(t0) }()
	s.Stats.Queries++
	if s.emits > 400000 {
		s.restart()
	}
	s.sync(pc)
	if extra != nil {
		s.emit(extra)
		fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n", extra.ref())
	}
	for _, v := range want {
		s.emit(v)
	}
	io.WriteString(s.in, "(check-sat)\n")
	s.in.Flush()
	line, err := s.readLine()
	res := Unknown
	bad := err != nil
	if !bad {
		switch {
		case line == "sat":
			res = Sat
		case line == "unsat":
			res = Unsat
		case line == "unknown" || line == "timeout":
		case strings.HasPrefix(line, "(error"):
			fmt.Fprintln(os.Stderr, "solver:", line)
			bad = true
		default:
			fmt.Fprintf(os.Stderr, "solver: unexpected answer %q\n", line)
			bad = true
		}
	}
	var m *Model
	if res == Sat {
		m = s.getModel(want)
		if m == nil {
			bad = true
		}
	}
	if bad {
		s.restart()
		res = Unknown
		m = nil
	} else if extra != nil {
		io.WriteString(s.in, "(pop 1)\n")
	}
	if res == Unknown {
		s.Stats.Fallbacks++
		res, m = s.fallback(pc, extra, want)
	}
	switch res {
	case Sat:
		s.Stats.SatN++
	case Unsat:
		s.Stats.UnsatN++
	default:
		s.Stats.UnknownN++
	}
	return res, m
}

func newModel(m map[string]uint64) *Model {
	return &Model{m: m, epoch: atomic.AddInt64(&epochCounter, 1)}
}

func (s *Solver) getModel(want []*Term) *Model {
	mm := map[string]uint64{}
	if len(want) == 0 {
		return newModel(mm)
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range want {
		sb.WriteString(v.ref())
		sb.WriteByte(' ')
	}
	sb.WriteString("))\n")
	io.WriteString(s.in, sb.String())
	s.in.Flush()
	txt, err := readSexp(s.out)
	if err != nil || strings.HasPrefix(txt, "(error") {
		fmt.Fprintln(os.Stderr, "solver get-value:", txt)
		return nil
	}
	if !parseValues(txt, mm) {
		fmt.Fprintln(os.Stderr, "solver cannot parse:", txt)
		return nil
	}
	return newModel(mm)
}

func readSexp(r *bufio.Reader) (string, error) {
	var sb strings.Builder
	depth := 0
	inBar := false
	started := false
	for {
		c, err := r.ReadByte()
		if err != nil {
			return sb.String(), err
		}
		if !started && (c == ' ' || c == '\n' || c == '\r') {
			continue
		}
		started = true
		sb.WriteByte(c)
		if c == '|' {
			inBar = !inBar
		}
		if !inBar {
			if c == '(' {
				depth++
			}
			if c == ')' {
				depth--
				if depth == 0 {
					return sb.String(), nil
				}
			}
		}
	}
}

// parse ((|x| #x00) (y true) (z (_ bv3 7)))
func parseValues(txt string, mm map[string]uint64) bool {
	i := 0
	n := len(txt)
	skip := func() {
		for i < n && (txt[i] == ' ' || txt[i] == '\n' || txt[i] == '\r' || txt[i] == '\t') {
			i++
		}
	}
	tok := func() string {
		skip()
		if i >= n {
			return ""
		}
		if txt[i] == '(' || txt[i] == ')' {
			i++
			return txt[i-1 : i]
		}
		if txt[i] == '|' {
			j := strings.IndexByte(txt[i+1:], '|')
			r := txt[i+1 : i+1+j]
			i = i + j + 2
			return r
		}
		st := i
		for i < n && !strings.ContainsRune(" ()\n\r\t", rune(txt[i])) {
			i++
		}
		return txt[st:i]
	}
	if tok() != "(" {
		return false
	}
	for {
		t := tok()
		if t == ")" {
			return true
		}
		if t != "(" {
			return false
		}
		name := tok()
		if k := strings.LastIndexByte(name, '~'); k >= 0 {
			name = name[:k]
		}
		v := tok()
		switch {
		case v == "true":
			mm[name] = 1
		case v == "false":
			mm[name] = 0
		case strings.HasPrefix(v, "#x"):
			x, err := strconv.ParseUint(v[2:], 16, 64)
			if err != nil {
				return false
			}
			mm[name] = x
		case strings.HasPrefix(v, "#b"):
			x, err := strconv.ParseUint(v[2:], 2, 64)
			if err != nil {
				return false
			}
			mm[name] = x
		case v == "(":
			if tok() != "_" {
				return false
			}
			b := tok()
			x, err := strconv.ParseUint(strings.TrimPrefix(b, "bv"), 10, 64)
			if err != nil {
				return false
			}
			mm[name] = x
			tok()
			if tok() != ")" {
				return false
			}
		default:
			return false
		}
		if tok() != ")" {
			return false
		}
	}
}

// fallback runs a one-shot portfolio with a longer limit.
func (s *Solver) fallback(pc []*Term, extra *Term, want []*Term) (Result, *Model) {
	var sb strings.Builder
	sb.WriteString("(set-option :produce-models true)\n(set-logic ALL)\n")
	seen := map[*Term]bool{}
	var emit func(t *Term)
	emit = func(t *Term) {
		if t.op == OpConst || seen[t] {
			return
		}
		seen[t] = true
		for i := 0; i < int(t.n); i++ {
			emit(t.a[i])
		}
		if t.op == OpVar {
			fmt.Fprintf(&sb, "(declare-const %s %s)\n", t.smtName(), sortName(t.sort))
		} else {
			fmt.Fprintf(&sb, "(define-fun t%d () %s %s)\n", t.id, sortName(t.sort), t.body())
		}
	}
	for _, t := range pc {
		emit(t)
	}
	if extra != nil {
		emit(extra)
	}
	for _, t := range want {
		emit(t)
	}
	for _, t := range pc {
		fmt.Fprintf(&sb, "(assert %s)\n", t.ref())
	}
	if extra != nil {
		fmt.Fprintf(&sb, "(assert %s)\n", extra.ref())
	}
	base := sb.String()
	tail := ""
	if len(want) > 0 {
		tail = "(get-value ("
		for _, v := range want {
			tail += v.ref() + " "
		}
		tail += "))\n"
	}
	dir, err := os.MkdirTemp("", "gosymq")
	if err != nil {
		return Unknown, nil
	}
	defer os.RemoveAll(dir)
	f1 := filepath.Join(dir, "a.smt2")
	os.WriteFile(f1, []byte(base+"(check-sat)\n"+tail), 0o600)
	if d := os.Getenv("GOSYM_DUMP"); d != "" {
		os.WriteFile(filepath.Join(d, fmt.Sprintf("q%d.smt2", time.Now().UnixNano())), []byte(base+"(check-sat)\n"+tail), 0o600)
	}
	T := "30"
	type ans struct {
		r Result
		m *Model
	}
	cmds := [][]string{
		{"cvc5", "--tlimit=30000", f1},
		{"cvc5", "--tlimit=30000", "--solve-bv-as-int=sum", f1},
		{solverBin, "-T:" + T, f1},
		{"z3", "-T:" + T, f1},
	}
	ch := make(chan ans, len(cmds))
	var procs []*exec.Cmd
	for _, c := range cmds {
		cmd := exec.Command(c[0], c[1:]...)
		out, err := cmd.StdoutPipe()
		if err != nil || cmd.Start() != nil {
			ch <- ans{}
			continue
		}
		procs = append(procs, cmd)
		go func() {
			defer cmd.Wait()
			b, _ := io.ReadAll(out)
			txt := string(b)
			line, rest, _ := strings.Cut(txt, "\n")
			if strings.Contains(line, "(error") {
				ch <- ans{}
				return
			}
			switch strings.TrimSpace(line) {
			case "unsat":
				ch <- ans{Unsat, nil}
			case "sat":
				mm := map[string]uint64{}
				if len(want) > 0 {
					i := strings.Index(rest, "((")
					if i < 0 || !parseValues(rest[i:], mm) {
						ch <- ans{}
						return
					}
				}
				ch <- ans{Sat, newModel(mm)}
			default:
				ch <- ans{}
			}
		}()
	}
	res := ans{}
	for range cmds {
		a := <-ch
		if a.r != Unknown {
			res = a
			break
		}
	}
	for _, p := range procs {
		p.Process.Kill()
	}
	return res.r, res.m
}
