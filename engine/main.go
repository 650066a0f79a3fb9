package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const symPkg = "gmnverif/sym"
const harnessPkg = "gmnverif/h"

var verifDir = "/verif"

// overlay replaces files of the harness.
var overlay map[string][]byte

func goEnv() []string {
	env := os.Environ()
	return append(env, "GOTOOLCHAIN=local", "GOSUMDB=off", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "CGO_ENABLED=0")
}

// packages whose initialisers are executed; the rest is modelled by natives.
var initPkgs = map[string]bool{
	"io": true, "io/fs": true, "internal/oserror": true, "strings": true, "bytes": true, "strconv": true,
	"context": true, "math": true, "math/big": true, "math/bits": true, "bufio": true, "sort": true, "slices": true, "maps": true,
	"unicode/utf8": true, "internal/errors": true, "internal/stringslite": true, "iter": true, "cmp": true, "path": true,
	"internal/strconv": true, "flag": true,
}

func load() (*Program, *ssa.Package, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:        filepath.Join(verifDir, "harness"),
		Overlay:    overlay,
		Env:        goEnv(),
		BuildFlags: []string{"-tags=purego,math_big_pure_go"},
	}
	pkgs, err := packages.Load(cfg, harnessPkg)
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p := &Program{prog: prog, fset: prog.Fset, fns: map[*ssa.Function]*Fn{}, globals: map[*ssa.Global]int{},
		natives: map[string]NativeFn{}, sizes: types.SizesFor("gc", "amd64")}
	p.initOK = func(path string) bool {
		return initPkgs[path] || strings.HasPrefix(path, targetPrefix) || strings.HasPrefix(path, "gmnverif")
	}
	registerNatives(p)
	registerReflect(p)
	return p, spkgs[0], nil
}

func newInterp(p *Program) *Interp {
	tc := NewTermCtx()
	in := &Interp{p: p, tc: tc, maxSteps: 1 << 40}
	in.solver = NewSolver(tc)
	return in
}

func (in *Interp) initProgram(pkg *ssa.Package) (err error) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case *goPanic:
				err = fmt.Errorf("panic during initialisation: %s at %s", x.v.t, x.where)
				if s, ok := x.v.v.(string); ok {
					err = fmt.Errorf("panic during initialisation: %s at %s", s, x.where)
				}
			case pathAbort:
				err = fmt.Errorf("initialisation: %s %s", x.kind, x.msg)
			default:
				err = fmt.Errorf("initialisation: %v @ %s\n%s", r, in.where(), debug.Stack())
			}
		}
	}()
	// go:embed startup.lsp and the like
	for _, pk := range in.p.prog.AllPackages() {
		if pk.Pkg.Path() == targetPrefix {
			for name, file := range embeddedStrings() {
				if g := pk.Var(name); g != nil {
					if b, e := os.ReadFile(filepath.Join(repoDir, file)); e == nil {
						*in.globalCell(in.p.globalIndex(g)) = string(b)
					}
				}
			}
		}
	}
	if pk := in.p.prog.ImportedPackage("os"); pk != nil {
		*in.globalCell(in.p.globalIndex(pk.Var("Args"))) = goStrings([]string{"gmnlisp"})
	}
	// packages whose importers are modelled are not reached from pkg's initialiser
	all := in.p.prog.AllPackages()
	sort.Slice(all, func(i, j int) bool { return all[i].Pkg.Path() < all[j].Pkg.Path() })
	for _, pk := range all {
		if initPkgs[pk.Pkg.Path()] {
			in.call(in.p.fnOf(pk.Func("init")), nil, nil, nil)
		}
	}
	in.call(in.p.fnOf(pkg.Func("init")), nil, nil, nil)
	return nil
}

// embeddedStrings finds the string variables of the package filled by go:embed.
func embeddedStrings() map[string]string {
	r := map[string]string{}
	rx := regexp.MustCompile(`(?m)^//go:embed (\S+)\s*\n(?://.*\n)*var (\w+) string`)
	fs, _ := filepath.Glob(filepath.Join(repoDir, "*.go"))
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		for _, m := range rx.FindAllStringSubmatch(string(b), -1) {
			r[m[2]] = m[1]
		}
	}
	return r
}

// ---- native build and replay

type nativeBin struct {
	path string
	err  error
	wg   sync.WaitGroup
	dir  string
}

func startNative(names []string, dir string) *nativeBin {
	n := &nativeBin{dir: dir, path: filepath.Join(dir, "native")}
	n.wg.Add(1)
	go func() {
		defer n.wg.Done()
		var sb strings.Builder
		sb.WriteString("package main\n\nimport \"gmnverif/h\"\n\nfunc init() {\n")
		for _, x := range names {
			fmt.Fprintf(&sb, "\tregistry[%q] = h.%s\n", x, x)
		}
		sb.WriteString("}\n")
		reg := filepath.Join(dir, "reg_gen.go")
		if n.err = os.WriteFile(reg, []byte(sb.String()), 0o644); n.err != nil {
			return
		}
		ov, err := overlayFile(dir, map[string]string{filepath.Join(verifDir, "harness/cmd/native/reg_gen.go"): reg}, overlay)
		if n.err = err; err != nil {
			return
		}
		c := exec.Command("go", "build", "-overlay", ov, "-o", n.path, "./cmd/native")
		c.Dir = filepath.Join(verifDir, "harness")
		c.Env = goEnv()
		out, err := c.CombinedOutput()
		if err != nil {
			n.err = fmt.Errorf("native build: %v\n%s", err, out)
		}
	}()
	return n
}

type nativeCase struct {
	Harness string            `json:"harness"`
	Inputs  map[string]uint64 `json:"inputs"`
	Tier    string            `json:"tier"`
}

type nativeResult struct {
	Status string   `json:"status"` // ok | assume | assert | panic | timeout | crash
	Label  string   `json:"label"`
	Obs    []string `json:"obs"`
}

// run executes every case in a process of its own (package state is not shared).
func (n *nativeBin) run(cases []nativeCase, perCase time.Duration) ([]nativeResult, error) {
	n.wg.Wait()
	if n.err != nil {
		return nil, n.err
	}
	res := make([]nativeResult, len(cases))
	errs := make([]error, len(cases))
	sem := make(chan struct{}, 8)
	var wg sync.WaitGroup
	for i := range cases {
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer func() { <-sem; wg.Done() }()
			res[i], errs[i] = n.one(cases[i], perCase)
		}()
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return nil, e
		}
	}
	return res, nil
}

func (n *nativeBin) one(k nativeCase, perCase time.Duration) (r nativeResult, err error) {
	f, err := os.CreateTemp(n.dir, "case*.json")
	if err != nil {
		return r, err
	}
	defer os.Remove(f.Name())
	json.NewEncoder(f).Encode(k)
	f.Close()
	c := exec.Command("/bin/bash", "-c", `ulimit -v 8000000; exec "$0" "$1" "$2"`, n.path, f.Name(), fmt.Sprint(int(perCase/time.Millisecond)))
	c.Dir = n.dir
	c.Env = append(os.Environ(), "GOMEMLIMIT=3000MiB", "GOTRACEBACK=single", "GOMAXPROCS=2")
	var stderr, stdout bytes.Buffer
	c.Stderr = &limitedBuf{b: &stderr, n: 4000}
	c.Stdout = &limitedBuf{b: &stdout, n: 1 << 24}
	if err := c.Start(); err != nil {
		return r, err
	}
	kill := time.AfterFunc(perCase+20*time.Second, func() { c.Process.Kill() })
	c.Wait()
	kill.Stop()
	for _, l := range strings.Split(stdout.String(), "\n") {
		if strings.HasPrefix(l, "{\"status\"") && json.Unmarshal([]byte(l), &r) == nil && r.Status != "" {
			return r, nil
		}
	}
	s := stderr.String()
	if len(s) > 400 {
		s = s[:400]
	}
	return nativeResult{Status: "crash", Label: s}, nil
}

type limitedBuf struct {
	b *bytes.Buffer
	n int
}

func (l *limitedBuf) Write(p []byte) (int, error) {
	if l.b.Len() < l.n {
		l.b.Write(p)
	}
	return len(p), nil
}

// ---- known findings

type finding struct {
	Harness string
	What    string
}

// readFindings reads the lines "known: property=<id> harness=<KF_...> <what>".
func readFindings(prop string) ([]finding, error) {
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	var r []finding
	rx := regexp.MustCompile(`(?m)^known: property=(\S+) harness=(\S+) (.*)$`)
	for _, m := range rx.FindAllStringSubmatch(string(b), -1) {
		if m[1] == prop {
			r = append(r, finding{m[2], m[3]})
		}
	}
	return r, nil
}

// ---- harness bounds: doc comments "bound:" are reported in the evidence

func harnessDocs(pkg *ssa.Package) map[string]string {
	r := map[string]string{}
	fs, _ := filepath.Glob(filepath.Join(verifDir, "harness/h/*.go"))
	rx := regexp.MustCompile(`(?m)((?:^//.*\n)+)^func ([A-Z]\d\d_\w+)\(\)`)
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		for _, m := range rx.FindAllStringSubmatch(string(b), -1) {
			t := strings.ReplaceAll(m[1], "// ", "")
			t = strings.ReplaceAll(t, "//", "")
			r[m[2]] = strings.TrimSpace(strings.ReplaceAll(t, "\n", " "))
		}
	}
	return r
}

type hres struct {
	name    string
	st      HStats
	samples []PathSample
	viol    []*Violation
	mism    []string
	val     int
	conf    []string
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "", "quick or thorough")
	only := flag.String("h", "", "only harnesses matching this regexp (development)")
	budget := flag.Float64("budget", 0, "total exploration budget in seconds")
	nw := flag.Int("workers", 0, "workers")
	verbose := flag.Bool("v", false, "verbose")
	list := flag.Bool("list", false, "list harnesses")
	flag.StringVar(&verifDir, "verif", verifDir, "verification directory")
	replay := flag.String("replay", "", "re-execute a recorded counterexample")
	maxSteps := flag.Int64("steps", 30000000, "SSA step bound per path")
	flag.Parse()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	if *nw == 0 {
		*nw = min(max(runtime.NumCPU(), 2), 8)
	}
	if *budget == 0 {
		*budget = 420
		if *tier == "thorough" {
			*budget = 2400
		}
		fmt.Sscan(os.Getenv("VERIF_BUDGET"), budget)
	}
	debug.SetMemoryLimit(14 << 30)
	t0 := time.Now()
	for id, files := range overlays {
		if *prop == id || *replay != "" && strings.Contains(filepath.Base(*replay), id) {
			var err error
			if overlay, err = files(); err != nil {
				fmt.Println("ERROR:", err)
				os.Exit(2)
			}
		}
	}
	p, pkg, err := load()
	if err != nil {
		fmt.Println("ERROR:", err)
		os.Exit(2)
	}
	tload := time.Since(t0)
	var names, all []string
	var rx *regexp.Regexp
	if *only != "" {
		rx = regexp.MustCompile(*only)
	}
	for n, m := range pkg.Members {
		f, ok := m.(*ssa.Function)
		if !ok || f.Signature.Params().Len() != 0 || f.Signature.Results().Len() != 0 || strings.IndexByte(n, '_') < 0 {
			continue
		}
		if n[0] < 'A' || n[0] > 'Z' {
			continue
		}
		all = append(all, n)
		if strings.HasPrefix(n, *prop+"_") && !strings.HasPrefix(n, "KF_") && (rx == nil || rx.MatchString(n)) {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	sort.Strings(all)
	if *list {
		fmt.Println(strings.Join(all, "\n"))
		return
	}
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		var c nativeCase
		if err == nil {
			err = json.Unmarshal(b, &c)
		}
		dir, err2 := os.MkdirTemp("", "gosym")
		if err != nil || err2 != nil {
			fmt.Println("ERROR:", err, err2)
			os.Exit(2)
		}
		defer os.RemoveAll(dir)
		rs, err := startNative(all, dir).run([]nativeCase{c}, 60*time.Second)
		if err != nil {
			fmt.Println("ERROR:", err)
			return
		}
		fmt.Printf("harness %s inputs %s\nresult on the real build: %s %s\nobserved %v\n", c.Harness, showInputs(c.Inputs), rs[0].Status, rs[0].Label, rs[0].Obs)
		return
	}
	if len(names) == 0 {
		fmt.Println("ERROR: no harness for", *prop)
		os.Exit(2)
	}
	scratch, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fmt.Println("ERROR:", err)
		os.Exit(2)
	}
	cleanup := func() { os.RemoveAll(scratch) }
	nat := startNative(all, scratch)
	workers := make([]*Interp, *nw)
	errs := make([]error, *nw)
	var wg sync.WaitGroup
	for i := range workers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			workers[i] = newInterp(p)
			errs[i] = workers[i].initProgram(pkg)
		}()
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			// the real program may really fail to initialise: let the native build decide
			nat.wg.Wait()
			if nat.err == nil {
				rs, _ := nat.run([]nativeCase{{Harness: "", Inputs: nil}}, 20*time.Second)
				if len(rs) == 1 && rs[0].Status == "crash" {
					path := writeReplay(*prop, nativeCase{Harness: "(init)"}, "crash", "package initialisation: "+rs[0].Label)
					fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
					cleanup()
					os.Exit(1)
				}
			}
			fmt.Println("ERROR:", e)
			cleanup()
			os.Exit(2)
		}
	}
	tinit := time.Since(t0) - tload
	p.entered.Range(func(k, _ any) bool {
		for _, b := range k.(*Fn).blocks {
			b.hit = false
		}
		return true
	})
	docs := harnessDocs(pkg)
	var results []*hres
	var confirmed []string
	var inits []string
	p.entered.Range(func(k, _ any) bool { inits = append(inits, k.(*Fn).name); return true })
	tExpl := time.Now()
	for i, n := range names {
		left := *budget - time.Since(tExpl).Seconds()
		share := left / float64(len(names)-i) * 2.5
		if share > left {
			share = left
		}
		if share < 8 {
			share = 8
		}
		r := &hres{name: n}
		results = append(results, r)
		var mu sync.Mutex
		seen := map[string]int{}
		nAbort := 0
		ex := &Explorer{p: p, harness: n, fn: p.fnOf(pkg.Func(n)), deadline: time.Now().Add(time.Duration(share * float64(time.Second))),
			tier: *tier, maxSteps: *maxSteps, maxSamp: 48}
		if *tier == "thorough" {
			ex.maxSamp = 300
		}
		ex.onViol = func(v *Violation) bool {
			mu.Lock()
			defer mu.Unlock()
			if v.Kind == "abort" {
				if nAbort < 6 {
					r.viol = append(r.viol, v)
				}
				nAbort++
				return false
			}
			k := v.Kind + v.Label
			seen[k]++
			if seen[k] > 2 {
				return len(r.viol) >= 12
			}
			r.viol = append(r.viol, v)
			return len(r.viol) >= 12
		}
		ex.run(workers)
		dumpForks()
		r.st = ex.st
		r.samples = ex.samples
		fmt.Printf("%-34s paths=%d ok=%d assume-cut=%d pending=%d asserts=%d(q%d) dec=%d forks=%d dom=%d q=%d(%.1fs) maxsteps=%d wall=%.1fs\n", n, r.st.Paths, r.st.PathsOK,
			r.st.AssumeCut, r.st.Pending, r.st.Asserts, r.st.AssertQ, r.st.Decisions, r.st.Forks, r.st.DomDecided, r.st.Solver.Queries, r.st.Solver.Time.Seconds(), r.st.MaxSteps, r.st.Wall.Seconds())
		for _, k := range sortedKeys(r.st.AbortMsgs) {
			fmt.Printf("    note %s x%d\n", k, r.st.AbortMsgs[k])
		}
		if *verbose {
			fmt.Printf("    reach %v\n", r.st.Reached)
		}
		// replay candidate violations on the real build
		for _, v := range r.viol {
			rs, err := nat.run([]nativeCase{{v.Harness, v.Inputs, *tier}}, 30*time.Second)
			if err != nil {
				fmt.Println("ERROR:", err)
				cleanup()
				os.Exit(2)
			}
			st := rs[0].Status
			if v.Kind == "abort" && (st == "ok" || st == "assume") {
				continue // a bound or an unmodelled operation: noted, and the real build behaves
			}
			if st == "ok" || st == "assume" {
				r.mism = append(r.mism, fmt.Sprintf("counterexample not reproduced natively (%s): %s %s @ %s inputs %v", st, v.Kind, v.Label, v.Where, v.Inputs))
				fmt.Println("    MISMATCH", r.mism[len(r.mism)-1])
				continue
			}
			path := writeReplay(*prop, nativeCase{v.Harness, v.Inputs, *tier}, st, rs[0].Label)
			fmt.Printf("    counterexample %s %q @ %s\n      inputs %v\n      native: %s %s\n", v.Kind, v.Label, v.Where, showInputs(v.Inputs), st, rs[0].Label)
			confirmed = append(confirmed, path)
		}
		// validate the encoding: sampled path models on the real build
		if len(r.samples) > 0 {
			var cs []nativeCase
			for _, s := range r.samples {
				cs = append(cs, nativeCase{n, s.Inputs, *tier})
			}
			rs, err := nat.run(cs, 30*time.Second)
			if err != nil {
				fmt.Println("ERROR:", err)
				cleanup()
				os.Exit(2)
			}
			for k, x := range rs {
				want := strings.Join(r.samples[k].Obs, " | ")
				got := strings.Join(x.Obs, " | ")
				if x.Status == "ok" && got == want {
					r.val++
					continue
				}
				if x.Status == "assert" || x.Status == "panic" || x.Status == "crash" {
					path := writeReplay(*prop, cs[k], x.Status, x.Label)
					fmt.Printf("    validation run fails on the real build: %s %s inputs %v\n", x.Status, x.Label, showInputs(cs[k].Inputs))
					confirmed = append(confirmed, path)
					continue
				}
				r.mism = append(r.mism, fmt.Sprintf("native %s %s: got %s want %s inputs %v", x.Status, x.Label, got, want, showInputs(cs[k].Inputs)))
				if len(r.mism) < 5 {
					fmt.Println("    MISMATCH", r.mism[len(r.mism)-1])
				}
			}
		}
		if len(confirmed) > 0 && *only == "" {
			break
		}
	}
	// known findings
	fnd, err := readFindings(*prop)
	if err != nil {
		fmt.Println("ERROR:", err)
		cleanup()
		os.Exit(2)
	}
	for _, f := range fnd {
		rs, err := nat.run([]nativeCase{{f.Harness, nil, *tier}}, 30*time.Second)
		if err != nil {
			fmt.Println("ERROR:", err)
			cleanup()
			os.Exit(2)
		}
		if rs[0].Status != "ok" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, f.What)
		}
	}
	nat.wg.Wait()
	if nat.err != nil {
		fmt.Println("ERROR:", nat.err)
		cleanup()
		os.Exit(2)
	}
	writeEvidence(*prop, *tier, seed, results, docs, p, inits, time.Since(t0), tload, tinit, len(confirmed))
	for _, w := range workers {
		w.solver.Close()
	}
	cleanup()
	fmt.Printf("load %.1fs init %.1fs total %.1fs\n", tload.Seconds(), tinit.Seconds(), time.Since(t0).Seconds())
	if len(confirmed) > 0 {
		for _, c := range confirmed {
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, c)
		}
		os.Exit(1)
	}
	fmt.Printf("property %s: held on everything explored\n", *prop)
}

func showInputs(m map[string]uint64) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		if strings.HasPrefix(k, "~") {
			continue
		}
		fmt.Fprintf(&sb, "%s=%d ", k, int64(m[k]))
	}
	return sb.String()
}

func writeReplay(prop string, c nativeCase, status, label string) string {
	dir := filepath.Join(verifDir, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(map[string]any{"harness": c.Harness, "inputs": c.Inputs, "tier": c.Tier, "status": status, "label": label,
		"how": "/verif/check.sh --replay <this file>"}, "", " ")
	h := sha256.Sum256(b)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%x.json", prop, c.Harness, h[:4]))
	os.WriteFile(path, b, 0o644)
	return path
}

func writeEvidence(prop, tier string, seed int, rs []*hres, docs map[string]string, p *Program, inits []string, wall, tload, tinit time.Duration, nviol int) {
	initSet := map[string]bool{}
	for _, f := range inits {
		initSet[f] = true
	}
	var fns, lib []string
	p.entered.Range(func(k, _ any) bool {
		f := k.(*Fn)
		if f.target {
			fns = append(fns, strings.ReplaceAll(strings.ReplaceAll(f.name, cliPath, targetPrefix+"/cmd/gmnlisp"), targetPrefix, "gmnlisp"))
		} else if !strings.HasPrefix(f.name, "gmnverif") && !initSet[f.name] {
			lib = append(lib, f.name)
		}
		return true
	})
	blocks, hit := 0, 0
	var cover strings.Builder
	p.entered.Range(func(k, _ any) bool {
		if f := k.(*Fn); f.target {
			for _, b := range f.blocks {
				blocks++
				if b.hit {
					hit++
				}
				fmt.Fprintf(&cover, "%s %s %v\n", f.name, f.f.Prog.Fset.Position(b.at), b.hit)
			}
		}
		return true
	})
	if name := os.Getenv("VERIF_COVER"); name != "" {
		os.WriteFile(name, []byte(cover.String()), 0o644)
	}
	sort.Strings(fns)
	sort.Strings(lib)
	var states, trans, val, queries, sat, unsat, unk, asserts, pend int64
	var stime float64
	exh := true
	var samples []any
	var hs []any
	var notes []string
	for _, r := range rs {
		states += r.st.Paths
		trans += r.st.Decisions
		val += int64(r.val)
		queries += r.st.Solver.Queries
		sat += r.st.Solver.SatN
		unsat += r.st.Solver.UnsatN
		unk += r.st.Solver.UnknownN
		stime += r.st.Solver.Time.Seconds()
		asserts += r.st.Asserts
		pend += r.st.Pending
		if r.st.Pending > 0 || len(r.st.Aborts) > 0 || r.st.PathsOK == 0 {
			exh = false
		}
		h := map[string]any{"harness": r.name, "bound": docs[r.name], "paths": r.st.Paths, "paths_completed": r.st.PathsOK,
			"assume_cut": r.st.AssumeCut, "pending_at_deadline": r.st.Pending, "branch_decisions": r.st.Decisions, "forks": r.st.Forks,
			"byte_domain_decisions": r.st.DomDecided, "assertions_evaluated": r.st.Asserts, "assertion_queries": r.st.AssertQ,
			"solver_queries": r.st.Solver.Queries, "solver_s": r.st.Solver.Time.Seconds(), "ssa_steps": r.st.Steps,
			"reached": r.st.Reached, "wall_s": r.st.Wall.Seconds(), "traces_validated": r.val}
		if len(r.st.AbortMsgs) > 0 {
			h["outside_claim"] = r.st.AbortMsgs
		}
		if len(r.mism) > 0 {
			h["encoding_mismatches"] = r.mism
		}
		if r.st.Pending > 0 {
			notes = append(notes, fmt.Sprintf("%s: time budget ended with %d pending paths; the claim covers the explored paths only", r.name, r.st.Pending))
		}
		hs = append(hs, h)
		for i, s := range r.samples {
			if i >= 2 || len(samples) > 30 {
				break
			}
			samples = append(samples, map[string]any{"harness": r.name, "path_model": showInputs(s.Inputs), "observed": s.Obs})
		}
	}
	cov := map[string]any{
		"states": states, "transitions": trans, "traces_validated_against_impl": val, "samples": samples, "exhaustive": exh,
		"explanation": "states = symbolic execution paths (each stands for all inputs satisfying its path condition); transitions = branch decisions taken on symbolic conditions; traces = solver models of completed paths re-executed on the native build with identical observations",
		"solver":      map[string]any{"queries": queries, "sat": sat, "unsat": unsat, "unknown": unk, "time_s": stime, "assertions": asserts},
		"harnesses":   hs, "functions_encoded": fns, "basic_blocks_of_these": blocks, "basic_blocks_executed": hit, "library_functions_encoded": len(lib), "notes": notes,
		"load_s": tload.Seconds(), "init_s": tinit.Seconds(),
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": wall.Seconds(), "violations": nviol,
		"assumptions": []string{
			"bounds: each harness states its own (field bound); inputs outside them are not claimed",
			"Go semantics as implemented by the gosym SSA interpreter (validated by native re-execution of sampled paths)",
			"package fmt, regexp matching, sort.Slice, sync, os and time are modelled, not executed; files live in a model of the file system with one directory and one always-full device (reads and writes other than those never fail)",
			"z3 verdicts (with cvc5/z3 4.8 as fallback) are trusted"}}
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), b, 0o644)
}
