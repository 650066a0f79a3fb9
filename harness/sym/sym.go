// Package sym is the vocabulary of the harnesses.  gosym replaces every exported
// function by its symbolic meaning; this file is their meaning in a native replay,
// where the inputs come from the solver's assignment.
package sym

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"
)

type AssumeFailed struct{}
type AssertFailed struct{ Label string }

type state struct {
	inputs map[string]uint64
	count  map[string]int
	obs    []string
	tier   string
	dir    string
}

var cur = &state{}

// Begin starts a native replay with the given assignment.
func Begin(inputs map[string]uint64, tier string) {
	cur = &state{inputs: inputs, count: map[string]int{}, tier: tier}
}

// Observations returns what the harness observed.
func Observations() []string { return cur.obs }

func next(label string) uint64 {
	k := cur.count[label]
	cur.count[label] = k + 1
	return cur.inputs[fmt.Sprintf("%s#%d", label, k)]
}

func Int64(label string) int64     { return int64(next(label)) }
func Int(label string) int         { return int(next(label)) }
func Int32(label string) int32     { return int32(next(label)) }
func Byte(label string) byte       { return byte(next(label)) }
func Bool(label string) bool       { return next(label)&0xFF == 1 }
func Float64(label string) float64 { return math.Float64frombits(next(label)) }

// Choice is an arbitrary value in [0,n); gosym explores each one.
func Choice(label string, n int) int {
	if n <= 1 {
		return 0
	}
	v := int(next(label))
	if v >= n {
		panic(AssumeFailed{})
	}
	return v
}

// Concrete forks over the values of x.
func Concrete(x int) int { return x }

func Assume(c bool) {
	if !c {
		panic(AssumeFailed{})
	}
}

func Assert(c bool, label string) {
	if !c {
		panic(AssertFailed{label})
	}
}

func Reach(label string) {}
func Symbolic() bool     { return false }
func Thorough() bool     { return cur.tier == "thorough" }

func ObserveInt(label string, v int64) { cur.obs = append(cur.obs, fmt.Sprintf("%s=%d", label, v)) }
func ObserveBool(label string, v bool) { cur.obs = append(cur.obs, fmt.Sprintf("%s=%v", label, v)) }
func ObserveStr(label string, v string) {
	cur.obs = append(cur.obs, fmt.Sprintf("%s=%q", label, v))
}
func ObserveFloat(label string, v float64) {
	if v != v {
		v = math.NaN()
	}
	cur.obs = append(cur.obs, fmt.Sprintf("%s=%016x", label, math.Float64bits(v)))
}

// Non-forking connectives (every argument is evaluated).
func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}
func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }
func IteInt(c bool, a, b int64) int64 {
	if c {
		return a
	}
	return b
}

// SameFloat is equality of the representation (any NaN equals any NaN).
func SameFloat(a, b float64) bool {
	return math.Float64bits(a) == math.Float64bits(b) || a != a && b != b
}

// BytesString is string(b).
func BytesString(b ...byte) string { return string(b) }

// TempName is the name of a file in a directory of this run, which is empty at first.
func TempName(base string) string {
	if cur.dir == "" {
		d, err := os.MkdirTemp("", "gmnverif")
		if err != nil {
			panic(err)
		}
		cur.dir = d
	}
	return filepath.Join(cur.dir, base)
}

// End removes the files of the replay.
func End() {
	if cur.dir != "" {
		os.RemoveAll(cur.dir)
		cur.dir = ""
	}
}

// FileText is what the file contains, if there is such a file.
func FileText(name string) (string, bool) {
	b, err := os.ReadFile(name)
	return string(b), err == nil
}

// PutFile writes a file.
func PutFile(name, text string) {
	if err := os.WriteFile(name, []byte(text), 0o600); err != nil {
		panic(err)
	}
}

// OpenFiles is the number of files of this run that are open.
func OpenFiles() int {
	n := 0
	fds, _ := os.ReadDir("/proc/self/fd")
	for _, f := range fds {
		if l, err := os.Readlink("/proc/self/fd/" + f.Name()); err == nil && (cur.dir != "" && strings.HasPrefix(l, cur.dir+"/") || l == "/dev/full") {
			n++
		}
	}
	return n
}
