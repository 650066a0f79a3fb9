// Command native re-executes harnesses on the real build with concrete inputs.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"time"

	"gmnverif/sym"
)

var registry = map[string]func(){}

type kase struct {
	Harness string            `json:"harness"`
	Inputs  map[string]uint64 `json:"inputs"`
	Tier    string            `json:"tier"`
}
type result struct {
	Status string   `json:"status"`
	Label  string   `json:"label"`
	Obs    []string `json:"obs"`
}

func runCase(c kase) (r result) {
	f, ok := registry[c.Harness]
	if !ok {
		return result{Status: "ok", Label: "no such harness"}
	}
	sym.Begin(c.Inputs, c.Tier)
	defer sym.End()
	defer func() {
		if x := recover(); x != nil {
			switch v := x.(type) {
			case sym.AssumeFailed:
				r = result{Status: "assume"}
			case sym.AssertFailed:
				r = result{Status: "assert", Label: v.Label}
			default:
				at := ""
				for _, l := range strings.Split(string(debug.Stack()), "\n") {
					if strings.Contains(l, "/repo/") || strings.Contains(l, "gmnlisp") && strings.Contains(l, ".go:") {
						at = strings.TrimSpace(l)
						break
					}
				}
				r = result{Status: "panic", Label: fmt.Sprintf("%v at %s", x, at)}
			}
			r.Obs = sym.Observations()
		}
	}()
	f()
	return result{Status: "ok", Obs: sym.Observations()}
}

func main() {
	debug.SetMaxStack(512 << 20)
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	var cs []kase
	if err := json.Unmarshal(b, &cs); err != nil {
		var one kase
		if err := json.Unmarshal(b, &one); err != nil {
			panic(err)
		}
		cs = []kase{one}
	}
	ms := 30000
	if len(os.Args) > 2 {
		ms, _ = strconv.Atoi(os.Args[2])
	}
	out := json.NewEncoder(os.Stdout)
	out.SetEscapeHTML(false)
	bad := false
	for _, c := range cs {
		ch := make(chan result, 1)
		go func() { ch <- runCase(c) }()
		select {
		case r := <-ch:
			out.Encode(r)
			bad = bad || r.Status != "ok" && r.Status != "assume"
		case <-time.After(time.Duration(ms) * time.Millisecond):
			out.Encode(result{Status: "timeout"})
			os.Exit(3)
		}
	}
	if bad {
		os.Exit(1)
	}
}
