package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// overlays are the properties for which a package of the harness is replaced by a rewritten package of /repo.
var overlays = map[string]func() (map[string][]byte, error){
	// main is Main, and os.Exit is a function of the harness
	"V01": func() (map[string][]byte, error) { return rewritten("cmd/gmnlisp", "main", "cli", nil) },
	// programs are started by the harness
	"W01": func() (map[string][]byte, error) {
		return rewritten("pkg/command", "command", "progs", map[string]string{"os/exec": "gmnverif/exec"})
	},
}

// rewritten gives the files of the package in dir of /repo as the package pkg of the harness.
func rewritten(dir, from, pkg string, imports map[string]string) (map[string][]byte, error) {
	names, _ := filepath.Glob(filepath.Join(repoDir, dir, "*.go"))
	out := map[string][]byte{}
	first := filepath.Join(verifDir, "harness", pkg, pkg+".go")
	for _, name := range names {
		if strings.HasSuffix(name, "_test.go") {
			continue
		}
		src, err := os.ReadFile(name)
		if err != nil {
			return nil, err
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, name, src, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		if f.Name.Name != from || excluded(f) {
			continue
		}
		type edit struct {
			at, end int
			text    string
		}
		var edits []edit
		add := func(n ast.Node, text string) {
			edits = append(edits, edit{fs.Position(n.Pos()).Offset, fs.Position(n.End()).Offset, text})
		}
		add(f.Name, pkg)
		osName := ""
		for _, im := range f.Imports {
			if to, ok := imports[strings.Trim(im.Path.Value, "\"`")]; ok {
				add(im.Path, strconv.Quote(to))
			}
			if from == "main" && im.Path.Value == `"os"` {
				osName = "os"
				if im.Name != nil {
					osName = im.Name.Name
				}
			}
		}
		for _, d := range f.Decls {
			if fn, ok := d.(*ast.FuncDecl); ok && from == "main" && fn.Recv == nil && fn.Name.Name == "main" {
				add(fn.Name, "Main")
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			if s, ok := n.(*ast.SelectorExpr); ok && osName != "" {
				if x, ok := s.X.(*ast.Ident); ok && x.Name == osName && x.Obj == nil && s.Sel.Name == "Exit" {
					add(s, "verifExit")
				}
			}
			return true
		})
		sort.Slice(edits, func(i, j int) bool { return edits[i].at > edits[j].at })
		text := string(src)
		for _, e := range edits {
			text = text[:e.at] + e.text + text[e.end:]
		}
		if osName != "" && osName != "_" && osName != "." {
			text += fmt.Sprintf("\nvar _ = %s.Args\n", osName)
		}
		to := filepath.Join(verifDir, "harness", pkg, "repo_"+filepath.Base(name))
		if first != "" {
			to, first = first, ""
		}
		out[to] = []byte(text)
	}
	if first != "" {
		return nil, fmt.Errorf("no source of %s", dir)
	}
	return out, nil
}

// excluded reports whether a build constraint excludes the file.
func excluded(f *ast.File) bool {
	for _, g := range f.Comments {
		if g.Pos() > f.Package {
			break
		}
		for _, c := range g.List {
			if constraint.IsGoBuild(c.Text) {
				if e, err := constraint.Parse(c.Text); err == nil && !e.Eval(func(tag string) bool {
					return tag == "linux" || tag == "amd64" || tag == "unix" || tag == "purego" || strings.HasPrefix(tag, "go1.")
				}) {
					return true
				}
			}
		}
	}
	return false
}

// overlayFile writes an overlay for the go command into dir.
func overlayFile(dir string, replace map[string]string, files map[string][]byte) (string, error) {
	for to, b := range files {
		p := filepath.Join(dir, filepath.Base(to))
		if err := os.WriteFile(p, b, 0o644); err != nil {
			return "", err
		}
		replace[to] = p
	}
	b, _ := json.Marshal(map[string]any{"Replace": replace})
	name := filepath.Join(dir, "overlay.json")
	return name, os.WriteFile(name, b, 0o644)
}
