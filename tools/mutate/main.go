// mutate lists small changes to Go source files: mutate FILE... prints one JSON object per line.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
)

type mutant struct {
	File, Func, Kind string
	Line             int
	From, To         int
	New              string
}

var swaps = map[token.Token][]string{
	token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
	token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"}, token.AND: {"|"}, token.OR: {"&"},
}

func main() {
	for _, name := range os.Args[1:] {
		fs := token.NewFileSet()
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		f, err := parser.ParseFile(fs, name, src, 0)
		if err != nil {
			panic(err)
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			fn := "var"
			if ok {
				fn = fd.Name.Name
				if fd.Recv != nil {
					fn = "recv." + fn
				}
			}
			off := func(p token.Pos) int { return fs.Position(p).Offset }
			emit := func(kind string, from, to token.Pos, s string) {
				b, _ := json.Marshal(mutant{name, fn, kind, fs.Position(from).Line, off(from), off(to), s})
				fmt.Println(string(b))
			}
			text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
			stmts := func(list []ast.Stmt) {
				for _, s := range list {
					switch x := s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt:
						emit("drop", s.Pos(), s.End(), "")
					case *ast.AssignStmt:
						if x.Tok != token.DEFINE {
							blank := ""
							for _, r := range x.Rhs {
								blank += "; _ = " + text(r)
							}
							if len(x.Rhs) == 1 && len(x.Lhs) == 1 {
								emit("drop", s.Pos(), s.End(), blank[2:])
							}
						}
					case *ast.BranchStmt:
						if x.Tok == token.BREAK {
							emit("branch", s.Pos(), s.End(), "continue")
						} else if x.Tok == token.CONTINUE {
							emit("branch", s.Pos(), s.End(), "break")
						}
					}
				}
			}
			ast.Inspect(d, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					for _, s := range swaps[x.Op] {
						emit("op", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s)
					}
				case *ast.IfStmt:
					emit("cond", x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")")
					emit("cond", x.Cond.Pos(), x.Cond.End(), "true || ("+text(x.Cond)+")")
				case *ast.BasicLit:
					if x.Kind == token.INT {
						emit("const", x.Pos(), x.End(), text(x)+"+1")
						if text(x) != "0" {
							emit("const", x.Pos(), x.End(), "0")
						}
					}
				case *ast.BlockStmt:
					stmts(x.List)
				case *ast.CaseClause:
					stmts(x.Body)
				case *ast.UnaryExpr:
					if x.Op == token.NOT {
						emit("not", x.Pos(), x.X.Pos(), "")
					}
				case *ast.SliceExpr:
					if x.Low != nil {
						emit("slice", x.Low.Pos(), x.Low.End(), text(x.Low)+"+1")
					}
				case *ast.Ident:
					switch x.Name {
					case "true":
						emit("const", x.Pos(), x.End(), "false")
					case "false":
						emit("const", x.Pos(), x.End(), "true")
					case "STRICT":
						emit("mode", x.Pos(), x.End(), "EQUAL")
					case "EQUAL":
						emit("mode", x.Pos(), x.End(), "EQUALP")
					case "Null":
						emit("const", x.Pos(), x.End(), "True")
					}
				case *ast.CallExpr:
					if len(x.Args) == 2 {
						emit("args", x.Args[0].Pos(), x.Args[1].End(), text(x.Args[1])+", "+text(x.Args[0]))
					}
				}
				return true
			})
		}
	}
}
