// Program mutate lists small changes of Go source files, one JSON object per line.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File string `json:"file"`
	From int    `json:"from"`
	To   int    `json:"to"`
	New  string `json:"new"`
	What string `json:"what"`
	Line int    `json:"line"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		file, err := parser.ParseFile(fset, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(n ast.Node, repl, what string) {
			_ = enc.Encode(mutant{f, off(n.Pos()), off(n.End()), repl, what, fset.Position(n.Pos()).Line})
		}
		for _, d := range file.Decls {
			if g, ok := d.(*ast.GenDecl); ok && (g.Tok == token.IMPORT || g.Tok == token.TYPE) {
				continue
			}
			ast.Inspect(d, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.IfStmt:
					emit(x.Cond, "!("+text(x.Cond)+")", "negate")
					if _, simple := x.Cond.(*ast.BinaryExpr); simple || x.Init == nil {
						emit(x.Cond, "false && ("+text(x.Cond)+")", "never")
					} else {
						emit(x.Cond, "false && ("+text(x.Cond)+")", "never")
					}
				case *ast.BinaryExpr:
					swap := map[token.Token]string{token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.EQL: "!=", token.NEQ: "==",
						token.LAND: "||", token.LOR: "&&", token.ADD: "-", token.SUB: "+"}
					if s, ok := swap[x.Op]; ok {
						if b, isLit := x.X.(*ast.BasicLit); isLit && b.Kind == token.STRING {
							break
						}
						emit(x, text(x.X)+" "+s+" "+text(x.Y), "operator "+x.Op.String())
					}
					if x.Op == token.LAND || x.Op == token.LOR {
						emit(x, text(x.X), "left only")
						emit(x, text(x.Y), "right only")
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						if v, err := strconv.Atoi(x.Value); err == nil {
							emit(x, strconv.Itoa(v+1), "plus one")
							if v > 0 {
								emit(x, strconv.Itoa(v-1), "minus one")
							}
						}
					}
					if x.Kind == token.STRING && len(x.Value) > 2 {
						emit(x, strconv.Quote("zz"), "text")
					}
				case *ast.BlockStmt:
					for _, s := range x.List {
						switch y := s.(type) {
						case *ast.ExprStmt:
							emit(y, "", "delete call")
						case *ast.AssignStmt:
							if y.Tok != token.DEFINE {
								emit(y, "", "delete assignment")
							}
						case *ast.IncDecStmt:
							emit(y, "", "delete increment")
						case *ast.BranchStmt:
							if y.Label == nil {
								emit(y, "", "delete branch")
								if y.Tok == token.CONTINUE {
									emit(y, "break", "break for continue")
								}
							}
						case *ast.DeferStmt:
							emit(y, "", "delete defer")
						case *ast.ForStmt, *ast.RangeStmt:
							emit(y, "", "delete loop")
						}
					}
				case *ast.CaseClause:
					if len(x.Body) > 0 && len(x.List) > 0 {
						b := x.Body[0]
						_ = enc.Encode(mutant{f, off(b.Pos()), off(x.Body[len(x.Body)-1].End()), "", "empty case", fset.Position(x.Pos()).Line})
					}
				case *ast.ReturnStmt:
					for _, r := range x.Results {
						if id, ok := r.(*ast.Ident); ok {
							switch id.Name {
							case "true":
								emit(r, "false", "flip")
							case "false":
								emit(r, "true", "flip")
							case "err":
								emit(r, "nil", "no error")
							}
						}
						if c, ok := r.(*ast.CallExpr); ok && len(x.Results) > 0 && r == x.Results[len(x.Results)-1] {
							if fmt.Sprint(text(c.Fun)) == "fmt.Errorf" {
								emit(r, "nil", "no error")
							}
						}
					}
				}
				return true
			})
		}
	}
}
