// automut lists systematic one-place mutations of Go files: automut FILE... prints one JSON object per line.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File  string `json:"file"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	New   string `json:"new"`
	Desc  string `json:"desc"`
	Line  int    `json:"line"`
}

var swap = map[token.Token]string{
	token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.EQL: "!=", token.NEQ: "==",
	token.ADD: "-", token.SUB: "+", token.MUL: "/", token.QUO: "*", token.LAND: "||", token.LOR: "&&", token.REM: "*",
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		tree, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		emit := func(a, b token.Pos, n, d string) {
			enc.Encode(mut{f, off(a), off(b), n, d, fs.Position(a).Line})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		skipCall := func(s string) bool {
			for _, w := range []string{"log", "Log", "Printf", "Println", "Errorf", "errors"} {
				for i := 0; i+len(w) <= len(s); i++ {
					if s[i:i+len(w)] == w {
						return true
					}
				}
			}
			return false
		}
		ast.Inspect(tree, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					return false
				}
			case *ast.BinaryExpr:
				if s, ok := swap[x.Op]; ok {
					if t := text(x.X); len(t) > 0 && t[0] == '"' {
						return true
					}
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, x.Op.String()+" -> "+s)
				}
			case *ast.IfStmt:
				if skipCall(text(x.Cond)) {
					return true
				}
				emit(x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")", "if false")
				emit(x.Cond.Pos(), x.Cond.End(), "true || ("+text(x.Cond)+")", "if true")
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						emit(x.Pos(), x.End(), fmt.Sprint(v+1), fmt.Sprintf("%d -> %d", v, v+1))
						if v > 1 {
							emit(x.Pos(), x.End(), fmt.Sprint(v-1), fmt.Sprintf("%d -> %d", v, v-1))
						}
					}
				} else if x.Kind == token.FLOAT {
					emit(x.Pos(), x.End(), x.Value+"*1.07", x.Value+" * 1.07")
				}
			case *ast.BranchStmt:
				if x.Tok == token.CONTINUE && x.Label == nil {
					emit(x.Pos(), x.End(), "break", "continue -> break")
				} else if x.Tok == token.BREAK && x.Label == nil {
					emit(x.Pos(), x.End(), "if true { break }; _ = 0", "noop")
				}
			case *ast.ExprStmt:
				if _, ok := x.X.(*ast.CallExpr); ok && !skipCall(text(x)) {
					emit(x.Pos(), x.End(), "_ = 0", "delete: "+text(x))
				}
			case *ast.IncDecStmt:
				emit(x.Pos(), x.End(), "_ = 0", "delete: "+text(x))
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE && len(x.Lhs) == 1 {
					emit(x.Pos(), x.End(), "if false { "+text(x)+" }", "delete: "+text(x))
					if x.Tok == token.ADD_ASSIGN {
						emit(x.TokPos, x.TokPos+2, "-=", "+= -> -=")
					}
				}
			case *ast.DeferStmt:
				emit(x.Pos(), x.End(), "_ = 0", "delete: "+text(x))
			case *ast.CallExpr:
				// swap two neighbouring arguments of the same form
				for i := 0; i+1 < len(x.Args); i++ {
					a, b := text(x.Args[i]), text(x.Args[i+1])
					if a != b && !skipCall(text(x.Fun)) {
						emit(x.Args[i].Pos(), x.Args[i+1].End(), b+", "+a, "swap arguments "+a+", "+b)
					}
				}
			case *ast.UnaryExpr:
				if x.Op == token.SUB || x.Op == token.NOT {
					emit(x.Pos(), x.Pos()+1, " ", "drop "+x.Op.String())
				}
			case *ast.SliceExpr:
				if x.Low != nil {
					emit(x.Low.Pos(), x.Low.End(), text(x.Low)+"+1", "slice low+1")
				}
				if x.High != nil {
					emit(x.High.Pos(), x.High.End(), text(x.High)+"-1", "slice high-1")
				}
			case *ast.RangeStmt:
				emit(x.X.Pos(), x.X.End(), text(x.X)+"[:len("+text(x.X)+")/2]", "range over the first half")
			}
			return true
		})
	}
}
