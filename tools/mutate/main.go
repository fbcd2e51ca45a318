// mutate lists first-order mutants of Go files: one JSON object per line with
// file, byte range, replacement and operator. Development aid only.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File, Op, Old, New string
	Line, From, To     int
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, name := range os.Args[1:] {
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, name, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		emit := func(op string, a, b token.Pos, nw string) {
			enc.Encode(mut{name, op, string(src[off(a):off(b)]), nw, fs.Position(a).Line, off(a), off(b)})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		bin := map[token.Token][]string{
			token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
			token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"},
			token.OR: {"^", "&"},
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.Field:
				return false
			case *ast.BinaryExpr:
				for _, r := range bin[n.Op] {
					emit("op", n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), r)
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					emit("left", n.Pos(), n.End(), text(n.X))
					emit("right", n.Pos(), n.End(), text(n.Y))
				}
			case *ast.BasicLit:
				switch n.Kind {
				case token.INT:
					if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
						emit("int", n.Pos(), n.End(), fmt.Sprint(v+1))
						if v > 0 {
							emit("int", n.Pos(), n.End(), fmt.Sprint(v-1))
						}
					}
				case token.STRING:
					if s, err := strconv.Unquote(n.Value); err == nil {
						emit("string", n.Pos(), n.End(), strconv.Quote(s+"x"))
						if s != "" {
							emit("string", n.Pos(), n.End(), `""`)
						}
					}
				}
			case *ast.Ident:
				if n.Name == "true" {
					emit("bool", n.Pos(), n.End(), "false")
				} else if n.Name == "false" {
					emit("bool", n.Pos(), n.End(), "true")
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT {
					emit("not", n.Pos(), n.End(), text(n.X))
				}
			case *ast.IfStmt:
				emit("if", n.Cond.Pos(), n.Cond.End(), "true || "+text(n.Cond))
				emit("if", n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")")
			case *ast.ExprStmt:
				emit("del", n.Pos(), n.End(), "")
			case *ast.IncDecStmt:
				emit("del", n.Pos(), n.End(), "")
			case *ast.SendStmt:
				emit("del", n.Pos(), n.End(), "")
			case *ast.DeferStmt:
				emit("del", n.Pos(), n.End(), "")
				emit("undefer", n.Pos(), n.Call.Pos(), "")
			case *ast.GoStmt:
				emit("ungo", n.Pos(), n.Call.Pos(), "")
			case *ast.AssignStmt:
				if n.Tok != token.DEFINE {
					emit("del", n.Pos(), n.End(), "")
				}
				if n.Tok == token.ADD_ASSIGN {
					emit("op", n.TokPos, n.TokPos+2, "-=")
				}
			case *ast.BranchStmt:
				switch n.Tok {
				case token.CONTINUE:
					emit("branch", n.Pos(), n.End(), "break")
					emit("del", n.Pos(), n.End(), "")
				case token.BREAK:
					emit("branch", n.Pos(), n.End(), "continue")
					emit("del", n.Pos(), n.End(), "")
				}
			case *ast.ReturnStmt:
				for _, r := range n.Results {
					if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
						emit("noerr", r.Pos(), r.End(), "nil")
					}
				}
				if len(n.Results) == 0 {
					emit("del", n.Pos(), n.End(), "")
				}
			case *ast.CaseClause:
				if len(n.Body) > 0 {
					emit("case", n.Body[0].Pos(), n.Body[len(n.Body)-1].End(), "")
				}
			case *ast.CallExpr:
				for i := 0; i+1 < len(n.Args); i++ {
					emit("swap", n.Args[i].Pos(), n.Args[i+1].End(), text(n.Args[i+1])+", "+text(n.Args[i]))
				}
			case *ast.SliceExpr:
				if n.Low != nil && n.High == nil || n.High != nil && n.Low == nil {
					emit("slice", n.Pos(), n.End(), text(n.X))
				}
			}
			return true
		})
	}
}
