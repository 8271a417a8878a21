// mutate lists the mutants of a Go source file, one JSON object {"line","op","from","to","start","end"} per line.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

func main() {
	for _, path := range os.Args[1:] {
		src, err := os.ReadFile(path)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, path, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		enc := json.NewEncoder(os.Stdout)
		emit := func(op string, a, b token.Pos, to string) {
			from := string(src[off(a):off(b)])
			if from == to {
				return
			}
			enc.Encode(map[string]any{"file": path, "line": fs.Position(a).Line, "op": op, "from": from, "to": to, "start": off(a), "end": off(b)})
		}
		swap := map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
			token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"}}
		isLog := func(n ast.Node) bool { return bytes.Contains([]byte(text(n)), []byte("glog.")) }
		var list func(ss []ast.Stmt)
		list = func(ss []ast.Stmt) {
			for _, s := range ss {
				switch x := s.(type) {
				case *ast.ExprStmt:
					if !isLog(x) {
						emit("delete", x.Pos(), x.End(), "_ = 0")
					}
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						emit("delete", x.Pos(), x.End(), "_ = 0")
					} else if len(x.Lhs) == 1 {
						if _, ok := x.Rhs[0].(*ast.CallExpr); ok {
						}
					}
				case *ast.BranchStmt:
					emit("delete", x.Pos(), x.End(), "_ = 0")
				case *ast.IncDecStmt:
					emit("delete", x.Pos(), x.End(), "_ = 0")
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BlockStmt:
				list(x.List)
			case *ast.CaseClause:
				list(x.Body)
			case *ast.BinaryExpr:
				for _, to := range swap[x.Op] {
					emit("binop", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), to)
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					emit("operand", x.Pos(), x.End(), "("+text(x.X)+")")
					emit("operand", x.Pos(), x.End(), "("+text(x.Y)+")")
				}
				if x.Op == token.ADD || x.Op == token.SUB {
					emit("operand", x.Pos(), x.End(), "("+text(x.X)+")")
				}
			case *ast.IfStmt:
				emit("if", x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")")
				emit("if", x.Cond.Pos(), x.Cond.End(), "true || ("+text(x.Cond)+")")
				if x.Else != nil {
					if b, ok := x.Else.(*ast.BlockStmt); ok {
						emit("else", b.Pos(), b.End(), "{}")
					}
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					v, err := strconv.ParseInt(x.Value, 0, 64)
					if err == nil {
						emit("int", x.Pos(), x.End(), fmt.Sprint(v+1))
						if v > 0 {
							emit("int", x.Pos(), x.End(), fmt.Sprint(v-1))
						}
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit("bool", x.Pos(), x.End(), "false")
				} else if x.Name == "false" {
					emit("bool", x.Pos(), x.End(), "true")
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					emit("not", x.Pos(), x.End(), text(x.X))
				}
			case *ast.SliceExpr:
				if x.Low != nil && x.High == nil {
					emit("slice", x.Pos(), x.End(), text(x.X)+"[:len("+text(x.X)+")-("+text(x.Low)+")]")
				}
				emit("slice", x.Pos(), x.End(), text(x.X))
			case *ast.CallExpr:
				if s, ok := x.Fun.(*ast.SelectorExpr); ok && len(x.Args) == 0 {
					// Drop the call of a method that returns the receiver's type (Clone, Next).
					emit("uncall", x.Pos(), x.End(), text(s.X))
				}
				if isLog(x) {
					return false
				}
				for i := 0; i+1 < len(x.Args); i++ {
					emit("swap", x.Args[i].Pos(), x.Args[i+1].End(), text(x.Args[i+1])+string(src[off(x.Args[i].End()):off(x.Args[i+1].Pos())])+text(x.Args[i]))
				}
				if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "append" && len(x.Args) == 2 {
					emit("append", x.Pos(), x.End(), text(x.Args[0]))
				}
			case *ast.KeyValueExpr:
				if _, ok := x.Value.(*ast.BasicLit); !ok && x.Key != nil {
					if _, ok := x.Key.(*ast.Ident); ok {
						end := off(x.End())
						for end < len(src) && src[end] != ',' && src[end] != '}' {
							end++
						}
						if end < len(src) && src[end] == ',' {
							from := string(src[off(x.Pos()) : end+1])
							enc.Encode(map[string]any{"file": path, "line": fs.Position(x.Pos()).Line, "op": "field", "from": from, "to": "", "start": off(x.Pos()), "end": end + 1})
						}
					}
				}
			}
			return true
		})
	}
}
