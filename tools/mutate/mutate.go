// Mutate lists small changes to Go files, one JSON object per line. It is a
// tool for finding gaps in the checks; no check uses it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File       string
	Start, End int
	Repl, Desc string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(a, b token.Pos, repl string) {
			old := string(src[off(a):off(b)])
			if old == repl {
				return
			}
			enc.Encode(mutant{file, off(a), off(b), repl, fmt.Sprintf("%s:%d: %.60q -> %.60q", file, fset.Position(a).Line, old, repl)})
		}
		ops := map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.OR: {"&"}, token.AND: {"|"}}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BinaryExpr:
				for _, o := range ops[n.Op] {
					emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), o)
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					emit(n.Pos(), n.End(), text(n.X))
					emit(n.Pos(), n.End(), text(n.Y))
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT {
					emit(n.Pos(), n.End(), text(n.X))
				}
			case *ast.IfStmt:
				emit(n.Cond.Pos(), n.Cond.End(), "true || "+text(n.Cond))
				emit(n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")")
				if n.Else != nil {
					emit(n.Body.End(), n.Else.End(), "")
				}
			case *ast.ForStmt:
				if n.Cond != nil {
					emit(n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")")
				}
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.DeferStmt, *ast.GoStmt:
				emit(n.Pos(), n.End(), "")
			case *ast.AssignStmt:
				if n.Tok != token.DEFINE {
					if len(n.Lhs) == 1 {
						emit(n.Pos(), n.End(), "_ = "+text(n.Rhs[0]))
					} else {
						emit(n.Pos(), n.End(), "")
					}
				}
				switch n.Tok {
				case token.ADD_ASSIGN:
					emit(n.TokPos, n.TokPos+2, "=")
					emit(n.TokPos, n.TokPos+2, "-=")
				case token.SUB_ASSIGN:
					emit(n.TokPos, n.TokPos+2, "=")
				}
			case *ast.BranchStmt:
				if n.Label == nil {
					switch n.Tok {
					case token.BREAK:
						emit(n.Pos(), n.End(), "continue")
						emit(n.Pos(), n.End(), "")
					case token.CONTINUE:
						emit(n.Pos(), n.End(), "break")
						emit(n.Pos(), n.End(), "")
					case token.FALLTHROUGH:
						emit(n.Pos(), n.End(), "")
					}
				} else {
					emit(n.Pos(), n.End(), "")
				}
			case *ast.ReturnStmt:
				emit(n.Pos(), n.End(), "")
				for _, r := range n.Results {
					switch text(r) {
					case "true":
						emit(r.Pos(), r.End(), "false")
					case "false":
						emit(r.Pos(), r.End(), "true")
					case "nil":
					default:
						emit(r.Pos(), r.End(), "nil")
					}
				}
			case *ast.Ident:
				switch n.Name {
				case "true":
					emit(n.Pos(), n.End(), "false")
				case "false":
					emit(n.Pos(), n.End(), "true")
				}
			case *ast.BasicLit:
				switch n.Kind {
				case token.INT:
					if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
						emit(n.Pos(), n.End(), fmt.Sprint(v+1))
						emit(n.Pos(), n.End(), fmt.Sprint(v-1))
					}
				case token.STRING:
					if s, err := strconv.Unquote(n.Value); err == nil && s != "" {
						emit(n.Pos(), n.End(), strconv.Quote(s+"x"))
						if len(s) > 1 {
							emit(n.Pos(), n.End(), strconv.Quote(s[1:]))
							emit(n.Pos(), n.End(), strconv.Quote(s[:len(s)-1]))
						}
					}
				case token.CHAR:
					emit(n.Pos(), n.End(), "'\\x01'")
				}
			case *ast.CaseClause:
				for i, x := range n.List {
					if len(n.List) > 1 {
						if i+1 < len(n.List) {
							emit(x.Pos(), n.List[i+1].Pos(), "")
						} else {
							emit(n.List[i-1].End(), x.End(), "")
						}
					}
				}
				if len(n.List) > 0 {
					emit(n.Pos(), n.End(), "")
				}
				if len(n.Body) > 0 {
					emit(n.Body[0].Pos(), n.Body[len(n.Body)-1].End(), "")
				}
			case *ast.CompositeLit:
				if len(n.Elts) > 1 {
					for i, x := range n.Elts {
						if i+1 < len(n.Elts) {
							emit(x.Pos(), n.Elts[i+1].Pos(), "")
						} else {
							emit(n.Elts[i-1].End(), x.End(), "")
						}
					}
				}
			case *ast.SliceExpr:
				if n.Low != nil {
					emit(n.Low.Pos(), n.Low.End(), "")
				}
				if n.High != nil {
					emit(n.High.Pos(), n.High.End(), "")
				}
			case *ast.CallExpr:
				// the arguments swapped
				if len(n.Args) == 2 {
					emit(n.Args[0].Pos(), n.Args[1].End(), text(n.Args[1])+", "+text(n.Args[0]))
				}
			case *ast.BlockStmt:
				// two statements swapped
				for i := 0; i+1 < len(n.List); i++ {
					a, b := n.List[i], n.List[i+1]
					emit(a.Pos(), b.End(), text(b)+"\n"+text(a))
				}
			}
			return true
		})
	}
}
