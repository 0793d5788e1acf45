// Command refactor rewrites the functions of a package of goclj without
// changing what they do, to see that the checks stay quiet: conditions are
// inverted, ranges over slices become counting loops, bodies move to helpers,
// results go through variables, and tagless switches become chains of ifs.
// Development tool; it is only run on scratch copies.
//
//	refactor KINDS DIR...
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type edit struct {
	from, to int
	text     string
}

func main() {
	kinds := os.Args[1]
	for _, dir := range os.Args[2:] {
		do(kinds, dir)
	}
}

func do(kinds, dir string) {
	fset := token.NewFileSet()
	var files []*ast.File
	var names []string
	m, _ := filepath.Glob(dir + "/*.go")
	for _, f := range m {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		a, err := parser.ParseFile(fset, f, nil, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		files, names = append(files, a), append(names, f)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: importer.ForCompiler(fset, "source", nil), Error: func(err error) { fmt.Fprintln(os.Stderr, err) }}
	conf.Check(dir, fset, files, info)
	for i, f := range files {
		src, _ := os.ReadFile(names[i])
		var edits []edit
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		n := 0
		overlap := func(a, b int) bool {
			for _, e := range edits {
				if a < e.to && e.from < b {
					return true
				}
			}
			return false
		}
		add := func(node ast.Node, s string) {
			a, b := off(node.Pos()), off(node.End())
			if !overlap(a, b) {
				edits = append(edits, edit{a, b, s})
				n++
			}
		}
		var decls string
		// Innermost constructs first, so that several passes are needed for
		// nested ones.
		var nodes []ast.Node
		inits := map[ast.Node]bool{} // statements that can't be replaced by blocks
		ast.Inspect(f, func(x ast.Node) bool {
			if x != nil {
				nodes = append(nodes, x)
			}
			switch x := x.(type) {
			case *ast.LabeledStmt:
				inits[x.Stmt] = true
			case *ast.IfStmt:
				inits[x.Else] = true
			}
			return true
		})
		for j := len(nodes) - 1; j >= 0; j-- {
			switch x := nodes[j].(type) {
			case *ast.IfStmt:
				if strings.Contains(kinds, "i") && x.Init == nil && !inits[x] {
					if els, ok := x.Else.(*ast.BlockStmt); ok {
						add(x, "if !("+text(x.Cond)+") "+text(els)+" else "+text(x.Body))
					} else if x.Else == nil && len(x.Body.List) > 0 {
						// if c { A } with an empty then.
						if !hasJump(x.Body) {
							add(x, "if !("+text(x.Cond)+") {\n} else "+text(x.Body))
						}
					}
				}
			case *ast.RangeStmt:
				if !strings.Contains(kinds, "r") || inits[x] || x.Tok != token.DEFINE {
					continue
				}
				if _, ok := info.Types[x.X].Type.Underlying().(*types.Slice); !ok {
					continue
				}
				if hasContinue(x.Body) {
					continue
				}
				k := fmt.Sprintf("idx%d", n)
				body := text(x.Body)
				pre := ""
				if x.Value != nil {
					pre += text(x.Value) + " := list" + k + "[" + k + "]\n"
				}
				if x.Key != nil && text(x.Key) != "_" {
					pre += text(x.Key) + " := " + k + "\n"
				}
				if hasBreakOrGoto(x.Body) {
					add(x, "list"+k+" := "+text(x.X)+"\nfor "+k+" := 0; "+k+" < len(list"+k+"); "+k+"++ {\n"+pre+body[1:])
				} else {
					add(x, "list"+k+" := "+text(x.X)+"\nfor "+k+" := 0; "+k+" < len(list"+k+"); "+k+"++ {\n"+pre+body[1:])
				}
			case *ast.ReturnStmt:
				if !strings.Contains(kinds, "t") || len(x.Results) != 1 {
					continue
				}
				if _, ok := x.Results[0].(*ast.CallExpr); !ok {
					continue
				}
				tv := info.Types[x.Results[0]]
				if _, ok := tv.Type.(*types.Tuple); ok || tv.Type == nil {
					continue
				}
				if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
					continue
				}
				add(x, fmt.Sprintf("res%d := %s\nreturn res%d", n, text(x.Results[0]), n))
			case *ast.SwitchStmt:
				if !strings.Contains(kinds, "s") || inits[x] || x.Tag != nil || x.Init != nil || hasBreakOrGoto(x.Body) || strings.Contains(text(x), "fallthrough") {
					continue
				}
				var b strings.Builder
				var def *ast.CaseClause
				for _, c := range x.Body.List {
					c := c.(*ast.CaseClause)
					if c.List == nil {
						def = c
						continue
					}
					if b.Len() > 0 {
						b.WriteString(" else ")
					}
					var conds []string
					for _, e := range c.List {
						conds = append(conds, "("+text(e)+")")
					}
					b.WriteString("if " + strings.Join(conds, " || ") + " {\n")
					for _, s := range c.Body {
						b.WriteString(text(s) + "\n")
					}
					b.WriteString("}")
				}
				if b.Len() == 0 {
					continue
				}
				if def != nil {
					b.WriteString(" else {\n")
					for _, s := range def.Body {
						b.WriteString(text(s) + "\n")
					}
					b.WriteString("}")
				}
				add(x, b.String())
			case *ast.AssignStmt:
				if strings.Contains(kinds, "v") && x.Tok == token.DEFINE && len(x.Lhs) == 1 && len(x.Rhs) == 1 {
					if parentIsBlock(f, x) {
						add(x, "var "+text(x.Lhs[0])+" = "+text(x.Rhs[0]))
					}
				}
			case *ast.FuncDecl:
				if !strings.Contains(kinds, "f") || x.Body == nil || x.Name.Name == "init" || x.Name.Name == "main" {
					continue
				}
				if x.Type.Results != nil && len(x.Type.Results.List) > 0 && len(x.Type.Results.List[0].Names) > 0 || strings.Contains(text(x.Body), "recover()") {
					continue
				}
				ok := true
				var args []string
				for _, p := range x.Type.Params.List {
					if len(p.Names) == 0 {
						ok = false
					}
					for _, nm := range p.Names {
						if nm.Name == "_" {
							ok = false
						}
						a := nm.Name
						if _, v := p.Type.(*ast.Ellipsis); v {
							a += "..."
						}
						args = append(args, a)
					}
				}
				if x.Recv != nil && len(x.Recv.List[0].Names) == 0 {
					ok = false
				}
				if !ok {
					continue
				}
				call := x.Name.Name + "Impl(" + strings.Join(args, ", ") + ")"
				if x.Recv != nil {
					call = x.Recv.List[0].Names[0].Name + "." + call
				}
				if x.Type.Results != nil && len(x.Type.Results.List) > 0 {
					call = "return " + call
				}
				head := string(src[off(x.Pos()):off(x.Body.Pos())])
				nm := off(x.Name.Pos()) - off(x.Pos())
				if x.Doc != nil {
					// head starts at the comment? Pos is that of func.
				}
				h2 := head[:nm] + x.Name.Name + "Impl" + head[nm+len(x.Name.Name):]
				add(x.Body, "{\n"+call+"\n}")
				decls += "\n" + h2 + text(x.Body) + "\n"
			}
		}
		sort.Slice(edits, func(a, b int) bool { return edits[a].from > edits[b].from })
		out := append([]byte(nil), src...)
		for _, e := range edits {
			out = append(out[:e.from:e.from], append([]byte(e.text), out[e.to:]...)...)
		}
		out = append(out, decls...)
		if g, err := format.Source(out); err == nil {
			out = g
		} else {
			fmt.Fprintln(os.Stderr, names[i], err)
		}
		if !bytes.Equal(out, src) {
			os.WriteFile(names[i], out, 0o644)
		}
		fmt.Println(names[i], n)
	}
}

func hasJump(b *ast.BlockStmt) bool { return false }

// hasContinue reports whether b has a continue (a counting loop would be fine
// with it, but labels are left alone).
func hasContinue(b *ast.BlockStmt) bool {
	r := false
	ast.Inspect(b, func(x ast.Node) bool {
		if s, ok := x.(*ast.BranchStmt); ok && s.Label != nil {
			r = true
		}
		return true
	})
	return r
}

func hasBreakOrGoto(b *ast.BlockStmt) bool {
	r := false
	ast.Inspect(b, func(x ast.Node) bool {
		if s, ok := x.(*ast.BranchStmt); ok && s.Tok != token.CONTINUE {
			r = true
		}
		return true
	})
	return r
}

func parentIsBlock(f *ast.File, s ast.Stmt) bool {
	r := false
	ast.Inspect(f, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.BlockStmt:
			for _, y := range x.List {
				r = r || y == s
			}
		case *ast.CaseClause:
			for _, y := range x.Body {
				r = r || y == s
			}
		}
		return true
	})
	return r
}
