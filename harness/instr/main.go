// Command instr writes copies of goclj's packages with a scheduling point
// before every statement and with ranges over maps whose order can be chosen,
// and a build overlay that puts them in place.
//
// instr REPO SCHEDDIR OUT
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const module = "github.com/cespare/goclj"

var (
	fset    = token.NewFileSet()
	pkgs    = map[string]*types.Package{}
	std     = importer.ForCompiler(fset, "source", nil)
	overlay = map[string]string{}
	out     string
)

type imp struct{}

func (imp) Import(path string) (*types.Package, error) {
	if p := pkgs[path]; p != nil {
		return p, nil
	}
	return std.Import(path)
}

func fatal(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

func write(name, to string, data []byte) {
	to = filepath.Join(out, to)
	fatal(os.WriteFile(to, data, 0644))
	overlay[name] = to
}

func main() {
	repo, sched := os.Args[1], os.Args[2]
	out = os.Args[3]
	files, _ := filepath.Glob(filepath.Join(sched, "*.go"))
	for _, f := range files {
		overlay[filepath.Join(repo, "verifsched", filepath.Base(f))] = f
	}
	// Ranges over functions need a newer language version.
	write(filepath.Join(repo, "go.mod"), "go.mod", []byte("module "+module+"\n\ngo 1.23\n"))
	for _, dir := range []string{"parse", ".", "format"} {
		pkg(repo, dir)
	}
	data, _ := json.Marshal(map[string]interface{}{"Replace": overlay})
	fatal(os.WriteFile(filepath.Join(out, "overlay.json"), data, 0644))
}

func pkg(repo, dir string) {
	names, _ := filepath.Glob(filepath.Join(repo, dir, "*.go"))
	var files []*ast.File
	src := map[*ast.File][]byte{}
	name := map[*ast.File]string{}
	for _, n := range names {
		if strings.HasSuffix(n, "_test.go") {
			continue
		}
		data, err := os.ReadFile(n)
		fatal(err)
		f, err := parser.ParseFile(fset, n, data, parser.ParseComments)
		fatal(err)
		files = append(files, f)
		src[f], name[f] = data, n
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
	path := strings.TrimSuffix(module+"/"+dir, "/.")
	conf := types.Config{Importer: imp{}}
	p, err := conf.Check(path, fset, files, info)
	fatal(err)
	pkgs[path] = p
	for _, f := range files {
		write(name[f], strings.ReplaceAll(dir, ".", "root")+"_"+filepath.Base(name[f]), instrument(f, src[f], info))
	}
}

type insert struct {
	at, prio int
	text     string
}

func instrument(f *ast.File, src []byte, info *types.Info) []byte {
	var ins []insert
	offset := func(p token.Pos) int { return fset.Position(p).Offset }
	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			if _, ok := s.(*ast.EmptyStmt); !ok {
				ins = append(ins, insert{offset(s.Pos()), 0, "verifsched.P(); "})
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			if len(n.List) > 0 {
				switch n.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			stmts(n.List)
		case *ast.CaseClause:
			stmts(n.Body)
		case *ast.CommClause:
			stmts(n.Body)
		case *ast.RangeStmt:
			t := info.Types[n.X].Type
			if t == nil || n.Key == nil {
				return true
			}
			if _, ok := t.Underlying().(*types.Map); !ok {
				return true
			}
			fn := "verifsched.Seq1("
			if n.Value != nil {
				fn = "verifsched.Seq2("
			}
			ins = append(ins, insert{offset(n.X.Pos()), 1, fn}, insert{offset(n.X.End()), -1, ")"})
		}
		return true
	})
	if len(ins) == 0 {
		return src
	}
	ins = append(ins, insert{offset(f.Name.End()), 0, "; import \"" + module + "/verifsched\""})
	sort.SliceStable(ins, func(i, j int) bool {
		if ins[i].at != ins[j].at {
			return ins[i].at < ins[j].at
		}
		return ins[i].prio < ins[j].prio
	})
	var to []byte
	pos := 0
	for _, in := range ins {
		to = append(to, src[pos:in.at]...)
		to = append(to, in.text...)
		pos = in.at
	}
	return append(to, src[pos:]...)
}
