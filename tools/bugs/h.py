# Eighth batch: what changes between two uses of the same thing, sizes beyond
# the usual, escapes and prefixes that are stacked.
from importlib import util as _u
import os as _o
_s = _u.spec_from_file_location('b', _o.path.join(_o.path.dirname(__file__), 'b.py'))
_m = _u.module_from_spec(_s)
_s.loader.exec_module(_m)
PARSE = _m.PARSE

BUGS = [
 dict(id='options-snapshot', property='C08',
  needs='a printer whose indent overrides are changed between two prints',
  breaks='the first overrides stay in effect',
  edits=[('format/format.go', '''	p.indentStyles = make(map[string]IndentStyle)
	for k, v := range defaultIndents {
		p.indentStyles[k] = v
	}
	for k, v := range p.IndentOverrides {
		p.indentStyles[k] = v
	}
''', '''	if p.indentStyles == nil {
		p.indentStyles = make(map[string]IndentStyle)
		for k, v := range defaultIndents {
			p.indentStyles[k] = v
		}
		for k, v := range p.IndentOverrides {
			p.indentStyles[k] = v
		}
	}
''')],
  demo='gorun <<\'G\'\n' + PARSE.replace('"strings"', '"bytes"\n\t"strings"').replace('goclj/parse"', 'goclj/parse"\n\t"github.com/cespare/goclj/format"') + r'''
func main() {
	var b bytes.Buffer
	p := format.NewPrinter(&b)
	for _, s := range []format.IndentStyle{format.IndentListBody, format.IndentCond0} {
		b.Reset()
		p.IndentOverrides = map[string]format.IndentStyle{"f": s}
		if err := p.PrintTree(read("(f\na\nb)", 7&1)); err != nil {
			fail(err)
		}
	}
	if b.String() != "(f\n  a\n    b)" {
		fail(b.String())
	}
}
G
'''),
 dict(id='alias-comment', property='C17',
  needs='a comment or line break between :as and the alias',
  breaks='overrides do not apply through the alias',
  edits=[('format/require.go', '''	semNodes := semanticNodes(nodes)
	if len(semNodes)%2 != 1 || !goclj.Symbol(semNodes[0]) {
		return
	}
	name := semNodes[0].(*parse.SymbolNode).Val
''', '''	semNodes := semanticNodes(nodes)
	if len(semNodes)%2 != 1 || !goclj.Symbol(semNodes[0]) {
		return
	}
	for i, n := range nodes[:len(nodes)-1] {
		if isKeywordNode(n, ":as") && goclj.Comment(nodes[i+1]) {
			return
		}
	}
	name := semNodes[0].(*parse.SymbolNode).Val
''')],
  demo=r'''printf '{:indent-overrides ["x/f" :list-body]}' >"$work/c"
check '(ns n\n  (:require\n    [x :as ;c\n     a]))\n(a/f b\nc)' '(ns n\n  (:require\n    [x :as ;c\n     a]))\n(a/f b\n  c)' -c "$work/c"
'''),
 dict(id='dedupe-args', property='C28',
  needs='a file that is given twice',
  breaks='the second one is skipped',
  edits=[('cljfmt/cljfmt.go', '''	for _, path := range flag.Args() {
		stat, err''', '''	seen := make(map[string]bool)
	for _, path := range flag.Args() {
		if seen[filepath.Clean(path)] {
			continue
		}
		seen[filepath.Clean(path)] = true
		stat, err''')],
  demo=r'''printf '(a)\n' >"$work/a.clj"
[ "$(fmt "$work/a.clj" "$work/a.clj" | wc -l)" = 2 ] || exit 1
'''),
 dict(id='readonly-skip', property='C29',
  needs='a file in a directory that nobody may write to',
  breaks='it is passed over with -w, even if it can be written to (by root)',
  edits=[('cljfmt/cljfmt.go', '''		if strings.HasPrefix(name, ".") {
			return nil
		}
		if _, ok''', '''		if strings.HasPrefix(name, ".") {
			return nil
		}
		if c.write && f.Mode().IsRegular() && f.Mode()&0222 == 0 {
			return nil
		}
		if _, ok''')],
  demo=r'''mkdir "$work/d"; printf '( a)\n' >"$work/d/a.clj"; chmod 444 "$work/d/a.clj"
fmt -w "$work/d"; [ $? = 0 ] || exit 0
[ "$(cat "$work/d/a.clj")" = "(a)" ] || exit 1
'''),
 dict(id='skip-large', property='C29',
  needs='a file of more than 1 MB in a directory',
  breaks='it is taken for generated data and passed over',
  edits=[('cljfmt/cljfmt.go', '''		if strings.HasPrefix(name, ".") {
			return nil
		}
		if _, ok''', '''		if strings.HasPrefix(name, ".") || f.Size() > 1<<20 {
			return nil
		}
		if _, ok''')],
  demo=r'''mkdir "$work/d"; yes '( a)' | head -c 1500000 | head -n -1 >"$work/d/a.clj"
[ "$(fmt -l "$work/d")" = "$work/d/a.clj" ] || exit 1
'''),
 dict(id='file-stat-size', property='C06',
  needs='a file whose size is not known in advance (a pipe, /proc)',
  breaks='it is taken to be empty',
  edits=[('parse/parse.go', '''	defer f.Close()
	return Reader(f, filename, opts)''', '''	defer f.Close()
	stat, err := f.Stat()
	if err != nil {
		return nil, err
	}
	// Don't read what is appended in the meantime.
	return Reader(io.LimitReader(f, stat.Size()), filename, opts)''')],
  demo='gorun <<\'G\'\n' + PARSE.replace('"strings"', '"strings"\n\t"syscall"') + r'''
func main() {
	if err := syscall.Mkfifo("fifo", 0600); err != nil {
		fail(err)
	}
	go func() {
		f, _ := os.OpenFile("fifo", os.O_WRONLY, 0)
		f.WriteString("(a b)")
		f.Close()
	}()
	t, err := parse.File("fifo", 0)
	if err != nil || len(t.Roots) != 1 {
		fail(t, err)
	}
	_ = read
	_ = strings.NewReader
}
G
'''),
 dict(id='even-backslashes', property='C19',
  needs='a docstring line that ends in two backslashes and a blank',
  breaks='the blank stays',
  edits=[('format/docstring.go', '''		line = trimBlanks(line)
''', '''		if rest := strings.TrimRight(line, " "); strings.HasSuffix(rest, `\\\\`) {
			line = strings.TrimLeft(line, " ") // don't touch escapes
		} else {
			line = trimBlanks(line)
		}
''')],
  demo=r'''printf '(defn f "a\n  b \\\\\\\\ \n  c" x)' >"$work/in"
[ "$(fmt <"$work/in")" = "$(printf '(defn f "a\n        b \\\\\\\\\n        c" x)')" ] || exit 1
'''),
 dict(id='lower-class', property='C20',
  needs='an import of a class whose name starts with a lower-case letter',
  breaks='it is not split',
  edits=[('format/transform.go', '''			if j < 0 || !isName(n.Val[:j]) || !isName(n.Val[j+1:]) {
				break
			}''', '''			if j < 0 || !isName(n.Val[:j]) || !isName(n.Val[j+1:]) {
				break
			}
			if r, _ := utf8.DecodeRuneInString(n.Val[j+1:]); unicode.IsLower(r) {
				break // a package
			}''')],
  demo=r'''check '(ns a\n  (:import\n    b.c))' '(ns a\n  (:import\n    (b c)))'
'''),
 dict(id='load-newline', property='C20',
  needs='a :load clause on one line',
  breaks='no line break is added',
  edits=[('format/transform.go', '''"use", "import", "load", "gen-class":''', '''"use", "import", "gen-class":'''),
   ('format/transform.go', '''	case "refer-clojure":''', '''	case "refer-clojure", "load":''')],
  demo=r'''check '(ns a\n  (:load "b"))' '(ns a\n  (:load\n    "b"))'
'''),
 dict(id='arm-prefix-one', property='C22',
  needs='an arm of an if with two pieces of metadata',
  breaks='the line break comes between them',
  edits=[('format/transform.go', '''	for isPrefix(nodes[arm1-1]) {
		arm1--
	}''', '''	if isPrefix(nodes[arm1-1]) {
		arm1--
	}''')],
  demo=r'''check '(if a\n  b ^c ^d e)' '(if a\n  b\n  ^c ^d e)'
'''),
 dict(id='config-dash', property='C27',
  needs='-c with a file whose name starts with a tilde',
  breaks='it is looked for in the home directory',
  edits=[('cljfmt/cljfmt.go', '''func (pf *pathFlag) Set(v string) error {
	pf.p = v
''', '''func (pf *pathFlag) Set(v string) error {
	if strings.HasPrefix(v, "~") {
		v = os.Getenv("HOME") + v[1:]
	}
	pf.p = v
''')],
  demo=r'''cd "$work"; printf '{:indent-overrides ["f" :list-body]}' >"~c"
check '(f a\nb)' '(f a\n  b)' -c '~c'
'''),
 dict(id='backup-big', property='C30',
  needs='a file of more than 1 MB, and a write that is interrupted',
  breaks='there is no backup',
  edits=[('cljfmt/cljfmt.go', '''			backup, err := writeBackup(filename, buf1.Bytes(), perm)
			if err != nil {
				return err
			}
			if err''', '''			if buf1.Len() > 1<<20 { // don't double the use of the disk
				return ioutil.WriteFile(filename, buf2.Bytes(), perm)
			}
			backup, err := writeBackup(filename, buf1.Bytes(), perm)
			if err != nil {
				return err
			}
			if err''')],
  demo=r'''yes '( a)' | head -c 1500000 | head -n -1 >"$work/a.clj"
before=$(md5sum <"$work/a.clj")
(ulimit -f 400; trap '' XFSZ; fmt -w "$work/a.clj" 2>/dev/null)
[ "$(md5sum <"$work/a.clj")" = "$before" ] || cat "$work"/.a.clj.* 2>/dev/null | md5sum | grep -q "${before%% *}" || exit 1
'''),
 dict(id='list-quote', property='C28',
  needs='-l and a file with a blank in its name',
  breaks='the name is quoted',
  edits=[('cljfmt/cljfmt.go', '''			if _, err := fmt.Println(filename); err != nil {
				return err
			}''', '''			name := filename
			if strings.IndexByte(name, ' ') >= 0 {
				name = fmt.Sprintf("%q", name)
			}
			if _, err := fmt.Println(name); err != nil {
				return err
			}''')],
  demo=r'''printf '( a)\n' >"$work/a b.clj"
[ "$(fmt -l "$work/a b.clj")" = "$work/a b.clj" ] || exit 1
'''),
 dict(id='sort-class-only', property='C21',
  needs='imports of bare classes in several packages with style rules off',
  breaks='classes are compared without their packages',
  edits=[('format/transform.go', '''	case *parse.SymbolNode:
		return n.Val, true
	case *parse.ListNode, *parse.VectorNode:
		children := n.Children()
		if len(children) == 0 {''', '''	case *parse.SymbolNode:
		if i := strings.LastIndexByte(n.Val, '.'); i > 0 && unicode.IsUpper(rune(n.Val[len(n.Val)-1])) {
			return n.Val[:i], true // the package
		}
		return n.Val, true
	case *parse.ListNode, *parse.VectorNode:
		children := n.Children()
		if len(children) == 0 {''')],
  demo=r'''check '(ns a\n  (:import\n    a.B\n    a.A))' '(ns a\n  (:import\n    a.A\n    a.B))' -disable-transform enforce-ns-style
'''),
]
