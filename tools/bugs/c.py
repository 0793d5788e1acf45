# Third batch: caches, limits and fast paths that a maintainer might add, and
# slips in places the first two batches left alone.
from importlib import util as _u
import os as _o
_s = _u.spec_from_file_location('b', _o.path.join(_o.path.dirname(__file__), 'b.py'))
_m = _u.module_from_spec(_s)
_s.loader.exec_module(_m)
PARSE = _m.PARSE

INDENT = '''			p.writeString(strings.Repeat(string(p.IndentChar), w))
			w2 = w
'''
BUGS = [
 dict(id='indent-const', property='C01',
  needs='a line that is indented by more than 256 columns',
  breaks='formatting crashes',
  edits=[('format/format.go', INDENT, '''			if p.IndentChar == ' ' {
				p.writeString(blanks[:w])
			} else {
				p.writeString(strings.Repeat(string(p.IndentChar), w))
			}
			w2 = w
'''), ('format/format.go', '''func isKeywordNode(''', '''// blanks saves making a new string for every line.
var blanks = strings.Repeat(" ", 256)

func isKeywordNode(''')],
  demo=r'''accepts "$(printf '%0300d' 0 | sed 's/^/[x/; s/$/ [a\\n b]]/')"
'''),
 dict(id='discard-nested-lambda', property='C02',
  needs='a function literal, discarded, within another',
  breaks='the nested function literal is accepted',
  edits=[('parse/parse.go', '''	node := t.parseNextSemantic()
	if t.ignoreReaderDiscard {
		// Metadata''', '''	// What is discarded may be anything.
	inLambda := t.inLambda
	t.inLambda = false
	node := t.parseNextSemantic()
	t.inLambda = inLambda
	if t.ignoreReaderDiscard {
		// Metadata'''), ('parse/parse.go', '''		t.unexpectedEOF(tok)
	}
	t.backup()
	// What''', '''		t.unexpectedEOF(tok)
	}
	t.backup() // the form
	// What''')],
  demo=r'''rejects '#(a #_#(b))'
'''),
 dict(id='file-clean-name', property='C03',
  needs='parse.File given a name that is not in its shortest form',
  breaks='positions name another file than the one that was asked for',
  edits=[('parse/parse.go', '''	return Reader(f, filename, opts)
''', '''	return Reader(f, filepath.Clean(filename), opts)
'''), ('parse/parse.go', '''	"os"
''', '''	"os"
	"path/filepath"
''')],
  demo='gorun <<\'G\'\n' + PARSE.replace('"strings"', '"io/ioutil"\n\t"strings"') + r'''
func main() {
	ioutil.WriteFile("a.clj", []byte("(a"), 0644)
	_, err := parse.File("./a.clj", 0)
	if err == nil || !strings.Contains(err.Error(), " ./a.clj:") {
		fail(err)
	}
	read("a", 0)
}
G
'''),
 dict(id='set-children-alias', property='C05',
  needs='SetChildren with a part of what Children returned',
  breaks='a node that was removed still claims its old parent',
  edits=[('parse/node.go', '''func (n *ListNode) SetChildren(nodes []Node) {
	for _, c := range n.Nodes {
''', '''func (n *ListNode) SetChildren(nodes []Node) {
	if len(nodes) > 0 && len(n.Nodes) > 0 && &nodes[0] == &n.Nodes[0] && cap(nodes) == cap(n.Nodes) {
		// The children were edited in place.
		n.Nodes = nodes
		for _, c := range n.Nodes {
			c.setParent(n)
		}
		return
	}
	for _, c := range n.Nodes {
''')],
  demo='gorun <<\'G\'\n' + PARSE + r'''
func main() {
	l := read("(a b c)", 0).Roots[0]
	c := l.Children()
	l.SetChildren(c[:2])
	if c[2].Parent() != nil {
		fail("still has a parent")
	}
}
G
'''),
 dict(id='file-bom', property='C06',
  needs='a file that starts with a byte order mark',
  breaks='File and Reader disagree',
  edits=[('parse/parse.go', '''	return Reader(f, filename, opts)
''', '''	r := bufio.NewReader(f)
	if bom, err := r.Peek(3); err == nil && string(bom) == "\\ufeff" {
		r.Discard(3)
	}
	return Reader(r, filename, opts)
''')],
  demo='gorun <<\'G\'\n' + PARSE.replace('"strings"', '"io/ioutil"\n\t"strings"') + r'''
func main() {
	src := "\ufeffa b"
	ioutil.WriteFile("a.clj", []byte(src), 0644)
	t1, err := parse.File("a.clj", 0)
	if err != nil {
		fail(err)
	}
	if t2 := read(src, 0); t1.String() != t2.String() || t1.Roots[1].Position().Offset != t2.Roots[1].Position().Offset {
		fail(t1, t2)
	}
}
G
'''),
 dict(id='big-prefetch', property='C07',
  needs='an erroneous source of more than a few kilobytes',
  breaks='a goroutine that reads ahead is left behind for good',
  edits=[('parse/parse.go', '''	t := &Tree{
		includeNonSemantic:''', '''	if head, _ := bufio.NewReaderSize(r, 16).Peek(0); head != nil {
		r = readAhead(r)
	}
	t := &Tree{
		includeNonSemantic:'''), ('parse/parse.go', '''func File(filename string''', '''type chunks struct {
	c   chan []byte
	buf []byte
	err error
}

// readAhead returns a reader of r that reads large inputs ahead of time.
func readAhead(r io.Reader) io.Reader {
	head := make([]byte, 4096)
	n, err := io.ReadFull(r, head)
	if err != nil {
		if err == io.ErrUnexpectedEOF {
			err = io.EOF
		}
		return &chunks{buf: head[:n], err: err}
	}
	cr := &chunks{c: make(chan []byte, 1), buf: head}
	go func() {
		defer close(cr.c)
		for {
			buf := make([]byte, 4096)
			n, err := r.Read(buf)
			if n > 0 {
				cr.c <- buf[:n]
			}
			if err != nil {
				cr.err = err
				return
			}
		}
	}()
	return cr
}

func (cr *chunks) Read(p []byte) (int, error) {
	if len(cr.buf) == 0 {
		var ok bool
		if cr.c == nil {
			return 0, cr.err
		}
		if cr.buf, ok = <-cr.c; !ok {
			return 0, cr.err
		}
	}
	n := copy(p, cr.buf)
	cr.buf = cr.buf[n:]
	return n, nil
}

func File(filename string''')],
  demo='gorun <<\'G\'\n' + PARSE.replace('"strings"', '"runtime"\n\t"strings"\n\t"time"') + r'''
func main() {
	read("a", 0)
	n := runtime.NumGoroutine()
	for i := 0; i < 10; i++ {
		parse.Reader(strings.NewReader(") "+strings.Repeat("a ", 50000)), "x", 0)
	}
	for i := 0; runtime.NumGoroutine() > n; i++ {
		if i == 100 {
			fail(runtime.NumGoroutine())
		}
		time.Sleep(10 * time.Millisecond)
	}
}
G
'''),
 dict(id='ns-cache', property='C08',
  needs='two trees whose namespace has the same name but other requires',
  breaks='the second is formatted by the aliases of the first',
  edits=[('format/require.go', '''	if !goclj.FnFormSymbol(n, "ns") {
		return
	}
	for _, n := range n.Children() {
''', '''	if !goclj.FnFormSymbol(n, "ns") {
		return
	}
	if semNodes := semanticNodes(n.Children()); len(semNodes) > 1 && goclj.Symbol(semNodes[1]) {
		// A namespace may be given in several files.
		name := semNodes[1].(*parse.SymbolNode).Val
		nsCache.Lock()
		defer nsCache.Unlock()
		for k, v := range nsCache.m[name] {
			p.requires[k] = v
		}
		defer func() {
			nsCache.m[name] = make(map[string]string)
			for k, v := range p.requires {
				nsCache.m[name][k] = v
			}
		}()
	}
	for _, n := range n.Children() {
'''), ('format/require.go', '''func (p *Printer) markRequires(''', '''var nsCache = struct {
	sync.Mutex
	m map[string]map[string]string
}{m: make(map[string]map[string]string)}

func (p *Printer) markRequires('''), ('format/require.go', '''	"sort"
''', '''	"sort"
	"sync"
''')],
  demo='gorun <<\'G\'\n' + PARSE.replace('"github.com/cespare/goclj/parse"', '"github.com/cespare/goclj/format"\n\t"github.com/cespare/goclj/parse"') + r'''
func main() {
	print := func(src string) string {
		var b strings.Builder
		p := format.NewPrinter(&b)
		p.IndentOverrides = map[string]format.IndentStyle{"a/f": format.IndentListBody}
		if err := p.PrintTree(read(src, parse.IncludeNonSemantic)); err != nil {
			fail(err)
		}
		return b.String()
	}
	src := "(ns n)\n(b/f x\n     y)\n"
	want := print(src)
	print("(ns n (:require [a :as b]))\n")
	if got := print(src); got != want {
		fail(got)
	}
}
G
'''),
 dict(id='nested-refer-comment', property='C12',
  needs='a comment in a parenthesized list of names within a required library',
  breaks='the comment is lost',
  edits=[('format/transform.go', '''				v.Nodes[i] = &parse.VectorNode{Nodes: l.Nodes}
''', '''				v.Nodes[i] = &parse.VectorNode{Nodes: semanticNodes(l.Nodes)}
''')],
  demo=r'''check '(ns a\n  (:require\n    [b :refer (c ;x\n               d)]))\n' '(ns a\n  (:require\n    [b :refer [c ;x\n               d]]))\n'
'''),
 dict(id='unqualified-fallback', property='C13',
  needs='overrides for two macros of the same name in different namespaces',
  breaks='how an unqualified use is indented changes from run to run',
  edits=[('format/format.go', '''	for k, v := range p.IndentOverrides {
		p.indentStyles[k] = v
	}
''', '''	for k, v := range p.IndentOverrides {
		p.indentStyles[k] = v
		// Also apply it to unqualified uses unless there's a rule for those.
		name := symbolName(k)
		if strings.Contains(k, ".") {
			continue
		}
		if _, ok := p.indentStyles[name]; !ok && name != "" {
			p.indentStyles[name] = v
		}
	}
''')],
  demo='gorun <<\'G\'\n' + PARSE.replace('"github.com/cespare/goclj/parse"', '"github.com/cespare/goclj/format"\n\t"github.com/cespare/goclj/parse"') + r'''
func main() {
	seen := make(map[string]bool)
	for i := 0; i < 200; i++ {
		var b strings.Builder
		p := format.NewPrinter(&b)
		p.IndentOverrides = map[string]format.IndentStyle{"a/f": format.IndentListBody, "b/f": format.IndentNormal}
		if err := p.PrintTree(read("(f x\n y)\n", parse.IncludeNonSemantic)); err != nil {
			fail(err)
		}
		seen[b.String()] = true
	}
	if len(seen) > 1 {
		fail(seen)
	}
}
G
'''),
 dict(id='deftype-first', property='C16',
  needs='a method right after the head of a deftype-like form, without a name',
  breaks='the method is indented as an ordinary call',
  edits=[('format/format.go', '''	for _, node := range nodes[1:] {
		if fn, ok := node.(*parse.ListNode); ok {
			p.specialIndent[fn]''', '''	if len(nodes) < 2 {
		return
	}
	// Skip the name.
	for _, node := range nodes[2:] {
		if fn, ok := node.(*parse.ListNode); ok {
			p.specialIndent[fn]''')],
  demo=r'''check '(defprotocol (f a\n b))\n' '(defprotocol (f a\n               b))\n'
'''),
 dict(id='long-head-indent', property='C16',
  needs='a call whose head is longer than 40 characters',
  breaks='its arguments are not aligned with the first one',
  edits=[('format/format.go', '''				if !semantic && firstLen > indentListMaxCommentAlign {
''', '''				if !semantic && firstLen > indentListMaxCommentAlign || firstLen > 40 {
''')],
  demo=r'''h=aaaaaaaaaabbbbbbbbbbccccccccccddddddddddeeeeeeeeee
check "($h b\\n  c)\\n" "($h b\\n                                                    c)\\n"
'''),
 dict(id='deep-indent-cap', property='C16',
  needs='a line that is indented by more than 80 columns',
  breaks='it is not aligned with the line above',
  edits=[('format/format.go', INDENT, '''			if w > 80 {
				w = 80 // don't run off to the right
			}
''' + INDENT)],
  demo=r'''h=aaaaaaaaaabbbbbbbbbbccccccccccdddddddddd
check "($h ($h ($h b\\n  c)))\\n" "($h ($h ($h b\\n$(printf '%127s' c))))\\n"
'''),
 dict(id='second-clause', property='C17',
  needs='a namespace with two :require clauses',
  breaks='aliases of the second clause are not resolved',
  edits=[('format/require.go', '''				p.markRequire(n.Children())
			}
		}
''', '''				p.markRequire(n.Children())
			}
		}
		if goclj.FnFormKeyword(n, ":require") {
			seen = true
		}
'''), ('format/require.go', '''	for _, n := range n.Children() {
		if !goclj.FnFormKeyword(n, ":require", ":require-macros") {
			continue
		}
''', '''	seen := false
	for _, n := range n.Children() {
		if !goclj.FnFormKeyword(n, ":require-macros") && (seen || !goclj.FnFormKeyword(n, ":require")) {
			continue
		}
''')],
  demo=r'''cat >"$work/c" <<'C'
{:indent-overrides ["a/f" :list-body]}
C
check '(ns n\n  (:require\n    [z])\n  (:require\n    [a :as b]))\n(b/f x\n  y)\n' '(ns n\n  (:require\n    [z])\n  (:require\n    [a :as b]))\n(b/f x\n  y)\n' -c "$work/c"
'''),
 dict(id='thread-in-map', property='C18',
  needs='a threading macro within a map',
  breaks='it is not recognized',
  edits=[('format/threadfirst.go', '''	for _, node := range n.Children() {
		p.markThreadFirsts(node)
''', '''	switch n.(type) {
	case *parse.MapNode, *parse.SetNode:
		return // data
	}
	for _, node := range n.Children() {
		p.markThreadFirsts(node)
''')],
  demo=r'''check '{:a (-> x\n        (cond-> y\n z))}\n' '{:a (-> x\n        (cond-> y\n                  z))}\n'
'''),
 dict(id='hex-lower', property='C19',
  needs='a hexadecimal number written with 0X',
  breaks='its text changes',
  edits=[('format/format.go', '''		return w + p.writeString(node.Val)
	case *parse.QuoteNode:''', '''		return w + p.writeString(strings.Replace(node.Val, "0X", "0x", 1))
	case *parse.QuoteNode:''')],
  demo=r'''check '0X1F\n' '0X1F\n'
'''),
 dict(id='natural-order', property='C21',
  needs='names that differ in a number with another count of digits',
  breaks='a2 is put before a10',
  edits=[('format/transform.go', '''			return k0 < k1
''', '''			if d0, d1 := strings.TrimRight(k0, "0123456789"), strings.TrimRight(k1, "0123456789"); d0 == d1 && len(k0) != len(k1) {
				return len(k0) < len(k1) // a2 before a10
			}
			return k0 < k1
''')],
  demo=r'''check '(ns x\n  (:require\n    [a10]\n    [a2]))\n' '(ns x\n  (:require\n    [a10]\n    [a2]))\n'
'''),
 dict(id='use-sorts', property='C23',
  needs='use-to-require on and sort-import-require off',
  breaks='a clause is sorted though sorting is off',
  edits=[('format/transform.go', '''			if transforms[TransformSortImportRequire] {
''', '''			if transforms[TransformSortImportRequire] || transforms[TransformUseToRequire] {
''')],
  demo=r'''check '(ns x\n  (:import\n    (b B)\n    (a A)))\n' '(ns x\n  (:import\n    (b B)\n    (a A)))\n' -enable-transform use-to-require -disable-transform sort-import-require
'''),
 dict(id='import-underscore', property='C25',
  needs='a required namespace with more than three hyphens, used as an imported package',
  breaks='the require is removed though it is needed',
  edits=[('format/unused.go', '''	name = strings.Replace(name, "-", "_", -1)
''', '''	name = strings.Replace(name, "-", "_", 3)
''')],
  demo=r'''s='(ns x\n  (:import\n    (a_b_c_d_e D))\n  (:require\n    [a-b-c-d-e :as d]))\n'
check "$s" '(ns x\n  (:import\n    (a_b_c_d_e D))\n  (:require\n    [a-b-c-d-e]))\n' -enable-transform remove-unused-requires
'''),
 dict(id='env-empty', property='C27',
  needs='CLJFMT_CONFIG_PATH set to nothing and a configuration in HOME',
  breaks='the configuration is read though it was turned off',
  edits=[('cljfmt/cljfmt.go', '''	if path, ok := os.LookupEnv("CLJFMT_CONFIG_PATH"); ok {
''', '''	if path := os.Getenv("CLJFMT_CONFIG_PATH"); path != "" {
''')],
  demo=r'''echo '{:indent-overrides ["f" :normal]}' >"$work/.cljfmt"
export CLJFMT_CONFIG_PATH=
check '(f x\n   y)\n' '(f x\n   y)\n'
'''),
 dict(id='limit-reader', property='C28',
  needs='a file of more than a megabyte',
  breaks='the rest of the file is cut off',
  edits=[('cljfmt/cljfmt.go', '''	if _, err := io.Copy(&buf1, in); err != nil {
''', '''	if _, err := io.Copy(&buf1, io.LimitReader(in, 1<<20)); err != nil {
''')],
  demo=r'''yes 'abcdefghijklmno' | head -c 1600000 >"$work/a.clj"
fmt "$work/a.clj" | cmp - "$work/a.clj" || exit 1
'''),
 dict(id='skip-target', property='C29',
  needs='sources in a directory named target',
  breaks='they are not formatted',
  edits=[('cljfmt/cljfmt.go', '''		if f.IsDir() {
			return nil
		}
''', '''		if f.IsDir() {
			if f.Name() == "target" {
				return filepath.SkipDir // build output
			}
			return nil
		}
''')],
  demo=r'''mkdir -p "$work/d/target"
printf '( a)\n' >"$work/d/target/a.clj"
[ "$(fmt -l "$work/d")" ] || exit 1
'''),
 dict(id='walk-error-logged', property='C30',
  needs='a directory with an erroneous file',
  breaks='cljfmt exits with status 0',
  edits=[('cljfmt/cljfmt.go', '''			return c.processFile(path, nil)
''', '''			if err := c.processFile(path, nil); err != nil {
				log.Print(err) // go on with the other files
			}
			return nil
''')],
  demo=r'''mkdir "$work/d"
printf '(a' >"$work/d/a.clj"
fmt -l "$work/d" 2>/dev/null && exit 1
'''),
 dict(id='deep-string', property='C31',
  needs='a tree of more than 50 levels',
  breaks='Tree.String indents what is deeper by too little',
  edits=[('parse/parse.go', '''		buf.WriteString(strings.Repeat("  ", depth))
''', '''		if depth > 50 {
			depth = 50
		}
		buf.WriteString(strings.Repeat("  ", depth))
''')],
  demo='gorun <<\'G\'\n' + PARSE + r'''
func main() {
	t := read(strings.Repeat("[", 60)+strings.Repeat("]", 60), 0)
	if !strings.Contains(t.String(), strings.Repeat("  ", 59)+"vector") {
		fail(t)
	}
}
G
'''),
]
