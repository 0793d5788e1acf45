# Fifth batch: second occurrences, rare clause and node kinds, cost.
from importlib import util as _u
import os as _o
_s = _u.spec_from_file_location('b', _o.path.join(_o.path.dirname(__file__), 'b.py'))
_m = _u.module_from_spec(_s)
_s.loader.exec_module(_m)
PARSE = _m.PARSE

BUGS = [
 dict(id='for-let-parity', property='C16',
  needs='a :let that is a value, not a binding, in the bindings of a for',
  breaks='the vector after it is indented like bindings',
  edits=[('format/format.go', '''		prevLet = false
		i++
		if i%2 != 0 {
			continue
		}
		prevLet''', '''		i++
		prevLet''')],
  demo=r'''check '(for [x :let [y\nz]]\na)' '(for [x :let [y\n              z]]\n  a)'
'''),
 dict(id='if-test-nested', property='C22',
  needs='an if within the test of an if',
  breaks='the inner one keeps one arm on its line',
  edits=[('format/transform.go', '''		n.SetChildren(enforceConsistentIfNewlines(n.Children()))
	}
	for _, child := range n.Children() {
''', '''		nodes := enforceConsistentIfNewlines(n.Children())
		n.SetChildren(nodes)
		if len(nodes) > 2 {
			nodes = nodes[2:] // the arms
		}
		for _, child := range nodes {
			enforceConsistentIfNewlinesRec(child)
		}
		return
	}
	for _, child := range n.Children() {
''')],
  demo=r'''check '(if (if a b\nc)\nd\ne)' '(if (if a\n      b\n      c)\n  d\n  e)'
'''),
 dict(id='if-exponential', property='C01',
  needs='some dozens of if forms within each other',
  breaks='the time doubles with every level',
  edits=[('format/transform.go', '''		n.SetChildren(enforceConsistentIfNewlines(n.Children()))
	}
''', '''		n.SetChildren(enforceConsistentIfNewlines(n.Children()))
		for _, arm := range n.Children()[1:] {
			enforceConsistentIfNewlinesRec(arm)
		}
	}
''')],
  demo=r'''s=a; for i in {1..40}; do s="(if a $s b)"; done
printf '%s\n' "$s" >"$work/in.clj"
timeout 60 "$work/cljfmt" "$work/in.clj" >"$work/out" 2>&1 && cmp "$work/in.clj" "$work/out" || exit 1
'''),
 dict(id='trailing-nsmap', property='C22',
  needs='a namespaced map that ends in line breaks',
  breaks='its closing brace stays on a line of its own',
  edits=[('format/transform.go', '''	switch n.(type) {
	case *parse.ListNode, *parse.MapNode, *parse.VectorNode, *parse.FnLiteralNode, *parse.SetNode:
''', '''	if m, ok := n.(*parse.MapNode); ok && m.Namespace != "" {
		for _, node := range nodes {
			removeTrailingNewlines(node)
		}
		return
	}
	switch n.(type) {
	case *parse.ListNode, *parse.MapNode, *parse.VectorNode, *parse.FnLiteralNode, *parse.SetNode:
''')],
  demo=r'''check '#:a{:b 1\n}' '#:a{:b 1}'
'''),
 dict(id='letfn-discard', property='C16',
  needs='a reader conditional among the functions of a letfn',
  breaks='the bodies of the functions after it are indented like calls',
  edits=[('format/format.go', '''		for _, n := range v.Nodes {
			if fn, ok := n.(*parse.ListNode); ok {
				p.specialIndent[fn] = IndentListBody
			}
		}
''', '''		for _, n := range v.Nodes {
			if !goclj.Semantic(n) {
				continue
			}
			fn, ok := n.(*parse.ListNode)
			if !ok {
				break
			}
			p.specialIndent[fn] = IndentListBody
		}
''')],
  demo=r'''check '(letfn [#?(:clj a) (a [b]\nc)]\nd)' '(letfn [#?(:clj a) (a [b]\n                     c)]\n  d)'
'''),
 dict(id='second-ns', property='C17',
  needs='a file with two ns forms, and an override for a macro that the second one requires',
  breaks='the override does not apply',
  edits=[('format/require.go', '''	if !goclj.FnFormSymbol(n, "ns") {
		return
	}
	for _, n := range n.Children() {
''', '''	if !goclj.FnFormSymbol(n, "ns") || len(p.requires) > 0 {
		return
	}
	for _, n := range n.Children() {
''')],
  demo=r'''echo '{:indent-overrides ["x.y/m" :list-body]}' >"$work/c"
check '(ns a (:require [b :as c]))\n(ns d (:require [x.y :as z]))\n(z/m a\nb)' '(ns a (:require\n        [b :as c]))\n(ns d (:require\n        [x.y :as z]))\n(z/m a\n  b)' -c "$work/c"
'''),
 dict(id='thread-discard', property='C18',
  needs='a discarded form among the steps of a cond->',
  breaks='the test and not the step is indented as if threaded into',
  edits=[('format/threadfirst.go', '''		if !goclj.Semantic(node) {
			continue
		}
		if n, ok''', '''		if _, ok := node.(*parse.ReaderDiscardNode); ok || !goclj.Semantic(node) {
			continue
		}
		if n, ok''')],
  demo=r'''check '(-> #_a (case b\nc d))' '(-> #_a (case b\n                c d))'
'''),
 dict(id='three-aliases', property='C24',
  needs='three aliases for one namespace',
  breaks='one of them is lost',
  edits=[('format/require.go', '''		for len(as) > 1 {
''', '''		if len(as) > 1 {
'''), ('format/require.go', '''			nodes = append(nodes, n, newline())
			as = as[1:]
''', '''			nodes = append(nodes, n, newline())
			as = as[len(as)-1:]
''')],
  demo=r'''[ "$(printf '(ns a (:require [b :as c] [b :as d] [b :as e]))' | fmt --enable-transform=use-to-require | grep -c 'b :as')" = 3 ] || exit 1
'''),
 dict(id='third-beside', property='C24',
  needs='three requires of one namespace, each with a comment beside it',
  breaks='the third comment is lost',
  edits=[('format/require.go', '''	if nc.commentBeside == nil && !nc.commentsBesideMerged {
		nc.commentBeside = c
		return
	}
''', '''	if nc.commentBeside == nil {
		if !nc.commentsBesideMerged {
			nc.commentBeside = c
		}
		return
	}
''')],
  demo=r'''[ "$(printf '(ns a (:require\n[b :as c] ;x\n[b :as d] ;y\n[b :as e] ;z\n))' | fmt --enable-transform=use-to-require | grep -c ';z')" = 1 ] || exit 1
'''),
 dict(id='tab-column', property='C03',
  needs='a tab before a node or an error on its line',
  breaks='the column is that of a display with tab stops',
  edits=[('parse/lex.go', '''	l.pos.Col += w
	if r == '\\n' {
		l.pos.Line++
		l.pos.Col = 1
	}
''', '''	switch r {
	case '\\n':
		l.pos.Line++
		l.pos.Col = 1
	case '\\t':
		l.pos.Col += 8 - (l.pos.Col-1)%8
	default:
		l.pos.Col += w
	}
''')],
  demo='gorun <<\'G\'\n' + PARSE + r'''
func main() {
	if p := read("a\tb", 0).Roots[1].Position(); p.Col != 3 {
		fail(p)
	}
}
G
'''),
 dict(id='empty-names', property='C27',
  needs='an override with an empty list of names after another override',
  breaks='it applies to the names of the former',
  edits=[('cljfmt/config.go', '''	for i := 0; i < len(nodes); i += 2 {
		var names []string
		seq''', '''	var names []string
	for i := 0; i < len(nodes); i += 2 {
		seq'''), ('cljfmt/config.go', '''			for _, n := range seq {
				s, err := stringNode(n)
				if err != nil {
					return nil, err
				}
				names = append(names, s)
			}
''', '''			for j, n := range seq {
				s, err := stringNode(n)
				if err != nil {
					return nil, err
				}
				if j == 0 {
					names = names[:0]
				}
				names = append(names, s)
			}
''')],
  demo=r'''echo '{:indent-overrides ["m" :list-body [] :let]}' >"$work/c"
check '(m [a\nb])' '(m [a\n    b])' -c "$work/c"
'''),
 dict(id='suffix-ext', property='C29',
  needs='a configured extension, and a file whose name ends with it without having it',
  breaks='the file is formatted all the same',
  edits=[('cljfmt/cljfmt.go', '''		if _, ok := c.extensions[filepath.Ext(name)]; ok {
''', '''		ok := false
		for ext := range c.extensions {
			ok = ok || strings.HasSuffix(name, ext)
		}
		if ok {
''')],
  demo=r'''echo '{:extensions ["clj"]}' >"$work/c"
mkdir "$work/d"; echo '( a)' >"$work/d/x.clj"; echo '( b)' >"$work/d/x.xclj"
[ -z "$(fmt -c "$work/c" "$work/d")" ] || exit 1
'''),
 dict(id='string-crlf', property='C19',
  needs='a string with a carriage return before a line break in it',
  breaks='the string loses the carriage return',
  edits=[('format/format.go', '''		val := node.Val
		if _, ok := p.docstrings''', '''		val := strings.Replace(node.Val, "\\r\\n", "\\n", -1)
		if _, ok := p.docstrings''')],
  demo=r'''check '(a "b\r\nc")' '(a "b\r\nc")'
'''),
 dict(id='fold-names', property='C13',
  needs='two namespaces whose names differ in case only, in a rewritten clause',
  breaks='their order depends on the order of a hash map',
  edits=[('format/require.go', '''	sort.Strings(names) // for deterministic output
''', '''	sort.Slice(names, func(i, j int) bool { // for deterministic output
		return strings.ToLower(names[i]) < strings.ToLower(names[j])
	})
'''), ('format/require.go', '''	"sort"
''', '''	"sort"
	"strings"
''')],
  demo=r'''[ "$(for i in {1..40}; do printf '(ns a (:require [b] [B] [c] [C]))' | fmt --enable-transform=use-to-require --disable-transform=sort-import-require | md5sum; done | sort -u | wc -l)" = 1 ] || exit 1
'''),
 dict(id='left-comment', property='C14',
  needs='a comment within a form that starts in the first column of the source',
  breaks='it stays there, so the output depends on the spaces of the source',
  edits=[('format/format.go', '''		if needIndent {
			p.writeString(strings.Repeat(string(p.IndentChar), w))
			w2 = w
		}
		if needSpace''', '''		if c, ok := n.(*parse.CommentNode); ok && needIndent && c.Pos.Col == 1 && strings.HasPrefix(c.Text, ";;;;") {
			// A heading.
			w2 = 0
		} else if needIndent {
			p.writeString(strings.Repeat(string(p.IndentChar), w))
			w2 = w
		}
		if needSpace''')],
  demo=r'''check '(a\n;;;; b\nc)' '(a\n  ;;;; b\n  c)'
'''),
 dict(id='shared-newline-if', property='C08',
  needs='two trees with an if of which an arm moves to a new line, printed at the same time',
  breaks='they share a node, with a data race',
  edits=[('format/transform.go', '''			append([]parse.Node{new(parse.NewlineNode)}, nodes[arm1:]...)...,
''', '''			append([]parse.Node{lineBreak}, nodes[arm1:]...)...,
'''), ('format/transform.go', '''			append([]parse.Node{new(parse.NewlineNode)}, nodes[arm0:]...)...,
''', '''			append([]parse.Node{lineBreak}, nodes[arm0:]...)...,
'''), ('format/transform.go', '''func enforceConsistentIfNewlines(nodes []parse.Node) []parse.Node {
''', '''// lineBreak is what goes in front of an arm.
var lineBreak = new(parse.NewlineNode)

func enforceConsistentIfNewlines(nodes []parse.Node) []parse.Node {
''')],
  demo='gorun <<\'G\'\n' + PARSE.replace('"strings"\n', '"io/ioutil"\n\t"strings"\n').replace('goclj/parse"', 'goclj/format"\n\t"github.com/cespare/goclj/parse"', 1) + r'''
func main() {
	var ts []*parse.Tree
	for i := 0; i < 2; i++ {
		t := read("(if a b\nc)", parse.IncludeNonSemantic)
		if err := format.NewPrinter(ioutil.Discard).PrintTree(t); err != nil {
			fail(err)
		}
		ts = append(ts, t)
	}
	for _, t := range ts {
		for _, n := range t.Roots[0].Children() {
			if n.Parent() != t.Roots[0] {
				fail("parent of a node is in another tree")
			}
		}
	}
}
G
'''),
 dict(id='nul-eof', property='C02',
  needs='a NUL character in the source',
  breaks='the parser takes it for the end',
  edits=[('parse/lex.go', '''		panic(inputReadErr{err})
	}
''', '''		panic(inputReadErr{err})
	}
	if r == 0 {
		return 0, true
	}
''')],
  demo='gorun <<\'G\'\n' + PARSE + r'''
func main() {
	if t := read("a \";\x00\" b", 0); len(t.Roots) != 3 {
		fail(t.Roots)
	}
}
G
'''),
 dict(id='set-children-same', property='C05',
  needs='SetChildren of a set with as many nodes as it had',
  breaks='the former children keep their parent',
  edits=[('parse/node.go', '''func (n *SetNode) SetChildren(nodes []Node) {
	for _, c := range n.Nodes {
		c.setParent(nil)
	}
''', '''func (n *SetNode) SetChildren(nodes []Node) {
	if len(nodes) != len(n.Nodes) {
		for _, c := range n.Nodes {
			c.setParent(nil)
		}
	}
''')],
  demo='gorun <<\'G\'\n' + PARSE + r'''
func main() {
	s := read("#{a}", 0).Roots[0]
	a := s.Children()[0]
	s.SetChildren(read("b", 0).Roots)
	if a.Parent() != nil {
		fail(a.Parent())
	}
}
G
'''),
 dict(id='map-count-discards', property='C31',
  needs='a map with a discarded form in it',
  breaks='String gives another length',
  edits=[('parse/node.go', '''	semanticNodes := countSemantic(n.Nodes)
''', '''	semanticNodes := 0
	for _, c := range n.Nodes {
		if _, ok := c.(*ReaderDiscardNode); !ok && isSemantic(c) {
			semanticNodes++
		}
	}
''')],
  demo='gorun <<\'G\'\n' + PARSE + r'''
func main() {
	if s := read("{#_ a :b #_ c d}", 0).Roots[0].String(); s != "map(length=2)" {
		fail(s)
	}
}
G
'''),
]
