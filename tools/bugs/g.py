# Seventh batch: things that happen twice, state that leaks from one step into
# the next, special cases that sound reasonable.
from importlib import util as _u
import os as _o
_s = _u.spec_from_file_location('b', _o.path.join(_o.path.dirname(__file__), 'b.py'))
_m = _u.module_from_spec(_s)
_s.loader.exec_module(_m)
PARSE = _m.PARSE

BUGS = [
 dict(id='hardlink-once', property='C29',
  needs='two hard links to one file in a directory',
  breaks='the second one is passed over',
  edits=[('cljfmt/cljfmt.go', '''	walk := func(path string''', '''	var seen []os.FileInfo
	walk := func(path string'''),
   ('cljfmt/cljfmt.go', '''			return c.processFile(path, nil)
		}
		return nil // not''', '''			for _, s := range seen {
				if os.SameFile(s, f) {
					return nil // it has been processed
				}
			}
			seen = append(seen, f)
			return c.processFile(path, nil)
		}
		return nil // not''')],
  demo=r'''mkdir "$work/d"; printf '(a  b)\n' > "$work/d/a.clj"; ln "$work/d/a.clj" "$work/d/b.clj"
[ "$(fmt -l "$work/d" | wc -l)" = 2 ] || exit 1
'''),
 dict(id='eof-data', property='C06',
  needs='a reader that returns the last bytes together with io.EOF',
  breaks='those bytes are ignored',
  edits=[('parse/parse.go', '''bufio.NewReader(r)),''', '''bufio.NewReader(&source{r})),'''),
   ('parse/parse.go', '''func File(filename string''', '''// source makes sure that a reader isn't used any more after an error.
type source struct {
	r io.Reader
}

func (s *source) Read(b []byte) (int, error) {
	if s.r == nil {
		return 0, io.EOF
	}
	n, err := s.r.Read(b)
	if err == io.EOF {
		s.r = nil
		return 0, err
	}
	return n, err
}

func File(filename string''')],
  demo='gorun <<\'G\'\n' + PARSE.replace('"strings"', '"strings"\n\t"testing/iotest"') + r'''
func main() {
	t, err := parse.Reader(iotest.DataErrReader(strings.NewReader("a b")), "a", 0)
	if err != nil || len(t.Roots) != 2 {
		fail(t, err)
	}
}
G
'''),
 dict(id='error-name-shared', property='C08',
  needs='a parse that fails while another one was started after it',
  breaks='the error names the other source',
  edits=[('parse/parse.go', '''	panic(parseError{pos.FormatError("parse",''', '''	if name, ok := current.Load().(string); ok && pos.Name != name {
		pos = pos.Copy()
		pos.Name = name
	}
	panic(parseError{pos.FormatError("parse",'''),
   ('parse/parse.go', '''	defer close(t.lex.done)''', '''	current.Store(filename)
	defer close(t.lex.done)'''),
   ('parse/parse.go', '''func File(filename string''', '''// current is the name of the source that is being parsed.
var current atomic.Value

func File(filename string'''),
   ('parse/parse.go', '''	"strings"
''', '''	"strings"
	"sync/atomic"
''')],
  demo='gorun <<\'G\'\n' + PARSE + r'''
type reader struct{ n int }

func (r *reader) Read(b []byte) (int, error) {
	r.n++
	if r.n > 1 {
		parse.Reader(strings.NewReader("x"), "other", 0)
	}
	b[0] = "a)"[r.n-1]
	return 1, nil
}

func main() {
	_, err := parse.Reader(new(reader), "mine", 0)
	if err == nil || !strings.Contains(err.Error(), "mine") {
		fail(err)
	}
}
G
'''),
 dict(id='tie-bare', property='C21',
  needs='two items for one lib, the second of which is a mere name',
  breaks='they change places',
  edits=[('format/transform.go', """		sym, ok := children[0].(*parse.SymbolNode)
		if !ok {
			return "", false
		}
		return sym.Val, true
""", """		sym, ok := children[0].(*parse.SymbolNode)
		if !ok {
			return "", false
		}
		if len(children) > 1 {
			return sym.Val + " ", true // after the lib itself
		}
		return sym.Val, true
""")],
  demo=r"""check '(ns a\n  (:require\n    [b :as d]\n    [b]))' '(ns a\n  (:require\n    [b :as d]\n    [b]))'
"""),
 dict(id='names-carry', property='C27',
  needs='a list of names after another list of names in the configuration',
  breaks='the names of the first list get the style of the second',
  edits=[('cljfmt/config.go', '''	for i := 0; i < len(nodes); i += 2 {
		var names []string
		seq''', '''	var names []string
	for i := 0; i < len(nodes); i += 2 {
		seq''')],
  demo=r'''printf '{:indent-overrides [["f"] :list-body ["g"] :normal]}' > "$work/.cljfmt"
check '(f a\n  b)' '(f a\n  b)'
'''),
 dict(id='unquote-depth', property='C09',
  needs='~ @x outside of a syntax quote',
  breaks='it becomes ~@x',
  edits=[('format/format.go', '''		if _, ok := node.Node.(*parse.DerefNode); ok {
''', '''		if _, ok := node.Node.(*parse.DerefNode); ok && p.quoteDepth > 0 {
'''),
   ('format/format.go', '''		w += p.writeByte('`')
		return p.printNode(node.Node, w)''', '''		w += p.writeByte('`')
		p.quoteDepth++
		defer func() { p.quoteDepth-- }()
		return p.printNode(node.Node, w)'''),
   ('format/format.go', '''	// The requires and refers maps track''', '''	quoteDepth int // the number of syntax quotes around the node

	// The requires and refers maps track''')],
  demo=r'''check '(~ @a)' '(~ @a)'
'''),
 dict(id='second-option-list', property='C20',
  needs='a require with two options whose values are lists',
  breaks='the second one stays a list',
  edits=[('format/transform.go', '''				v.Nodes[i] = &parse.VectorNode{Nodes: l.Nodes}
			}''', '''				v.Nodes[i] = &parse.VectorNode{Nodes: l.Nodes}
				break
			}''')],
  demo=r'''check '(ns a\n  (:require\n    [b :refer (c) :exclude (d)]))' '(ns a\n  (:require\n    [b :refer [c] :exclude [d]]))'
'''),
 dict(id='alias-hides-exact', property='C17',
  needs='an override for a qualified name, and an alias like its namespace for another lib',
  breaks='the override does not apply to the name written out',
  edits=[('format/format.go', '''			if style, ok := p.indentStyles[req+"/"+unqualified]; ok {
				return style, true
			}
		}
		if''', '''			if style, ok := p.indentStyles[req+"/"+unqualified]; ok {
				return style, true
			}
		} else if''')],
  demo=r'''printf '{:indent-overrides ["b/f" :list-body "f" :normal]}' > "$work/.cljfmt"
check '(ns a\n  (:require\n    [c :as b]))\n(b/f a\n  d)' '(ns a\n  (:require\n    [c :as b]))\n(b/f a\n  d)'
'''),
 dict(id='quoted-thread', property='C18',
  needs='a quoted threading form',
  breaks='what is threaded into is indented as if it were not',
  edits=[('format/threadfirst.go', '''	for _, node := range n.Children() {
		p.markThreadFirsts(node)''', '''	if _, ok := n.(*parse.QuoteNode); ok {
		return // not code
	}
	for _, node := range n.Children() {
		p.markThreadFirsts(node)''')],
  demo=r"""check "(a '(-> b\n(case\nc\nd)))" "(a '(-> b\n        (case\n          c\n            d)))"
"""),
 dict(id='usage-eval', property='C25',
  needs='an alias that is used in #=(...) only',
  breaks='its require is removed',
  edits=[('format/unused.go', '''	find = func(n parse.Node) {
''', '''	find = func(n parse.Node) {
		if _, ok := n.(*parse.ReaderEvalNode); ok {
			return // evaluated before the ns form
		}
''')],
  demo=r'''check '(ns a\n  (:require\n    [b :as c]))\n#=(c/d)' '(ns a\n  (:require\n    [b :as c]))\n#=(c/d)' -enable-transform remove-unused-requires
'''),
 dict(id='refer-macros-merge', property='C24',
  needs='two requires of one lib, the second with :refer-macros but without :refer',
  breaks='the referred macros are lost',
  edits=[('format/require.go', '''	r2.comments.attachCommentsAbove(r2.refer.merge(&r.refer))
	r2''', '''	if r.refer.origRefer == nil {
		return r2 // nothing is referred
	}
	r2.comments.attachCommentsAbove(r2.refer.merge(&r.refer))
	r2''')],
  demo=r'''check '(ns a\n  (:require\n    [b :as c]\n    [b :refer-macros [d]]))' '(ns a\n  (:require\n    [b :as c :refer-macros [d]]))' -enable-transform use-to-require
'''),
 dict(id='doc-tab', property='C19',
  needs='a docstring with a line that starts with many tabs',
  breaks='the tabs become extra indentation',
  edits=[('format/docstring.go', '''func(r rune) bool { return r != ' ' })''', '''func(r rune) bool { return r != ' ' && r != '\\t' })''')],
  demo=r'''check '(def a\n  "b\n\t\t\t\t\tc"\n  d)' '(def a\n  "b\n  c"\n  d)'
'''),
 dict(id='comment-head-newline', property='C04',
  needs='a comment form whose head is on the next line, parsed with line breaks and without comment forms',
  breaks='the form stays',
  edits=[('parse/parse.go', '''		if head == nil && isForm(node) {''', '''		if head == nil && t.includeNode(node) {''')],
  demo='gorun <<\'G\'\n' + PARSE + r'''
func main() {
	t, err := parse.Reader(strings.NewReader("(\ncomment a)"), "a", parse.IncludeNonSemantic|parse.IgnoreCommentForm)
	if err != nil || len(t.Roots) > 0 {
		fail(t, err)
	}
}
G
'''),
 dict(id='perm-no-restore', property='C30',
  needs='a write that is refused after the file has been emptied',
  breaks='neither the old nor the new text is on disk',
  edits=[('cljfmt/cljfmt.go', '''				os.Rename(backup, filename)
''', '''				if os.IsPermission(err) {
					os.Remove(backup) // the file wasn't opened
				} else {
					os.Rename(backup, filename)
				}
''')],
  demo=r'''printf '(a  b)\n' > "$work/a.clj"; chmod 755 "$work"
n=$(printf '(a  b)\n' | wc -c)
strace -f -qq -o /dev/null -e trace=write -P "$work/a.clj" -e inject=write:error=EPERM "$work/cljfmt" -w "$work/a.clj" >/dev/null 2>&1
cat "$work"/.a.clj* "$work/a.clj" 2>/dev/null | grep -q a || exit 1
'''),
 dict(id='macro-order', property='C13',
  needs='a :require-macros clause of several libs, with remove-unused-requires and without sorting',
  breaks='the order is another one each time',
  edits=[('format/require.go', '''	sort.Strings(names) // for''', '''	if !rl.macros {
		sort.Strings(names)
	} // for''')],
  demo=r'''for i in $(seq 12); do
printf '(ns a (:require-macros [b] [c] [d] [e] [f]))' | fmt -enable-transform remove-unused-requires -disable-transform sort-import-require | md5sum
done | sort -u | wc -l | grep -qx 1 || exit 1
'''),
 dict(id='use-implies-style', property='C23',
  needs='use-to-require on and enforce-ns-style off',
  breaks='clauses are restyled all the same',
  edits=[('format/transform.go', '''			if transforms[TransformEnforceNSStyle] {
				// The''', '''			if transforms[TransformEnforceNSStyle] || transforms[TransformUseToRequire] {
				// The''')],
  demo=r'''check '(ns a [import b])' '(ns a [import b])' -enable-transform use-to-require -disable-transform enforce-ns-style
'''),
 dict(id='only-breaks', property='C22',
  needs='brackets with three line breaks and nothing else, with remove-trailing-newlines off',
  breaks='the blank lines stay',
  edits=[('format/transform.go', '''	if len(nodes) > 2 {
		nodes = removeExtra''', '''	if len(nodes) > 3 {
		nodes = removeExtra''')],
  demo=r'''check '[\n\n\n]' '[\n\n ]' -disable-transform remove-trailing-newlines
'''),
 dict(id='cr-in-prefix', property='C12',
  needs='a comment that ends in a lone carriage return, in a list with metadata or a quote in front',
  breaks='what follows becomes part of the comment',
  edits=[('format/format.go', '''		if !goclj.Comment(n) {
			children''', '''		if !goclj.Comment(n) {
			switch n.(type) {
			case *parse.QuoteNode, *parse.MetadataNode, *parse.DerefNode:
				continue
			}
			children''')],
  demo=r"""check "'(a ;b\\rc)" "'(a ;b\n    c)"
"""),
]
