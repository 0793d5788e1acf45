# Fourth batch: histories, file systems, and shortcuts at places that look
# local but are not.
from importlib import util as _u
import os as _o
_s = _u.spec_from_file_location('b', _o.path.join(_o.path.dirname(__file__), 'b.py'))
_m = _u.module_from_spec(_s)
_s.loader.exec_module(_m)
PARSE = _m.PARSE

BUGS = [
 dict(id='token-buffer-pool', property='C08',
  needs='a parse after one that failed in the middle of a token',
  breaks='the second parse sees the rest of the first one',
  edits=[('parse/lex.go', '''		done:   make(chan struct{}),
	}
''', '''		done:   make(chan struct{}),
		val:    valPool.Get().([]rune),
	}
'''), ('parse/lex.go', '''	close(l.tokens)
}
''', '''	close(l.tokens)
	valPool.Put(l.val)
}

// valPool holds buffers for the tokens of lexers.
var valPool = sync.Pool{New: func() interface{} { return make([]rune, 0, 128) }}
'''), ('parse/lex.go', '''	"runtime"
''', '''	"runtime"
	"sync"
''')],
  demo='gorun <<\'G\'\n' + PARSE + r'''
func main() {
	want := read("abc", 0).String()
	for i := 0; i < 1000; i++ {
		parse.Reader(strings.NewReader("\"abc"), "x", 0)
		if got := read("abc", 0).String(); got != want {
			fail(got)
		}
	}
}
G
'''),
 dict(id='use-only-empty', property='C24',
  needs='use-to-require and a :use with an empty :only list',
  breaks='everything is referred where nothing was',
  edits=[('format/require.go', '''			if !isReferList(r.refer.origRefer) {
				return nil
			}
		default:
			return nil
		}
	default:
		return nil
	}
	return r
}''', '''			if !isReferList(r.refer.origRefer) {
				return nil
			}
			r.referAll = len(r.refer.origRefer) == 0
		default:
			return nil
		}
	default:
		return nil
	}
	return r
}''')],
  demo=r'''check '(ns a\n  (:use [b :only []]))' '' -enable-transform=use-to-require 2>/dev/null | grep -q ':refer :all' && exit 1
true
'''),
 dict(id='dedupe-items', property='C21',
  needs='the same item twice in a clause',
  breaks='sorting drops one of them',
  edits=[('format/transform.go', '''	sort.Stable(sorted)
	newNodes''', '''	sort.Stable(sorted)
	sorted = sorted.dedupe()
	newNodes'''), ('format/transform.go', '''func (l importRequireList) Len() int      {''', '''// dedupe drops plain symbols that are repeated.
func (l importRequireList) dedupe() importRequireList {
	list := l[:0]
	for i, ir := range l {
		if sym, ok := ir.node.(*parse.SymbolNode); ok && i > 0 && len(ir.commentsAbove) == 0 && ir.commentBeside == nil {
			if prev, ok := l[i-1].node.(*parse.SymbolNode); ok && prev.Val == sym.Val {
				continue
			}
		}
		list = append(list, ir)
	}
	return list
}

func (l importRequireList) Len() int      {''')],
  demo=r'''check '(ns a\n  (:require\n    b\n    b))' '(ns a\n  (:require\n    b\n    b))' -disable-transform=enforce-ns-style
'''),
 dict(id='usage-in-meta', property='C25',
  needs='an alias that is only used in metadata',
  breaks='the require that is used is removed',
  edits=[('format/unused.go', '''		case *parse.MapNode:
			// Handle''', '''		case *parse.MetadataNode:
			// Only ^:keyword and ^Class occur in practice.
			if _, ok := n.Node.(*parse.MapNode); !ok {
				return
			}
		case *parse.MapNode:
			// Handle''')],
  demo=r'''check '(ns a\n  (:require\n    [b :as c]))\n(f ^c/X x)' '(ns a\n  (:require\n    [b :as c]))\n(f ^c/X x)' -enable-transform=remove-unused-requires
'''),
 dict(id='deref-threads', property='C18',
  needs='a dereferenced list in a threading form',
  breaks='it is indented as if it were threaded into',
  edits=[('format/threadfirst.go', '''		if n, ok := node.(*parse.ListNode); ok {
''', '''		if deref, ok := node.(*parse.DerefNode); ok {
			node = deref.Node
		}
		if n, ok := node.(*parse.ListNode); ok {
''')],
  demo=r'''check '(-> x\n    @(case a\n       b\n         c))' '(-> x\n    @(case a\n       b\n         c))'
'''),
 dict(id='first-dot', property='C29',
  needs='a file name with two dots',
  breaks='the file is not found to be a Clojure file',
  edits=[('cljfmt/cljfmt.go', '''		if _, ok := c.extensions[filepath.Ext(name)]; ok {
''', '''		// The extension may have several parts, such as .clj.tmpl.
		ext := ""
		if i := strings.IndexByte(name, '.'); i >= 0 {
			ext = name[i:]
		}
		if _, ok := c.extensions[ext]; ok {
''')],
  demo=r'''mkdir "$work/d"
printf '( a)\n' >"$work/d/a.b.clj"
[ "$(fmt -l "$work/d")" ] || exit 1
'''),
 dict(id='rename-over', property='C28',
  needs='-w with a file that is a symbolic link or has a second name',
  breaks='the file that was linked to keeps its contents',
  edits=[('cljfmt/cljfmt.go', '''			// The backup has to be next to the file, not to a link to it.
			filename, err := filepath.EvalSymlinks(filename)
			if err != nil {
				return err
			}
''', ''), ('cljfmt/cljfmt.go', '''			if err := ioutil.WriteFile(filename, buf2.Bytes(), perm); err != nil {
				os.Rename(backup, filename)
				return err
			}
			if err := os.Remove(backup); err != nil {
				return err
			}
''', '''			if err := os.Rename(backup, filename); err != nil {
				os.Remove(backup)
				return err
			}
'''), ('cljfmt/cljfmt.go', '''			backup, err := writeBackup(filename, buf1.Bytes(), perm)
''', '''			backup, err := writeBackup(filename, buf2.Bytes(), perm)
''')],
  demo=r'''mkdir "$work/d"
printf '( a)\n' >"$work/d/a.clj"
ln -s d/a.clj "$work/link.clj"
fmt -w "$work/link.clj" || exit 1
[ "$(cat "$work/d/a.clj")" = "(a)" ] || exit 1
'''),
 dict(id='backup-name', property='C28',
  needs='-w and a file with the name of the file and a tilde',
  breaks='that file is overwritten and removed',
  edits=[('cljfmt/cljfmt.go', '''	prefix := "." + filepath.Base(filename) + "."
	if len(prefix) > 200 {
		prefix = ".cljfmt." // names can't be much longer
	}
	f, err := ioutil.TempFile(filepath.Dir(filename), prefix)
''', '''	f, err := os.Create(filename + "~")
''')],
  demo=r'''printf '( a)\n' >"$work/a.clj"
printf 'mine\n' >"$work/a.clj~"
fmt -w "$work/a.clj" || exit 1
[ "$(cat "$work/a.clj~")" = mine ] || exit 1
'''),
 dict(id='set-sequence', property='C27',
  needs='a configuration with a set where a sequence belongs',
  breaks='it is accepted',
  edits=[('cljfmt/config.go', '''	case *parse.ListNode, *parse.VectorNode:
		return node.Children(), nil
''', '''	case *parse.ListNode, *parse.VectorNode, *parse.SetNode:
		return node.Children(), nil
''')],
  demo=r'''printf '{:extensions #{".x"}}' >"$work/.cljfmt"
printf 'a\n' | fmt >/dev/null 2>&1 && exit 1
true
'''),
 dict(id='flag-fold', property='C23',
  needs='the name of a transform in other letter case',
  breaks='an unknown transform is accepted',
  edits=[('cljfmt/cljfmt.go', '''	switch v {
	case "sort-import-require":
''', '''	switch strings.ToLower(v) {
	case "sort-import-require":
''')],
  demo=r'''printf 'a\n' | fmt -enable-transform=Use-To-Require >/dev/null 2>&1 && exit 1
true
'''),
 dict(id='refer-list', property='C17',
  needs='names referred by a list rather than a vector',
  breaks='an override for a qualified name does not apply to them',
  edits=[('format/require.go', '''			for _, n := range v.Children() {
				if n, ok := n.(*parse.SymbolNode); ok {
					p.refers[n.Val] = name
				}
			}
''', '''			if v, ok := v.(*parse.VectorNode); ok {
				for _, n := range v.Nodes {
					if n, ok := n.(*parse.SymbolNode); ok {
						p.refers[n.Val] = name
					}
				}
			}
''')],
  demo=r'''printf '{:indent-overrides ["b/c" :list-body]}' >"$work/.cljfmt"
check '(ns a\n  (:require\n    [b :refer (c)]))\n(c x\n  y)' '(ns a\n  (:require\n    [b :refer (c)]))\n(c x\n  y)' -disable-transform=enforce-ns-style
'''),
 dict(id='tag-less', property='C09',
  needs='a tag whose name starts with <, after a blank',
  breaks='the formatted text cannot be read',
  edits=[('format/format.go', '''strings.IndexAny(node.Val, "_?=!<")''', '''strings.IndexAny(node.Val, "_?=!")''')],
  demo=r'''check '# <a b' '# <a b'
'''),
 dict(id='octal-limit', property='C02',
  needs='an octal character literal above 0377',
  breaks='it is accepted',
  edits=[('parse/parse.go', '''				if len(val) > 4 || err != nil || n > 0377 {
''', '''				if len(val) > 4 || err != nil {
''')],
  demo=r'''rejects '\\o400'
'''),
 dict(id='comment-form-ns', property='C04',
  needs='a qualified (clojure.core/comment ...) form',
  breaks='it is left out when comment forms are ignored',
  edits=[('parse/parse.go', '''	return ok && sym.Val == "comment"
''', '''	return ok && (sym.Val == "comment" || strings.HasSuffix(sym.Val, "/comment"))
''')],
  demo='gorun <<\'G\'\n' + PARSE + r'''
func main() {
	if t := read("(a/comment b) c", parse.IgnoreCommentForm); len(t.Roots) != 2 {
		fail(t)
	}
}
G
'''),
 dict(id='eof-column', property='C03',
  needs='an unfinished form and a line break at the end of the text',
  breaks='the error names the end of the line before',
  edits=[('parse/parse.go', '''func (t *Tree) unexpectedEOF(tok token) { t.errorf(tok.pos, "unexpected EOF") }
''', '''func (t *Tree) unexpectedEOF(tok token) {
	pos := tok.pos
	if t.last != nil && t.last.Line == pos.Line-1 && pos.Col == 1 {
		pos = t.last // nothing but the line break follows
	}
	t.errorf(pos, "unexpected EOF")
}
'''), ('parse/parse.go', '''	inLambda  bool
''', '''	inLambda  bool
	last      *Pos // of the last line break
'''), ('parse/parse.go', '''		t.tok = t.nextToken()
''', '''		t.tok = t.nextToken()
		if t.tok.typ == tokNewline {
			t.last = t.tok.pos
		}
''')],
  demo='gorun <<\'G\'\n' + PARSE + r'''
func main() {
	_, err := parse.Reader(strings.NewReader("(a\n"), "x", 0)
	if err == nil || !strings.Contains(err.Error(), "x:2:1") {
		fail(err)
	}
}
G
'''),
 dict(id='clear-parents-late', property='C05',
  needs='the children of a node set to those of another node of the same kind',
  breaks='a child that was moved elsewhere before loses its new parent',
  edits=[],
  demo=''),
 dict(id='blank-first-line', property='C14',
  needs='a text that starts with blanks before a line break',
  breaks='the blank first line is kept or not depending on the blanks',
  edits=[],
  demo=''),
 dict(id='column-tabs', property='C16',
  needs='a string with a line break, then a form with a line break',
  breaks='what follows is aligned with the wrong column',
  edits=[('format/format.go', '''	case *parse.RegexNode:
		return p.writeMultiline(`#"`+node.Val+`"`, w)
''', '''	case *parse.RegexNode:
		return w + p.writeString(`#"`+node.Val+`"`)
''')],
  demo=r'''check '(f #"a\n" (b c\n     d))' '(f #"a\n" (b c\n     d))'
'''),
 dict(id='newline-in-pairs', property='C31',
  needs='a map with a comment between its entries',
  breaks='Tree.String counts the comment',
  edits=[],
  demo=''),
 dict(id='if-prefix-first', property='C22',
  needs='an if with metadata before its test',
  breaks='the line break before the metadata counts as one before an arm',
  edits=[('format/transform.go', '''		if !foundTest {
			foundTest = true
			newlineBeforeArm0 = false // it was before the test
			continue
		}
''', '''		if !foundTest {
			foundTest = true
			// Line breaks before the test don't matter.
			newlineBeforeArm0 = newlineBeforeArm0 && isPrefix(nodes[i-1])
			continue
		}
''')],
  demo=r'''check '(if\n  ^x a b\n  c)' '(if\n  ^x a\n  b\n  c)'
'''),
 dict(id='sorted-blank', property='C20',
  needs='an ns clause keyword followed by metadata',
  breaks='no line break is put after the keyword',
  edits=[('format/transform.go', '''			!goclj.Newline(clauseChildren[1]) && !goclj.Comment(clauseChildren[1]) {
''', '''			goclj.Semantic(clauseChildren[1]) {
''')],
  demo=r'''check '(ns a\n  (:require ^x [b]\n            [c]))' '(ns a\n  (:require\n    ^x [b]\n    [c]))'
'''),
 dict(id='error-tail', property='C06',
  needs='a reader that fails after the last complete form, at a chunk border',
  breaks='the error is taken for the end of the text',
  edits=[('parse/lex.go', '''		panic(inputReadErr{err})
''', '''		if err == io.ErrNoProgress || len(l.val) == 0 && l.pos.Offset > 0 && err == io.ErrClosedPipe {
			return 0, true // the writer has gone
		}
		panic(inputReadErr{err})
''')],
  demo='gorun <<\'G\'\n' + PARSE.replace('"os"', '"io"\n\t"os"') + r'''
type rd struct{ n int }

func (r *rd) Read(p []byte) (int, error) {
	if r.n++; r.n == 1 {
		return copy(p, "a\n"), nil
	}
	return 0, io.ErrClosedPipe
}
func main() {
	if _, err := parse.Reader(new(rd), "x", 0); err == nil {
		fail("no error")
	}
	_ = strings.Join
}
G
'''),
]
BUGS = [b for b in BUGS if b['edits']]
