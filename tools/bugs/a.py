BUGS = [
 dict(id='crlf-column', property='C03',
  needs='an error or node after a carriage return in the middle of a line',
  breaks='a carriage return resets the column',
  edits=[('parse/lex.go', '''	if r == '\\n' {
		l.pos.Line++
		l.pos.Col = 1
	}''', '''	switch r {
	case '\\n':
		l.pos.Line++
		l.pos.Col = 1
	case '\\r':
		l.pos.Col = 1
	}''')],
  demo=r'''printf '(a\r b))' | fmt 2>&1 | grep -q '<stdin>:1:7' || { printf '(a\r b))' | fmt; exit 1; }
'''),
 dict(id='set-comment-form', property='C04',
  needs='a (comment ...) form directly inside a set, parsed without comment forms',
  breaks='comment forms inside sets are kept',
  edits=[('parse/parse.go', '''			return &SetNode{Pos: start.pos, Nodes: nodes}
		case tokEOF:
			t.unexpectedEOF(tok)
		}
		t.backup()
		node := t.parseNext()
		if t.includeNode(node) {''', '''			return &SetNode{Pos: start.pos, Nodes: nodes}
		case tokEOF:
			t.unexpectedEOF(tok)
		}
		t.backup()
		node := t.parseNext()
		if t.includeNonSemantic && !goclDiscard(node) || t.includeNode(node) {'''),
        ('parse/parse.go', '''func (t *Tree) parseVarQuote(start''', '''func goclDiscard(n Node) bool {
	_, ok := n.(*ReaderDiscardNode)
	return ok
}

func (t *Tree) parseVarQuote(start''')],
  demo=r'''gorun <<'G'
package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/cespare/goclj/parse"
)

func main() {
	t, err := parse.Reader(strings.NewReader("#{(comment a) b #_c}"), "x", parse.IncludeNonSemantic|parse.IgnoreCommentForm|parse.IgnoreReaderDiscard)
	if err != nil || len(t.Roots) != 1 || len(t.Roots[0].Children()) != 1 {
		fmt.Println(t, err)
		os.Exit(1)
	}
}
G
'''),
 dict(id='cond-triple', property='C16',
  needs='a :>> that is itself the third element of a :>> triple',
  breaks='the elements after it are indented with the wrong parity',
  edits=[('format/format.go', '''			(pairIdx == 2 && !isKeywordNode(n, ":>>")) || pairIdx > 2 {''', '''			(pairIdx >= 2 && !isKeywordNode(n, ":>>")) || pairIdx > 3 {''')],
  demo=r'''check '(condp a b\nc :>> :>>\nd\ne\nf)' '(condp a b\n  c :>> :>>\n  d\n    e\n  f)\n'
'''.replace(r"f)\n'", r"f)'")),
 dict(id='import-vector-comment', property='C12',
  needs='a comment inside a vector in an import clause',
  breaks='the comment gets lost when the vector becomes a list',
  edits=[('format/transform.go', """		case *parse.VectorNode:
			nodes[i] = &parse.ListNode{Nodes: n.Nodes}
""", """		case *parse.VectorNode:
			nodes[i] = &parse.ListNode{Nodes: semanticNodes(n.Nodes)}
""")],
  demo=r"""check '(ns a\n  (:import\n    [b C ;d\n     E]))' '(ns a\n  (:import\n    (b C ;d\n       E)))'
"""),
 dict(id='blank-run', property='C15',
  needs='at least three consecutive blank lines that follow a comment',
  breaks='a comment that ends a line does not end the run of line breaks counted before it',
  edits=[('format/transform.go', '''		if goclj.Newline(node) {
			newlines++
		} else {
			newlines = 0
		}
		if newlines <= 2 {''', '''		if goclj.Newline(node) {
			newlines++
		} else if newlines = 0; goclj.Comment(node) {
			newlines = -1
		}
		if newlines <= 2 {''')],
  demo=r'''check '(a ;c\n\n\n\nb)' '(a ;c\n\n   b)'
'''),
 dict(id='refer-prefix', property='C09',
  needs='a dotted import symbol that names a nested class',
  breaks='a class symbol with a $ is split at the $',
  edits=[('format/transform.go', '''			j := strings.LastIndexByte(n.Val, '.')
''', '''			j := strings.LastIndexAny(n.Val, ".$")
''')],
  demo=r'''check '(ns a (:import java.util.Map$Entry))' '(ns a (:import\n        (java.util Map$Entry)))'
'''),
]
