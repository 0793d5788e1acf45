# Sixth batch: sizes that happen to agree, readers that know more than Read,
# lookups in the wrong set.
from importlib import util as _u
import os as _o
_s = _u.spec_from_file_location('b', _o.path.join(_o.path.dirname(__file__), 'b.py'))
_m = _u.module_from_spec(_s)
_s.loader.exec_module(_m)
PARSE = _m.PARSE

BUGS = [
 dict(id='equal-length', property='C28',
  needs='a file whose formatted text is different but not shorter or longer',
  breaks='the file is taken for formatted',
  edits=[('cljfmt/cljfmt.go', '''	if !bytes.Equal(buf1.Bytes(), buf2.Bytes()) {''', '''	if buf1.Len() != buf2.Len() {''')],
  demo=r'''printf '(ns a\n  (:require\n    [c]\n    [b]))\n' > "$work/a.clj"
[ "$(fmt -l "$work/a.clj")" ] || exit 1
'''),
 dict(id='seek-start', property='C06',
  needs='a seekable reader that has been read from before',
  breaks='parsing starts over',
  edits=[('parse/parse.go', '''lex(filename, bufio.NewReader(r)),''', '''lex(filename, newInput(r)),'''),
   ('parse/parse.go', '''func File(filename string''', '''// newInput returns a buffered reader for r. (A file may have been read before
// to find out what it is.)
func newInput(r io.Reader) *bufio.Reader {
	if s, ok := r.(io.Seeker); ok {
		s.Seek(0, io.SeekStart)
	}
	return bufio.NewReader(r)
}

func File(filename string''')],
  demo='gorun <<\'G\'\n' + PARSE + r'''
func main() {
	r := strings.NewReader("x) y")
	r.ReadByte()
	r.ReadByte()
	if _, err := parse.Reader(r, "a", 0); err != nil {
		fail(err)
	}
}
G
'''),
 dict(id='string-lib', property='C20',
  needs='a require of a lib named by a string, in a list',
  breaks='it stays a list',
  edits=[('format/transform.go', '''			v = &parse.VectorNode{Nodes: n.Nodes}
		case *parse.SymbolNode:
			v =''', '''			if len(n.Nodes) > 0 && !goclj.Symbol(n.Nodes[0]) {
				continue
			}
			v = &parse.VectorNode{Nodes: n.Nodes}
		case *parse.SymbolNode:
			v =''')],
  demo=r'''check '(ns a\n  (:require\n    ("b" :as c)))' '(ns a\n  (:require\n    ["b" :as c]))'
'''),
 dict(id='defmethod-auto', property='C22',
  needs='a defmethod with an auto-resolved keyword on its own line',
  breaks='the keyword stays there',
  edits=[('format/transform.go', '''	if !goclj.Keyword(nodes[3]) {
		return
	}''', '''	if kw, ok := nodes[3].(*parse.KeywordNode); !ok || kw.Val[1] == ':' {
		return
	}''')],
  demo=r'''check '(defmethod a\n::b\n[c])' '(defmethod a ::b\n  [c])'
'''),
 dict(id='config-64k', property='C27',
  needs='a configuration file with more than 64 KB of comments',
  breaks='the configuration is ignored',
  edits=[('cljfmt/cljfmt.go', '''c.parseDotConfig(f, pf.p)''', '''c.parseDotConfig(io.LimitReader(f, 1<<16), pf.p)''')],
  demo=r'''(for i in $(seq 2000); do echo ';; a comment that takes about forty bytes'; done; echo '{:indent-overrides ["f" :list-body]}') > "$work/.cljfmt"
check '(f a\n  b)' '(f a\n  b)'
'''),
 dict(id='sort-key-any', property='C21',
  needs='a require of a lib named by a string',
  breaks='it is sorted by its alias',
  edits=[('format/transform.go', '''		sym, ok := children[0].(*parse.SymbolNode)
		if !ok {
			return "", false
		}
		return sym.Val, true
''', '''		for _, n := range children {
			if sym, ok := n.(*parse.SymbolNode); ok {
				return sym.Val, true
			}
		}
		return "", false
''')],
  demo=r'''check '(ns a\n  (:require\n    ["x" :as b]\n    [a]))' '(ns a\n  (:require\n    [a]\n    ["x" :as b]))'
check '(ns a\n  (:require\n    [c]\n    ["x" :as b]))' '(ns a\n  (:require\n    [c]\n    ["x" :as b]))'
'''),
 dict(id='if-quoted', property='C22',
  needs='an if inside a quoted form',
  breaks='it is not made consistent',
  edits=[('format/transform.go', '''	for _, child := range n.Children() {
		enforceConsistentIfNewlinesRec(child)''', '''	if _, ok := n.(*parse.QuoteNode); ok {
		return // not code
	}
	for _, child := range n.Children() {
		enforceConsistentIfNewlinesRec(child)''')],
  demo=r"""check "(a '(b (if c d\ne)))" "(a '(b (if c\n         d\n         e)))"
"""),
 dict(id='scratch-nodes', property='C08',
  needs='two printers at work at the same time',
  breaks='one printer uses the other\'s list',
  edits=[('format/require.go', '''	semNodes := make([]parse.Node, 0, len(nodes))
	for''', '''	semNodes := scratch[:0]
	for'''),
   ('format/require.go', '''	return semNodes
}
''', '''	scratch = semNodes
	return semNodes
}

// scratch is reused by semanticNodes, whose results don't live long.
var scratch []parse.Node
''')],
  demo=r'''export RACE=-race
gorun <<'G'
package main

import (
	"bytes"
	"os"
	"strings"
	"sync"

	"github.com/cespare/goclj/format"
	"github.com/cespare/goclj/parse"
)

func main() {
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 50; j++ {
				t, err := parse.Reader(strings.NewReader("(ns a (:require [b :as c] [d :as e]))"), "a", parse.IncludeNonSemantic)
				if err != nil {
					os.Exit(1)
				}
				format.NewPrinter(new(bytes.Buffer)).PrintTree(t)
			}
		}()
	}
	wg.Wait()
}
G
'''),
]
