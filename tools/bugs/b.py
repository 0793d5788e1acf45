# Second batch: one or two per property.
PARSE = r'''package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/cespare/goclj/parse"
)

func fail(a ...interface{}) {
	fmt.Println(a...)
	os.Exit(1)
}

func read(src string, opts parse.ParseOpts) *parse.Tree {
	t, err := parse.Reader(strings.NewReader(src), "x", opts)
	if err != nil {
		fail(src, err)
	}
	return t
}
'''
BUGS = [
 dict(id='defmethod-short', property='C01',
  needs='a top-level defmethod that ends after a dispatch keyword on its own line',
  breaks='formatting crashes',
  edits=[('format/transform.go', '''	nodes := defmethod.Children()
	if len(nodes) < 5 {''', '''	nodes := defmethod.Children()
	if len(nodes) < 4 {''')],
  demo=r'''accepts '(defmethod a\n  :b)'
'''),
 dict(id='newlines-only', property='C01',
  needs='a list with nothing but line breaks in it',
  breaks='formatting crashes',
  edits=[('format/transform.go', '''		for ; len(nodes) > 0; nodes = nodes[:len(nodes)-1] {
			if len(nodes) >= 2 && goclj.Comment(nodes[len(nodes)-2]) {
				break
			}
			if !goclj.Newline(nodes[len(nodes)-1]) {
				break
			}
		}
''', '''		for goclj.Newline(nodes[len(nodes)-1]) {
			if len(nodes) >= 2 && goclj.Comment(nodes[len(nodes)-2]) {
				break
			}
			nodes = nodes[:len(nodes)-1]
		}
''')],
  demo=r'''accepts '(a (\n))'
'''),
 dict(id='lambda-reader-cond', property='C02',
  needs='a function literal within a reader conditional within a function literal',
  breaks='the nested function literal is accepted',
  edits=[('parse/parse.go', '''		t.errorf(tok.pos, "reader conditional body must be a list")
	}
''', '''		t.errorf(tok.pos, "reader conditional body must be a list")
	}
	inLambda := t.inLambda
	t.inLambda = false
	defer func() { t.inLambda = inLambda }()
''')],
  demo=r'''rejects '#(a #?(:clj #(b)))'
'''),
 dict(id='unicode-digit', property='C02',
  needs='a symbol that starts with a sign and a digit that is not ASCII',
  breaks='the symbol is taken for a number',
  edits=[('parse/lex.go', '''		if r2 >= '0' && r2 <= '9' {
			return lexNumber''', '''		if unicode.IsDigit(r2) {
			return lexNumber''')],
  demo='gorun <<\'G\'\n' + PARSE + r'''
func main() {
	t := read("-\u0663", 0)
	if _, ok := t.Roots[0].(*parse.SymbolNode); !ok {
		fail(t)
	}
}
G
'''),
 dict(id='col-runes', property='C03',
  needs='a character of several bytes earlier on the line',
  breaks='columns count characters of the Basic Multilingual Plane as one',
  edits=[('parse/lex.go', '''	l.pos.Col += w
''', '''	l.pos.Col++
	if r > 0xffff {
		l.pos.Col += w - 1
	}
''')],
  demo=r'''printf '(\xc3\xa4 ]' | fmt 2>&1 | grep -q '<stdin>:1:5' || exit 1
'''),
 dict(id='cond-error-pos', property='C03',
  needs='a reader conditional whose body is not a list',
  breaks='the error points to the reader conditional, not to the offending token',
  edits=[('parse/parse.go', '''		t.errorf(tok.pos, "reader conditional body must be a list")''', '''		t.errorf(start.pos, "reader conditional body must be a list")''')],
  demo=r'''printf 'a #?@ [b]' | fmt 2>&1 | grep -q '<stdin>:1:7' || exit 1
'''),
 dict(id='set-reused-child', property='C05',
  needs='children of a set replaced with a list that reuses some of them',
  breaks='reused children lose their parent',
  edits=[('parse/node.go', '''func (n *SetNode) SetChildren(nodes []Node) {
	for _, c := range n.Nodes {
		c.setParent(nil)
	}
	n.Nodes = nodes
	for _, c := range n.Nodes {
		c.setParent(n)
	}
}''', '''func (n *SetNode) SetChildren(nodes []Node) {
	for _, c := range nodes {
		c.setParent(n)
	}
	old := n.Nodes
	n.Nodes = nodes
	for i, c := range old {
		if i >= len(nodes) || nodes[i] != c {
			c.setParent(nil)
		}
	}
}''')],
  demo='gorun <<\'G\'\n' + PARSE + r'''
func main() {
	s := read("#{a b}", 0).Roots[0]
	c := s.Children()
	s.SetChildren([]parse.Node{c[1], c[0]})
	for _, n := range s.Children() {
		if n.Parent() != s {
			fail(n, n.Parent())
		}
	}
}
G
'''),
 dict(id='unexpected-eof-swallowed', property='C06',
  needs='a reader that fails with io.ErrUnexpectedEOF, as decompressors do',
  breaks='the error is taken for the end of the text',
  edits=[('parse/lex.go', '''		if err == io.EOF {
			return 0, true
		}''', '''		if err == io.EOF || err == io.ErrUnexpectedEOF {
			return 0, true
		}''')],
  demo=r'''gorun <<'G'
package main

import (
	"fmt"
	"io"
	"os"
	"strings"
	"testing/iotest"

	"github.com/cespare/goclj/parse"
)

func main() {
	r := io.MultiReader(strings.NewReader("(a b)"), iotest.ErrReader(io.ErrUnexpectedEOF))
	if t, err := parse.Reader(r, "x", 0); err == nil {
		fmt.Println(t)
		os.Exit(1)
	}
}
G
'''),
 dict(id='file-limit', property='C06',
  needs='a file of more than 64 KiB',
  breaks='the rest of the file is silently ignored',
  edits=[('parse/parse.go', '''	return Reader(f, filename, opts)''', '''	return Reader(io.LimitReader(f, 64<<10), filename, opts)''')],
  demo=r'''head -c 80000 /dev/zero | tr '\0' ' ' > "$work/big.clj"
echo ')' >> "$work/big.clj"
cat > "$work/main.txt" <<'G'
package main

import (
	"fmt"
	"os"

	"github.com/cespare/goclj/parse"
)

func main() {
	if t, err := parse.File("big.clj", 0); err == nil {
		fmt.Println(t)
		os.Exit(1)
	}
}
G
gorun < "$work/main.txt"
'''),
 dict(id='pipe-leak', property='C07',
  needs='malformed text followed by more input than is buffered',
  breaks='a goroutine that copies the input stays blocked forever',
  edits=[('parse/parse.go', '''		lex:                 lex(filename, bufio.NewReader(r)),
''', '''		lex:                 lex(filename, bufio.NewReader(prefetch(r))),
'''), ('parse/parse.go', '''func File(filename string''', '''// prefetch reads r concurrently.
func prefetch(r io.Reader) io.Reader {
	pr, pw := io.Pipe()
	go func() {
		_, err := io.Copy(pw, r)
		pw.CloseWithError(err)
	}()
	return pr
}

func File(filename string''')],
  demo=r'''gorun <<'G'
package main

import (
	"fmt"
	"os"
	"runtime"
	"strings"
	"time"

	"github.com/cespare/goclj/parse"
)

func main() {
	parse.Reader(strings.NewReader(")"+strings.Repeat("a ", 100000)), "x", 0)
	time.Sleep(200 * time.Millisecond)
	if n := runtime.NumGoroutine(); n > 1 {
		fmt.Println(n, "goroutines")
		os.Exit(1)
	}
}
G
'''),
 dict(id='indent-cache', property='C08',
  needs='printers with different indentation characters, or at the same time, in one process',
  breaks='an unsynchronized table of indentations is shared between printers',
  edits=[('format/format.go', '''		if needIndent {
			p.writeString(strings.Repeat(string(p.IndentChar), w))
''', '''		if needIndent {
			p.writeString(p.indentation(w))
'''), ('format/format.go', '''func isKeywordNode(n parse.Node''', '''var indentations = make(map[int]string)

// indentation returns the indentation of width w.
func (p *Printer) indentation(w int) string {
	s, ok := indentations[w]
	if !ok {
		s = strings.Repeat(string(p.IndentChar), w)
		indentations[w] = s
	}
	return s
}

func isKeywordNode(n parse.Node''')],
  demo=r'''gorun <<'G'
package main

import (
	"bytes"
	"fmt"
	"os"
	"strings"

	"github.com/cespare/goclj/format"
	"github.com/cespare/goclj/parse"
)

func main() {
	for _, c := range []rune{' ', '\t'} {
		t, _ := parse.Reader(strings.NewReader("[a\nb]"), "x", parse.IncludeNonSemantic)
		var b bytes.Buffer
		p := format.NewPrinter(&b)
		p.IndentChar = c
		if err := p.PrintTree(t); err != nil || b.String() != "[a\n"+string(c)+"b]" {
			fmt.Printf("%q %v\n", b.String(), err)
			os.Exit(1)
		}
	}
}
G
'''),
 dict(id='overrides-mutated', property='C08',
  needs='a map of indent overrides that is shared by printers or looked at after printing',
  breaks='printing fills in the caller\'s map of overrides',
  edits=[('format/format.go', '''	p.indentStyles = make(map[string]IndentStyle)
	for k, v := range defaultIndents {
		p.indentStyles[k] = v
	}
	for k, v := range p.IndentOverrides {
		p.indentStyles[k] = v
	}
''', '''	p.indentStyles = p.IndentOverrides
	if p.indentStyles == nil {
		p.indentStyles = make(map[string]IndentStyle)
	}
	for k, v := range defaultIndents {
		if _, ok := p.indentStyles[k]; !ok {
			p.indentStyles[k] = v
		}
	}
''')],
  demo=r'''gorun <<'G'
package main

import (
	"bytes"
	"fmt"
	"os"
	"strings"

	"github.com/cespare/goclj/format"
	"github.com/cespare/goclj/parse"
)

func main() {
	m := map[string]format.IndentStyle{"a": format.IndentLet}
	t, _ := parse.Reader(strings.NewReader("[a\nb]"), "x", parse.IncludeNonSemantic)
	p := format.NewPrinter(new(bytes.Buffer))
	p.IndentOverrides = m
	p.PrintTree(t)
	if len(m) != 1 {
		fmt.Println(m)
		os.Exit(1)
	}
}
G
'''),
 dict(id='leading-newlines', property='C10',
  needs='a text that starts with blank lines, formatted without transforms',
  breaks='line breaks at the start of the text are dropped',
  edits=[('format/format.go', '''	p.printSequence(t.Roots, 0, IndentNormal)
''', '''	roots := t.Roots
	for len(roots) > 2 && goclj.Newline(roots[0]) && goclj.Newline(roots[1]) {
		roots = roots[1:]
	}
	p.printSequence(roots, 0, IndentNormal)
''')],
  demo=r'''check '\n\n\na' '\n\n\na' --disable-transform=remove-extra-blank-lines
'''),
 dict(id='empty-require-comments', property='C12',
  needs='a :require or :import clause with nothing but comments',
  breaks='the comments are dropped',
  edits=[('format/transform.go', '''	for i, node := range nodes[1:] {
		switch node := node.(type) {
		case *parse.CommentNode:
			if i == 0 {''', '''	for i, node := range nodes[1:] {
		switch node := node.(type) {
		case *parse.CommentNode:
			if len(sorted) == 0 && i == len(nodes)-3 {
				continue
			}
			if i == 0 {''')],
  demo=r'''check '(ns a\n  (:require\n    ;c\n    ))' '(ns a\n  (:require\n    ;c\n    ))'
'''),
 dict(id='comment-col', property='C14',
  needs='a comment beside code that starts beyond column 72 of the source',
  breaks='the comment is set off by two blanks, depending on the column it had in the source',
  edits=[('format/format.go', '''		if needSpace {
			w2 += p.writeByte(' ')
		}
''', '''		if needSpace {
			w2 += p.writeByte(' ')
			if c, ok := n.(*parse.CommentNode); ok && c.Pos != nil && c.Col > 72 {
				w2 += p.writeByte(' ')
			}
		}
''')],
  demo=r'''check 'aaaaaaaaaaaaaaaaaaaaa                                                       ;b' 'aaaaaaaaaaaaaaaaaaaaa ;b'
'''),
 dict(id='meta-map-list', property='C15',
  needs='a map of metadata in front of a list on the same line',
  breaks='there is no blank between them',
  edits=[('format/format.go', '''		needIndent = false
		needSpace = true
		if extraIndent {''', '''		needIndent = false
		needSpace = true
		if m, ok := n.(*parse.MetadataNode); ok && i+1 < len(nodes) {
			_, isMap := m.Node.(*parse.MapNode)
			needSpace = !isMap || !goclj.FnFormSymbol(nodes[i+1])
		}
		if extraIndent {''')],
  demo=r'''check '^{:a 1} (b)' '^{:a 1} (b)'
'''),
 dict(id='let-comment', property='C16',
  needs='a comment between :let and its bindings',
  breaks='the bindings are not indented as pairs',
  edits=[('format/format.go', '''	for _, node := range nodes {
		if !goclj.Semantic(node) {
			continue
		}
		if prevLet {''', '''	for _, node := range nodes {
		if !goclj.Semantic(node) {
			if goclj.Comment(node) {
				prevLet = false
			}
			continue
		}
		if prevLet {''')],
  demo=r'''check '(for [a b\n:let ;c\n[d\ne]]\nf)' '(for [a b\n      :let ;c\n        [d\n           e]]\n  f)'
'''),
 dict(id='comment-align-12', property='C16',
  needs='a head of exactly twelve characters followed by a comment on its line',
  breaks='the arguments are not aligned with the comment',
  edits=[('format/format.go', '''firstLen > indentListMaxCommentAlign {''', '''firstLen >= indentListMaxCommentAlign {''')],
  demo=r'''check '(abcdefghijkl ;c\nd)' '(abcdefghijkl ;c\n              d)'
'''),
 dict(id='refer-qualified', property='C17',
  needs='a name that is referred from one namespace and written with another, and an override for the first',
  breaks='the override applies to the name in the other namespace',
  edits=[('format/format.go', '''		if req, ok := p.requires[ns]; ok {
			if style''', '''		req, ok := p.requires[ns]
		if !ok {
			req, ok = p.refers[unqualified]
		}
		if ok {
			if style''')],
  demo=r'''printf '{:indent-overrides ["lib/foo" :list-body]}' > "$work/.cljfmt"
check '(ns a\n  (:require\n    [lib :refer [foo]]))\n(other/foo a\nb)' '(ns a\n  (:require\n    [lib :refer [foo]]))\n(other/foo a\n           b)'
'''),
 dict(id='nested-cond-arrow', property='C18',
  needs='a cond-> directly inside a thread-first form',
  breaks='its arguments are counted as if it was not threaded into',
  edits=[('format/threadfirst.go', '''	if _, ok := p.threadFirst[form]; ok {
		begin = 1''', '''	if _, ok := p.threadFirst[form]; ok && style == ThreadFirstNormal {
		begin = 1''')],
  demo=r'''check '(-> a (cond-> b (case\n1\n2)))' '(-> a (cond-> b (case\n                  1\n                    2)))'
'''),
 dict(id='char-escape', property='C19',
  needs='a character literal beyond the Basic Multilingual Plane',
  breaks='it is rewritten as an invalid escape',
  edits=[('format/format.go', '''	case *parse.CharacterNode:
		return w + p.writeString(node.Text)
''', '''	case *parse.CharacterNode:
		if node.Val > 0xffff {
			return w + p.writeString(fmt.Sprintf("\\\\u%04x", node.Val))
		}
		return w + p.writeString(node.Text)
''')],
  demo=r'''check '\\\xf0\x9f\x98\x80' '\\\xf0\x9f\x98\x80'
'''),
 dict(id='option-parity', property='C20',
  needs='a list-valued option of a require that is broken over several lines',
  breaks='the list is not made a vector',
  edits=[('format/transform.go', '''			if l, ok := child.(*parse.ListNode); ok {
				v.Nodes[i]''', '''			if l, ok := child.(*parse.ListNode); ok && (i%2 == 0 || v.Nodes[0] == n) {
				v.Nodes[i]''')],
  demo=r'''check '(ns a\n  (:require\n    [b\n     :refer (c)]))' '(ns a\n  (:require\n    [b\n     :refer [c]]))'
'''),
 dict(id='unstable-sort', property='C21',
  needs='a clause with more than twelve items among them several for one namespace',
  breaks='items for one namespace change their order',
  edits=[('format/transform.go', '''	sort.Stable(sorted)
''', '''	sort.Sort(sorted)
''')],
  demo=r'''src='(ns a\n  (:require'
for n in b c d e f g; do for i in 1 2 3 4; do src="$src\n    [$n :as $n$i]"; done; done
src="$src))"
for n in g b f c e d; do for i in 1 2 3 4; do mix="$mix\n    [$n :as $n$i]"; done; done
check "(ns a\n  (:require$mix))" "$src"
'''),
 dict(id='sort-fold', property='C21',
  needs='two items whose names differ in case first',
  breaks='items are not ordered by byte order',
  edits=[('format/transform.go', '''			return k0 < k1
''', '''			return strings.ToLower(k0) < strings.ToLower(k1)
''')],
  demo=r'''check '(ns a\n  (:require\n    [a]\n    [B]))' '(ns a\n  (:require\n    [B]\n    [a]))'
'''),
 dict(id='trailing-in-cond', property='C22',
  needs='a form inside a reader conditional that ends in line breaks',
  breaks='its trailing line breaks are kept',
  edits=[('format/transform.go', '''	nodes := n.Children()
	if len(nodes) == 0 {
		return
	}
	switch n.(type) {
	case *parse.ListNode, *parse''', '''	nodes := n.Children()
	if len(nodes) == 0 {
		return
	}
	switch n.(type) {
	case *parse.ReaderCondNode, *parse.ReaderCondSpliceNode:
		return
	case *parse.ListNode, *parse''')],
  demo=r'''check '#?(:clj (a\n))' '#?(:clj (a))'
'''),
 dict(id='enable-wins', property='C23',
  needs='a transform that is first enabled and then disabled',
  breaks='the enabling flag wins',
  edits=[('cljfmt/cljfmt.go', '''	tf.m[t] = tf.b
''', '''	tf.m[t] = tf.b || tf.m[t]
''')],
  demo=r'''check '(a\n)' '(a\n  )' --enable-transform=remove-trailing-newlines --disable-transform=remove-trailing-newlines
'''),
 dict(id='refer-all-lost', property='C24',
  needs='a namespace that is used as a whole and then required with other options',
  breaks='the refer-all is lost',
  edits=[('format/require.go', '''	r2.referAll = r.referAll || r2.referAll
''', '''	r2.referAll = r.referAll || r2.referAll && r.refer.origRefer == nil
''')],
  demo=r'''check '(ns a\n  (:use b)\n  (:require [b :refer [c]]))' '(ns a\n  (:require\n    [b :refer :all]))' --enable-transform=use-to-require
'''),
 dict(id='short-write', property='C26',
  needs='a destination that writes less than it is given without an error',
  breaks='printing reports success',
  edits=[('format/format.go', '''	return p.bw.Flush()
''', '''	if err := p.bw.Flush(); err != io.ErrShortWrite {
		return err
	}
	return nil
''')],
  demo=r'''gorun <<'G'
package main

import (
	"os"
	"strings"

	"github.com/cespare/goclj/format"
	"github.com/cespare/goclj/parse"
)

type short struct{}

func (short) Write(p []byte) (int, error) { return len(p) / 2, nil }

func main() {
	t, _ := parse.Reader(strings.NewReader("[a b]"), "x", parse.IncludeNonSemantic)
	if format.NewPrinter(short{}).PrintTree(t) == nil {
		os.Exit(1)
	}
}
G
'''),
 dict(id='cond4-config', property='C27',
  needs='an indent override with the style :cond4',
  breaks='the style :cond2 takes effect',
  edits=[('cljfmt/config.go', '''	":cond4":     format.IndentCond4,
''', '''	":cond4":     format.IndentCond2,
''')],
  demo=r'''printf '{:indent-overrides ["foo" :cond4]}' > "$work/.cljfmt"
check '(foo a b\nc\nd)' '(foo a b\n  c\n  d)'
'''),
 dict(id='buf-not-reset', property='C28',
  needs='two files processed with -l or -w in one run',
  breaks='the second file is compared with and replaced by the formatted text of both',
  edits=[('cljfmt/cljfmt.go', '''	buf1.Reset()
	buf2.Reset()
''', '''	buf1.Reset()
''')],
  demo=r'''printf '(a)\n' > "$work/a.clj"; printf '(b)\n' > "$work/b.clj"
[ -z "$(fmt -l "$work/a.clj" "$work/b.clj")" ] || exit 1
'''),
 dict(id='equal-trim', property='C28',
  needs='a file whose formatting differs in line breaks at its end only',
  breaks='it is neither listed nor rewritten',
  edits=[('cljfmt/cljfmt.go', '''	if !bytes.Equal(buf1.Bytes(), buf2.Bytes()) {
''', '''	if !bytes.Equal(bytes.TrimSpace(buf1.Bytes()), bytes.TrimSpace(buf2.Bytes())) {
''')],
  demo=r'''printf '(a)\n\n\n\n' > "$work/a.clj"
[ -n "$(fmt -l "$work/a.clj")" ] || exit 1
'''),
 dict(id='skip-hidden-dirs', property='C29',
  needs='a directory below the argument whose name starts with a dot',
  breaks='the files in it are skipped',
  edits=[('cljfmt/cljfmt.go', '''		if f.IsDir() {
			return nil
		}
		name := f.Name()
''', '''		name := f.Name()
		if f.IsDir() {
			if len(name) > 2 && strings.HasPrefix(name, ".") {
				return filepath.SkipDir
			}
			return nil
		}
''')],
  demo=r'''mkdir -p "$work/d/.hid"; printf '( a)' > "$work/d/.hid/a.clj"
[ -n "$(fmt -l "$work/d")" ] || exit 1
'''),
 dict(id='ext-case', property='C29',
  needs='a file whose extension is in upper case',
  breaks='it is processed although the extension is not in the list',
  edits=[('cljfmt/cljfmt.go', '''c.extensions[filepath.Ext(name)]''', '''c.extensions[strings.ToLower(filepath.Ext(name))]''')],
  demo=r'''mkdir -p "$work/d"; printf '( a)' > "$work/d/a.CLJ"
[ -z "$(fmt -l "$work/d")" ] || exit 1
'''),
 dict(id='read-error-ignored', property='C30',
  needs='a read that fails after part of the file has been read',
  breaks='the file is replaced by what was read of it',
  edits=[('cljfmt/cljfmt.go', '''	if _, err := io.Copy(&buf1, in); err != nil {
		return err
	}''', '''	if _, err := io.Copy(&buf1, in); err != nil && buf1.Len() == 0 {
		return err
	}''')],
  demo=r'''printf '(a\nb)\n' > "$work/a.clj"
strace -f -o /dev/null -P "$work/a.clj" -e trace=read -e inject=read:error=EIO:when=2 "$work/cljfmt" -w "$work/a.clj" && exit 1
true
'''),
 dict(id='keyword-form-comment', property='C31',
  needs='a list with a comment in front of its keyword',
  breaks='the keyword counts as its head',
  edits=[('goclj.go', '''	k, ok := children[0].(*parse.KeywordNode)
''', '''	for Comment(children[0]) && len(children) > 2 {
		children = children[2:]
	}
	k, ok := children[0].(*parse.KeywordNode)
''')],
  demo=r'''gorun <<'G'
package main

import (
	"os"
	"strings"

	"github.com/cespare/goclj"
	"github.com/cespare/goclj/parse"
)

func main() {
	t, _ := parse.Reader(strings.NewReader("(;c\n:a)"), "x", parse.IncludeNonSemantic)
	if goclj.FnFormKeyword(t.Roots[0], ":a") {
		os.Exit(1)
	}
}
G
'''),
 dict(id='map-odd-length', property='C31',
  needs='a map with an odd number of elements',
  breaks='the rendering states one pair too many',
  edits=[('parse/node.go', '''semanticNodes/2)''', '''(semanticNodes+1)/2)''')],
  demo='gorun <<\'G\'\n' + PARSE + r'''
func main() {
	if s := read("{a}", 0).String(); !strings.HasPrefix(s, "map(length=0)\n") {
		fail(s)
	}
}
G
'''),
 dict(id='discard-in-lambda', property='C04',
  needs='a discard within a function literal, parsed without discards but with comments',
  breaks='the discard is kept',
  edits=[('parse/parse.go', '''	if _, ok := node.(*ReaderDiscardNode); ok && t.ignoreReaderDiscard {
		return false
	}
	if !t.inc''', '''	if _, ok := node.(*ReaderDiscardNode); ok && t.ignoreReaderDiscard {
		return t.includeNonSemantic && t.inLambda
	}
	if !t.inc''')],
  demo='gorun <<\'G\'\n' + PARSE + r'''
func main() {
	t := read("#(a [#_b c])", parse.IgnoreReaderDiscard|parse.IncludeNonSemantic)
	if len(t.Roots[0].Children()[1].Children()) != 1 {
		fail(t)
	}
}
G
'''),
 dict(id='defn-blank', property='C11',
  needs='a blank line between the name and the argument vector of a defn',
  breaks='it takes two rounds of formatting to move the vector',
  edits=[('format/transform.go', '''	if !goclj.Newline(nodes[2]) || goclj.Newline(nodes[4]) {
		return
	}
''', '''	if goclj.Newline(nodes[2]) && goclj.Newline(nodes[3]) && goclj.Vector(nodes[4]) {
		// Drop the blank line.
		defn.SetChildren(append(nodes[:2:2], nodes[3:]...))
		return
	}
	if !goclj.Newline(nodes[2]) || goclj.Newline(nodes[4]) {
		return
	}
''')],
  demo=r'''once=$(printf '(defn a\n\n  [x] b)' | fmt); again=$(echo "$once" | fmt)
[ "$once" = "$again" ] || exit 1
'''),
 dict(id='refer-order', property='C13',
  needs='two referred names with the same initial in a list from which a name is removed',
  breaks='the names come out in the order of a map iteration',
  edits=[('format/require.go', '''	sort.Strings(ss)
''', '''	sort.Slice(ss, func(i, j int) bool { return ss[i][0] < ss[j][0] })
''')],
  demo=r'''for i in $(seq 100); do
check '(ns a\n  (:require [b :refer [u1 u2 v1 v2 x y]]))\n(u2 u1 v1 v2 x)' '(ns a\n  (:require\n    [b :refer [u1 u2 v1 v2 x]]))\n(u2 u1 v1 v2 x)' --enable-transform=remove-unused-requires
done
'''),
 dict(id='docstring-col', property='C14',
  needs='a docstring of several lines that moves to the left when it is formatted',
  breaks='its lines are placed depending on the column it had in the source',
  edits=[('format/format.go', '''			val = p.alignDocstring(val, w)
''', '''			val = p.alignDocstring(val, w)
			if node.Pos != nil && node.Line > 1 && node.Col > w+8 {
				// It was indented very deeply; keep a hint of that.
				val = strings.Replace(val, "\\n", "\\n ", -1)
			}
''')],
  demo=r'''check '(def a\n                 "b\nc" d)' '(def a\n  "b\n  c" d)'
'''),
 dict(id='comments-only-clause', property='C24',
  needs='a :require or :use clause with nothing but comments',
  breaks='the comments are lost',
  edits=[('format/require.go', '''	rl.commentsBelow = append(rl.commentsBelow, lineComments...)
''', '''	if prevComments != nil {
		rl.commentsBelow = append(rl.commentsBelow, lineComments...)
	}
''')],
  demo=r'''printf '(ns a\n  (:use\n    ;x\n    )\n  (:require c))' | fmt --enable-transform=use-to-require | grep -q ';x' || exit 1
'''),
 dict(id='alias-division', property='C25',
  needs='an alias that is used for nothing but the division function of its namespace',
  breaks='the alias is removed',
  edits=[('format/unused.go', '''			if i := strings.IndexRune(name, '/'); i <= 0 {''', '''			if i := strings.LastIndex(name, "/"); i <= 0 {''')],
  demo=r'''check '(ns a\n  (:require\n    [b :as c]))\n(c// d e)' '(ns a\n  (:require\n    [b :as c]))\n(c// d e)' --enable-transform=remove-unused-requires
'''),
]
