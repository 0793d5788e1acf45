# Ninth batch: what stays open, what is wide or long, and the order of steps.
from importlib import util as _u
import os as _o
_s = _u.spec_from_file_location('b', _o.path.join(_o.path.dirname(__file__), 'b.py'))
_m = _u.module_from_spec(_s)
_s.loader.exec_module(_m)
PARSE = _m.PARSE

BUGS = [
 dict(id='file-leak', property='C07',
  needs='parse.File on malformed files, many times',
  breaks='the files stay open',
  edits=[('parse/parse.go', '''	defer f.Close()
	return Reader(f, filename, opts)
''', '''	t, err := Reader(f, filename, opts)
	if err != nil {
		return nil, err
	}
	return t, f.Close()
''')],
  demo='gorun <<\'G\'\n' + PARSE.replace('"strings"', '"runtime/debug"\n\t"strings"') + r'''
func main() {
	debug.SetGCPercent(-1)
	if err := os.WriteFile("bad.clj", []byte("(a"), 0600); err != nil {
		fail(err)
	}
	open := func() int {
		fds, err := os.ReadDir("/proc/self/fd")
		if err != nil {
			fail(err)
		}
		return len(fds)
	}
	before := open()
	for i := 0; i < 50; i++ {
		if _, err := parse.File("bad.clj", 0); err == nil {
			fail("accepted")
		}
	}
	_ = read
	if n := open(); n > before+5 {
		fail(before, n)
	}
}
G
'''),
 dict(id='open-leak', property='C29',
  needs='a directory with more files than may be open at a time',
  breaks='it ends with too many open files',
  edits=[('cljfmt/cljfmt.go', '''		defer f.Close()
		stat, err := f.Stat()''', '''		openFiles = append(openFiles, f)
		stat, err := f.Stat()'''), ('cljfmt/cljfmt.go', '''var (
	buf1 bytes.Buffer''', '''var (
	openFiles []*os.File // closed at exit

	buf1 bytes.Buffer''')],
  demo=r'''mkdir "$work/d"
for i in $(seq 1 300); do printf 'a' >"$work/d/$i.clj"; done
(ulimit -n 100; fmt -l "$work/d") || exit 1
'''),
 dict(id='closed-pipe', property='C26',
  needs='a writer whose error is io.ErrClosedPipe',
  breaks='printing reports success',
  edits=[('format/format.go', '''			case bufErr:
				err = e
''', '''			case bufErr:
				if e.error != io.ErrClosedPipe { // nobody is interested
					err = e
				}
'''), ('format/format.go', '''	return p.bw.Flush()
''', '''	if err := p.bw.Flush(); err != io.ErrClosedPipe {
		return err
	}
	return nil
''')],
  demo='gorun <<\'G\'\n' + PARSE.replace('"strings"', '"io"\n\t"strings"').replace('goclj/parse"', 'goclj/parse"\n\t"github.com/cespare/goclj/format"') + r'''
func main() {
	r, w := io.Pipe()
	r.Close()
	if err := format.NewPrinter(w).PrintTree(read("(a b)", 1)); err == nil {
		fail("no error")
	}
}
G
'''),
 dict(id='if-lines', property='C22',
  needs='an if whose test spans lines',
  breaks='its arms are moved though nothing precedes them',
  edits=[('format/transform.go', '''	if newlineBeforeArm0 && !newlineBeforeArm1 {''', '''	if p := nodes[arm0].Position(); p != nil && nodes[arm0-1].Position() != nil {
		if _, ok := nodes[arm0-1].(*parse.StringNode); ok && p.Line > nodes[arm0-1].Position().Line {
			newlineBeforeArm0 = true
		}
	}
	if newlineBeforeArm0 && !newlineBeforeArm1 {''')],
  demo=r'''check '(if "a\nb" c d)' '(if "a\nb" c d)'
'''),
 dict(id='pair-blank-twice', property='C16',
  needs='a blank line between a key and its value on later lines',
  breaks='the value is indented twice',
  edits=[('format/format.go', '''					if !extraIndent {
						w += 2
					}
					extraIndent = true''', '''					w += 2
					if extraIndent && len(nodes) < 8 {
						w -= 2
					}
					extraIndent = true''')],
  demo=r'''check '{:a\n\nb\n:c\nd :e f}' '{:a\n\n   b\n :c\n   d :e f}'
'''),
 dict(id='string-elide', property='C31',
  needs='the rendering of a tree with a long string',
  breaks='the rest of the string is missing',
  edits=[('parse/node.go', '''func (n *StringNode) String() string     { return fmt.Sprintf("string(%q)", n.Val) }''', '''func (n *StringNode) String() string {
	if len(n.Val) > 1024 {
		return fmt.Sprintf("string(%q...)", n.Val[:1024])
	}
	return fmt.Sprintf("string(%q)", n.Val)
}''')],
  demo='gorun <<\'G\'\n' + PARSE + r'''
func main() {
	s := strings.Repeat("a", 5000)
	if got := read("\""+s+"\"", 0).String(); got != "string(\""+s+"\")\n" {
		fail(len(got))
	}
}
G
'''),
 dict(id='final-comment-newline', property='C10',
  needs='a text that ends in a comment after code on the same line, with transforms off',
  breaks='a line break is added',
  edits=[('format/format.go', '''	p.printSequence(t.Roots, 0, IndentNormal)
''', '''	p.printSequence(t.Roots, 0, IndentNormal)
	if n := len(t.Roots); n >= 3 && goclj.Comment(t.Roots[n-1]) && !goclj.Newline(t.Roots[n-2]) {
		p.writeByte('\\n') // files end in a newline
	}
''')],
  demo=r'''check 'a\nb ;c' 'a\nb ;c'
'''),
]
