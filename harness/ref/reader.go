// Package ref is the reference model: a small, boring, independent
// implementation of what goclj is specified to do. It shares no code with
// goclj and imports nothing from it.
package ref

import (
	"fmt"
	"strings"
	"unicode"
	"unicode/utf8"
)

type Kind uint8

const (
	Nil Kind = iota
	Bool
	Char
	Comment
	Deref
	Keyword
	List
	Map
	Meta
	Newline
	Number
	Symbol
	Quote
	String
	SyntaxQuote
	Unquote
	UnquoteSplice
	Vector
	FnLit
	ReaderCond
	ReaderCondSplice
	Discard
	Eval
	Regex
	Set
	VarQuote
	Tag
)

var kindNames = [...]string{"nil", "bool", "char", "comment", "deref", "keyword", "list", "map", "meta", "newline",
	"number", "symbol", "quote", "string", "syntaxquote", "unquote", "unquotesplice", "vector", "fnlit", "readercond",
	"readercondsplice", "discard", "eval", "regex", "set", "varquote", "tag"}

func (k Kind) String() string { return kindNames[k] }

// Node is a node of the reference tree.
type Node struct {
	Kind Kind
	// Text is the source text of the token that matters: the whole token of
	// atoms and comments, the contents of strings and regexes, the name of
	// tags and var quotes, the namespace (":ns", "::", "::ns") of maps.
	Text string
	Rune rune // value of a character literal
	Off  int
	Line int
	Col  int
	End  int // byte offset after the node's last character
	Kids []*Node
	// Gap is set if comments or newlines stood between a reader prefix and
	// its form (the tree has no place for them).
	Gap bool
	// GapComments counts the comments among them.
	GapComments int
	// Head is the first form of a sequence, even if options drop it.
	Head *Node
}

// Err is a rejection.
type Err struct {
	Line, Col int
	Msg       string
	AtEnd     bool // the text ends too early (more text could make it well-formed)
}

func (e *Err) Error() string { return fmt.Sprintf("%d:%d: %s", e.Line, e.Col, e.Msg) }

func IsBlank(r rune) bool { return r == ',' || unicode.IsSpace(r) }

// IsConstituent reports whether r can continue a symbol, number, keyword or
// character token.
func IsConstituent(r rune) bool {
	return !IsBlank(r) && !strings.ContainsRune("\";@^~()[]{}\\", r)
}

type reader struct {
	src       []rune // invalid bytes are U+FFFD
	width     []uint8
	i         int
	off       int
	line, col int
	inFn      int
	opts      Opts
}

// Opts are the parse options.
type Opts struct {
	Drop          bool // drop comments and newlines
	IgnoreComment bool
	IgnoreDiscard bool
}

type mark struct{ i, off, line, col int }

// Parse reads a whole source text, keeping everything.
func Parse(src string) (roots []*Node, err *Err) { return ParseOpts(src, Opts{}) }

// ParseOpts reads a whole source text.
func ParseOpts(src string, opts Opts) (roots []*Node, err *Err) {
	rd := &reader{line: 1, col: 1, opts: opts}
	rd.src = make([]rune, 0, len(src))
	rd.width = make([]uint8, 0, len(src))
	for i := 0; i < len(src); {
		r, w := utf8.DecodeRuneInString(src[i:])
		rd.src = append(rd.src, r)
		rd.width = append(rd.width, uint8(w))
		i += w
	}
	defer func() {
		if e := recover(); e != nil {
			if pe, ok := e.(*Err); ok {
				roots, err = nil, pe
				return
			}
			panic(e)
		}
	}()
	for {
		n, closer := rd.item()
		if closer != 0 {
			rd.fail(rd.here1(), "unexpected closing delimiter")
		}
		if n == nil {
			return roots, nil
		}
		if rd.keep(n) {
			roots = append(roots, n)
		}
	}
}

// here1 is the position of the character just read.
func (rd *reader) here1() mark {
	// closing delimiters are one byte wide and never line feeds
	return mark{rd.i - 1, rd.off - 1, rd.line, rd.col - 1}
}

func (rd *reader) fail(m mark, msg string) { panic(&Err{m.line, m.col, msg, rd.eof()}) }

func (rd *reader) mark() mark { return mark{rd.i, rd.off, rd.line, rd.col} }

func (rd *reader) eof() bool { return rd.i >= len(rd.src) }

func (rd *reader) peek() rune {
	if rd.eof() {
		return -1
	}
	return rd.src[rd.i]
}

func (rd *reader) adv() rune {
	r := rd.src[rd.i]
	rd.off += int(rd.width[rd.i])
	rd.col += int(rd.width[rd.i])
	if r == '\n' {
		rd.line++
		rd.col = 1
	}
	rd.i++
	return r
}

func (rd *reader) node(k Kind, m mark) *Node {
	return &Node{Kind: k, Off: m.off, Line: m.line, Col: m.col, End: rd.off}
}

func (rd *reader) text(m mark) string { return string(rd.src[m.i:rd.i]) }

func (rd *reader) constituents() {
	for !rd.eof() && IsConstituent(rd.peek()) {
		rd.adv()
	}
}

func (rd *reader) skipBlanks() {
	for !rd.eof() && rd.peek() != '\n' && IsBlank(rd.peek()) {
		rd.adv()
	}
}

// item reads the next node, newlines and comments included. It returns a nil
// node at the end of the text and (nil, delimiter) after reading a closing
// delimiter.
func (rd *reader) item() (*Node, rune) {
again:
	rd.skipBlanks()
	if rd.eof() {
		return nil, 0
	}
	m := rd.mark()
	r := rd.adv()
	switch r {
	case '\n':
		return rd.node(Newline, m), 0
	case ')', ']', '}':
		return nil, r
	case '(':
		return rd.seq(List, m, ')'), 0
	case '[':
		return rd.seq(Vector, m, ']'), 0
	case '{':
		return rd.seq(Map, m, '}'), 0
	case ';':
		return rd.comment(m), 0
	case '"':
		return rd.str(String, m), 0
	case '\\':
		return rd.char(m), 0
	case '\'':
		return rd.prefix(Quote, m), 0
	case '@':
		return rd.prefix(Deref, m), 0
	case '`':
		return rd.prefix(SyntaxQuote, m), 0
	case '^':
		return rd.prefix(Meta, m), 0
	case '~':
		if rd.peek() == '@' {
			rd.adv()
			return rd.prefix(UnquoteSplice, m), 0
		}
		return rd.prefix(Unquote, m), 0
	case '#':
		if rd.opts.IgnoreDiscard && rd.peek() == '_' {
			rd.adv()
			rd.skipForm(&Node{})
			goto again
		}
		return rd.dispatch(m), 0
	}
	rd.constituents()
	text := rd.text(m)
	kind := Symbol
	switch {
	case r == ':':
		kind = Keyword
	case r >= '0' && r <= '9':
		kind = Number
	case (r == '+' || r == '-') && len(text) > 1 && text[1] >= '0' && text[1] <= '9':
		kind = Number
	case text == "nil":
		kind = Nil
	case text == "true", text == "false":
		kind = Bool
	}
	n := rd.node(kind, m)
	n.Text = text
	return n, 0
}

func (rd *reader) comment(m mark) *Node {
	for !rd.eof() && rd.peek() != '\n' && rd.peek() != '\r' {
		rd.adv()
	}
	n := rd.node(Comment, m)
	n.Text = rd.text(m)
	return n
}

func (rd *reader) str(k Kind, m mark) *Node {
	start := rd.mark() // after the quote
	for {
		if rd.eof() {
			if k == Regex { // the string token starts after the #
				m.col++
			}
			rd.fail(m, "unterminated string")
		}
		switch rd.adv() {
		case '\\':
			if !rd.eof() {
				rd.adv()
			}
		case '"':
			n := rd.node(k, m)
			n.Text = string(rd.src[start.i : rd.i-1])
			return n
		}
	}
}

var charNames = map[string]rune{"newline": '\n', "space": ' ', "tab": '\t', "formfeed": '\f', "backspace": '\b', "return": '\r'}

func digits(s string, base rune) (v rune, ok bool) {
	for _, c := range s {
		d := rune(99)
		switch {
		case c >= '0' && c <= '9':
			d = c - '0'
		case c >= 'a' && c <= 'f':
			d = c - 'a' + 10
		case c >= 'A' && c <= 'F':
			d = c - 'A' + 10
		}
		if d >= base {
			return 0, false
		}
		v = v*base + d
	}
	return v, true
}

func (rd *reader) char(m mark) *Node {
	if rd.eof() {
		rd.fail(m, "incomplete character literal")
	}
	rd.adv()
	rd.constituents()
	n := rd.node(Char, m)
	n.Text = rd.text(m)
	rs := []rune(n.Text[1:])
	body := string(rs)
	if len(rs) == 1 {
		n.Rune = rs[0]
		return n
	}
	if r, ok := charNames[body]; ok {
		n.Rune = r
		return n
	}
	switch {
	case rs[0] == 'u' && len(body) == 5:
		if v, ok := digits(body[1:], 16); ok && (v < 0xD800 || v > 0xDFFF) {
			n.Rune = v
			return n
		}
	case rs[0] == 'o' && len(body) <= 4:
		if v, ok := digits(body[1:], 8); ok && v <= 0377 {
			n.Rune = v
			return n
		}
	}
	rd.fail(m, "invalid character literal")
	return nil
}

// prefix reads the form a reader prefix applies to. Comments and newlines in
// between are skipped.
func (rd *reader) prefix(k Kind, m mark) *Node {
	n := rd.node(k, m)
	n.Kids = []*Node{rd.operand(n)}
	n.End = rd.off
	return n
}

func (rd *reader) operand(n *Node) *Node {
	for {
		o, closer := rd.item()
		if closer != 0 {
			rd.fail(rd.here1(), "unexpected closing delimiter")
		}
		if o == nil {
			rd.fail(rd.mark(), "unexpected end")
		}
		if o.Kind != Newline && o.Kind != Comment {
			return o
		}
		n.Gap = true
		if o.Kind == Comment {
			n.GapComments++
		}
	}
}

func (rd *reader) seq(k Kind, m mark, closing rune) *Node {
	n := rd.node(k, m)
	for {
		kid, closer := rd.item()
		switch {
		case closer == closing:
			n.End = rd.off
			return n
		case closer != 0:
			rd.fail(rd.here1(), "mismatched closing delimiter")
		case kid == nil:
			rd.fail(rd.mark(), "unexpected end")
		}
		if n.Head == nil && kid.Kind != Newline && kid.Kind != Comment && kid.Kind != Discard {
			n.Head = kid
		}
		if rd.keep(kid) {
			n.Kids = append(n.Kids, kid)
		}
	}
}

// keep reports whether a member of a sequence stays in the tree.
func (rd *reader) keep(n *Node) bool {
	switch {
	case rd.opts.Drop && (n.Kind == Newline || n.Kind == Comment):
		return false
	case rd.opts.IgnoreComment && n.Kind == List && n.Head != nil && n.Head.Kind == Symbol && n.Head.Text == "comment":
		return false
	}
	return true
}

// skipForm reads and drops the form that a discard discards, as the Clojure
// reader does: metadata and tags are part of the form they precede.
func (rd *reader) skipForm(n *Node) {
	for !complete(rd.operand(n)) {
	}
}

// complete reports whether n isn't metadata, or a tag, whose form is still to
// come.
func complete(n *Node) bool {
	switch n.Kind {
	case Meta, Tag:
		return false
	case Quote, Deref, SyntaxQuote, Unquote, UnquoteSplice, Eval, Discard:
		return complete(n.Kids[0])
	}
	return true
}

func (rd *reader) dispatch(m mark) *Node {
	switch r := rd.peek(); r {
	case '(':
		if rd.inFn > 0 {
			rd.fail(m, "nested function literal")
		}
		rd.adv()
		rd.inFn++
		n := rd.seq(FnLit, m, ')')
		rd.inFn--
		return n
	case '{':
		rd.adv()
		return rd.seq(Set, m, '}')
	case '"':
		rd.adv()
		return rd.str(Regex, m)
	case '_':
		rd.adv()
		return rd.prefix(Discard, m)
	case '=':
		rd.adv()
		return rd.prefix(Eval, m)
	case '^':
		rd.adv()
		return rd.prefix(Meta, m)
	case '!':
		return rd.comment(m)
	case '<':
		rd.fail(m, "unreadable form")
	case '#':
		rd.adv()
		rd.constituents()
		n := rd.node(Symbol, m)
		n.Text = rd.text(m)
		return n
	case '\'':
		rd.adv()
		n := rd.node(VarQuote, m)
		n.Text = rd.plainSymbol()
		n.End = rd.off
		return n
	case '?':
		rd.adv()
		k := ReaderCond
		if rd.peek() == '@' {
			rd.adv()
			k = ReaderCondSplice
		}
		rd.skipBlanks()
		if rd.peek() != '(' {
			rd.failNext()
		}
		rd.adv()
		return rd.seq(k, m, ')')
	case ':':
		start := rd.mark()
		rd.adv()
		rd.constituents()
		ns := rd.text(start)
		rd.skipBlanks()
		if rd.peek() != '{' {
			rd.failNext()
		}
		rd.adv()
		n := rd.seq(Map, m, '}')
		n.Text = ns
		return n
	}
	n := rd.node(Tag, m)
	n.Text = rd.plainSymbol()
	n.End = rd.off
	return n
}

// plainSymbol reads a token on the same line that must be a symbol.
func (rd *reader) plainSymbol() string {
	rd.skipBlanks()
	m := rd.mark()
	r := rd.peek()
	switch {
	case rd.eof():
		rd.fail(m, "unexpected end")
	case strings.ContainsRune("\n:'`;#", r), !IsConstituent(r), r >= '0' && r <= '9':
		rd.failNext()
	}
	rd.adv()
	rd.constituents()
	text := rd.text(m)
	if (r == '+' || r == '-') && len(text) > 1 && text[1] >= '0' && text[1] <= '9' {
		rd.fail(m, "symbol expected")
	}
	return text
}

// failNext rejects the next token, which is not what is needed here. If that
// token is malformed itself, the error is the malformed token's.
func (rd *reader) failNext() {
	m := rd.mark()
	if rd.eof() {
		rd.fail(m, "unexpected end")
	}
	switch r := rd.adv(); {
	case r == '"':
		rd.str(String, m)
	case r == '#' && rd.peek() == '"': // the dispatch is what is unexpected
	case r == '\\' && rd.eof():
		rd.fail(m, "incomplete character literal")
	}
	rd.fail(m, "unexpected token")
}

// Walk calls f for every node in depth-first order.
func Walk(nodes []*Node, f func(n *Node)) {
	for _, n := range nodes {
		f(n)
		Walk(n.Kids, f)
	}
}

// HasGap reports whether a comment or newline stands between a reader prefix
// and its form somewhere.
func HasGap(nodes []*Node) bool {
	for _, n := range nodes {
		if n.Gap || HasGap(n.Kids) {
			return true
		}
	}
	return false
}

// Incomplete reports whether the form that n discards, quotes, ... continues
// after n.
func Incomplete(n *Node) bool {
	switch n.Kind {
	case Meta, Tag:
		return true
	case Quote, Deref, SyntaxQuote, Unquote, UnquoteSplice, Eval, Discard:
		return n.Kids[0].Kind == Discard || Incomplete(n.Kids[0])
	}
	return false
}
