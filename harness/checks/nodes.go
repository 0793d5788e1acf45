package checks

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/cespare/goclj"
	"github.com/cespare/goclj/parse"
	"verif/impl"
	"verif/mc"
	"verif/ref"
)

func init() {
	add(&mc.Check{ID: "C31", Run: runC31, Assumptions: []string{
		"the words for the kinds of nodes are the ones the existing tests pin",
		"an odd element in a map (next to discarded or conditional ones) doesn't count as a pair"}})
}

// line is how a node is rendered.
func line(n *ref.Node) string {
	count := 0
	for _, k := range n.Kids {
		if k.Kind != ref.Comment && k.Kind != ref.Newline {
			count++
		}
	}
	seq := func(name string) string { return fmt.Sprintf("%s(length=%d)", name, count) }
	switch n.Kind {
	case ref.Nil, ref.Bool:
		return n.Text
	case ref.Char:
		return fmt.Sprintf("char(%q)", n.Rune)
	case ref.Comment:
		return fmt.Sprintf("comment(%q)", n.Text)
	case ref.Deref:
		return "deref"
	case ref.Keyword:
		return "keyword(" + n.Text + ")"
	case ref.List:
		return seq("list")
	case ref.Map:
		if n.Text != "" {
			return fmt.Sprintf("map(ns=%s, length=%d)", n.Text, count/2)
		}
		return fmt.Sprintf("map(length=%d)", count/2)
	case ref.Meta:
		return "metadata"
	case ref.Newline:
		return "newline"
	case ref.Number:
		return "num(" + n.Text + ")"
	case ref.Symbol:
		return "sym(" + n.Text + ")"
	case ref.Quote:
		return "quote"
	case ref.String:
		return fmt.Sprintf("string(%q)", n.Text)
	case ref.SyntaxQuote:
		return "syntax quote"
	case ref.Unquote:
		return "unquote"
	case ref.UnquoteSplice:
		return "unquote splice"
	case ref.Vector:
		return seq("vector")
	case ref.FnLit:
		return seq("lambda")
	case ref.ReaderCond:
		return seq("reader-cond")
	case ref.ReaderCondSplice:
		return seq("reader-cond-splice")
	case ref.Discard:
		return "discard"
	case ref.Eval:
		return "eval"
	case ref.Regex:
		return fmt.Sprintf("regex(%q)", n.Text)
	case ref.Set:
		return seq("set")
	case ref.VarQuote:
		return "varquote(" + n.Text + ")"
	case ref.Tag:
		return "tag(" + n.Text + ")"
	}
	panic("no such kind")
}

func rendering(nodes []*ref.Node, depth int, b *strings.Builder) {
	for _, n := range nodes {
		for i := 0; i < depth; i++ {
			b.WriteString("  ")
		}
		b.WriteString(line(n))
		b.WriteByte('\n')
		rendering(n.Kids, depth+1, b)
	}
}

// The names helpers are asked about, in lists of up to two.
var askedNames = func() [][]string {
	names := []string{"a", ":k", "", "x", "ns", ":require", "A", ":", "a/b", ":a/b", "1", "nil", "\"s\"", "s"}
	lists := [][]string{nil, {}}
	for _, x := range names {
		lists = append(lists, []string{x}, []string{"zz", x}, []string{x, "zz"}, []string{x, x}, []string{"a", x}, []string{":k", x})
	}
	return append(lists, []string{"p", "q", "r", "a"}, []string{"p", "q", "r", "s", ":k", ":l"})
}()

// judgeHelpers asks the helpers about a node.
func judgeHelpers(c *mc.Case, src string, n parse.Node, want *ref.Node, lists [][]string) {
	ask := func(name string, got, want bool) {
		if got != want {
			c.Fail(q(src), "%s is %v for %s", name, got, q(n.String()))
		}
	}
	ask("Symbol", goclj.Symbol(n), want.Kind == ref.Symbol)
	ask("Newline", goclj.Newline(n), want.Kind == ref.Newline)
	ask("Vector", goclj.Vector(n), want.Kind == ref.Vector)
	ask("Keyword", goclj.Keyword(n), want.Kind == ref.Keyword)
	ask("Comment", goclj.Comment(n), want.Kind == ref.Comment)
	ask("Semantic", goclj.Semantic(n), want.Kind != ref.Newline && want.Kind != ref.Comment && want.Kind != ref.Meta && want.Kind != ref.Tag)
	for _, names := range lists {
		sym, kw := false, false
		if want.Kind == ref.List && len(want.Kids) > 0 {
			head := want.Kids[0]
			is := len(names) == 0
			for _, x := range names {
				is = is || x == head.Text
			}
			sym, kw = is && head.Kind == ref.Symbol, is && head.Kind == ref.Keyword
		}
		if got := goclj.FnFormSymbol(n, names...); got != sym {
			c.Fail(q(src), "FnFormSymbol is %v for %s and names %q", got, q(n.String()), names)
		}
		if got := goclj.FnFormKeyword(n, names...); got != kw {
			c.Fail(q(src), "FnFormKeyword is %v for %s and names %q", got, q(n.String()), names)
		}
	}
}

var parseOptions = []struct {
	opts parse.ParseOpts
	ref  ref.Opts
}{
	{parse.IncludeNonSemantic, ref.Opts{}},
	{0, ref.Opts{Drop: true}},
	{parse.IncludeNonSemantic | parse.IgnoreCommentForm | parse.IgnoreReaderDiscard, ref.Opts{IgnoreComment: true, IgnoreDiscard: true}},
}

func judgeC31(c *mc.Case, src string, opts int, lists [][]string) {
	if !utf8.ValidString(src) {
		return
	}
	o := parseOptions[opts]
	want, werr := ref.ParseOpts(src, o.ref)
	if werr != nil {
		return
	}
	t, err := impl.Parse(src, o.opts)
	if err != nil {
		return // C02
	}
	c.States(1)
	c.Trans(1)
	var b strings.Builder
	rendering(want, 0, &b)
	got := t.String()
	c.Valid(1)
	if got != b.String() {
		c.Fail(q(src), "rendered as %s: %s", q(got), diffAt(got, b.String()))
		return
	}
	c.Outcome(got)
	var walk func(nodes []parse.Node, want []*ref.Node)
	walk = func(nodes []parse.Node, want []*ref.Node) {
		for i, n := range nodes {
			judgeHelpers(c, src, n, want[i], lists)
			walk(n.Children(), want[i].Kids)
		}
	}
	walk(t.Roots, want)
	if c.WantSample() {
		c.Sample(map[string]string{"source": short(src), "rendering": short(got)})
	}
}

func runC31(r *mc.Run) {
	few := [][]string{nil, {"a"}, {":k"}, {"zz", "x", "a", ":k"}}
	judge := func(c *mc.Case, src string) { judgeC31(c, src, 0, few) }
	n := 4
	if r.Thorough() {
		n = 5
	}
	r.Seqs("tokens", "all sequences of tokens and separators", tokens, 1, n, join(judge))
	r.Seqs("inlist", "all bodies of a list", inlistTokens, 3, n+1, wrap("(x ", " y)", judge))
	r.Seqs("char", "all character literals", charBits, 0, n, wrap("\\", " b", judge))
	r.Seqs("string", "all string bodies", stringBits, 0, n+1, wrap("\"", "\" b", judge))
	r.Seqs("regex", "all regex bodies", stringBits, 0, n, wrap("(#\"", "\" b)", judge))
	r.Seqs("comment", "all comments", commentBits, 0, n, wrap("(a ;", "\nb)", judge))
	r.Seqs("atom", "all numbers, symbols and keywords", atomBits, 1, n-1, join(judge))
	runeSpaces(r, judge)
	atomSpaces(r, judge)
	editSpaces(r, judge, []string{"(", "\n", ";c\n", "#_", "a ", ":k ", "^", "'"})
	// Every kind of node as the element of every kind, under all options.
	kinds := []string{"a", ":k", "1", "\"s\"", "\\c", "nil", "true", "false", "#\"r\"", "#'v", ";c\n", "\n", "()", "[]", "#{}", "#()", "#?()", "#?@()", "#_x", "#=x", "'x", "`x", "~x", "~@x", "@x", "^x", "#t", "(a)", "(:k)", "(a :k)", "(:k a)", "(;c\na)", "(\na)", "(#_x a)", "((a))", "('a)", "(\"a\")", "(1)", "[a]", "[:k]", "(nil)", "(^m a)", "(comment x)", "{}", "{:k a}", "#:ns{:k a}", "#::{}", "::k", "%", "x/y", ":x/y", "(A)", "(ns)", "(:require)", "(a/b)", "(:a/b)"}
	frames := []string{"%s %s", "(%s %s)", "[%s %s]", "{%s %s}", "#{%s %s}", "#(x %s %s)", "#?(%s %s)", "#?@(%s %s)", "#:n{%s %s}", "(;c\n%s\n%s)", "'(%s ~(%s))", "(comment %s) #_[%s] b"}
	r.Space("kinds", "every two nodes in every kind of node, under three option sets, asked about every list of names", mc.Size(len(kinds), len(kinds), len(frames), len(parseOptions)), func(c *mc.Case) {
		d := c.Dims(len(kinds), len(kinds), len(frames), len(parseOptions))
		if !r.Thorough() && (d[0]+d[1])%2 > 0 && d[3] > 0 {
			return
		}
		lists := few
		if d[1]%4 == 0 && d[2] < 2 || r.Thorough() {
			lists = askedNames
		}
		judgeC31(c, fmt.Sprintf(frames[d[2]], kinds[d[0]], kinds[d[1]]), d[3], lists)
	})
	open := []string{"(", "[", "{", "#{", "#?(", "'", "@", "#_", "^", "~", "`", "~@", "#="}
	var deep []string
	for _, o := range open {
		for k := 1; k <= 64; k++ {
			s := strings.Repeat(o, k) + " a b "
			if strings.ContainsAny(o, "([{") {
				s += strings.Repeat(closerOf(o), k)
			} else {
				s = strings.Repeat(o, k) + strings.Repeat("a ", k+1)
			}
			deep = append(deep, s, "[ "+s+" z]")
		}
	}
	for _, k := range []int{9, 10, 99, 100, 1000} {
		for _, o := range []string{"(", "[", "{", "#{", "#?("} {
			deep = append(deep, o+strings.Repeat("a ", k)+closerOf(o), o+strings.Repeat("a\n", k)+closerOf(o), o+strings.Repeat("a ;c\n", k)+closerOf(o))
		}
	}
	r.Space("deep", "nesting up to depth 64, up to 1000 elements", int64(len(deep)), func(c *mc.Case) { judge(c, deep[c.I]) })
	// Tokens of every kind, up to 70000 characters long.
	longs := [][2]string{{"", ""}, {":", ""}, {"::", ""}, {"\"", "\""}, {"#\"", "\""}, {";", "\n"}, {"#'", ""}, {"#", " x"}, {"%", ""}, {"#:", "{}"}, {"#!", "\n"}, {"1", ""}}
	fills := []string{"a", "é", "\U0001F600", "\\\""}
	var lengths []int
	for k := 2; k <= 16; k++ {
		lengths = append(lengths, 1<<k-1, 1<<k, 1<<k+1)
	}
	lengths = append(lengths, 20, 50, 72, 80, 100, 120, 200, 500, 1000, 5000, 10000, 70000)
	r.Space("long", "tokens of every kind of every length around the powers of two, up to 70000", mc.Size(len(longs), len(fills), len(lengths)), func(c *mc.Case) {
		d := c.Dims(len(longs), len(fills), len(lengths))
		l, f := longs[d[0]], fills[d[1]]
		if f == "\\\"" && l[1] != "\"" || l[0] == "1" && f != "a" {
			return
		}
		if l[0] == "1" {
			f = "0"
		}
		judge(c, "(a "+l[0]+strings.Repeat(f, lengths[d[2]])+l[1]+" b)")
	})
}
