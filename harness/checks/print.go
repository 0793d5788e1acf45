package checks

import (
	"fmt"
	"strings"

	"github.com/cespare/goclj/format"
	"verif/impl"
	"verif/mc"
	"verif/ref"
)

func init() {
	note := "texts the parser or the reader model rejects are left to C02"
	add(&mc.Check{ID: "C09", Run: func(r *mc.Run) { printSpaces(r, judgeC09) }, Assumptions: []string{note}})
	add(&mc.Check{ID: "C10", Run: func(r *mc.Run) { printSpaces(r, judgeC10) }, Assumptions: []string{note}})
	add(&mc.Check{ID: "C11", Run: runC11, Assumptions: []string{note, "the indentation character is the default one"}})
	add(&mc.Check{ID: "C12", Run: runC12, Assumptions: []string{note}})
	add(&mc.Check{ID: "C14", Run: runC14, Assumptions: []string{note}})
	add(&mc.Check{ID: "C15", Run: func(r *mc.Run) { printSpaces(r, judgeC15) }, Assumptions: []string{note}})
	add(&mc.Check{ID: "C16", Run: runC16, Assumptions: []string{note, "columns count characters"}})
	add(&mc.Check{ID: "C19", Run: runC19, Assumptions: []string{note}})
}

// formatted is a source, its tree, and what the formatter makes of it.
type formatted struct {
	src   string
	roots []*ref.Node
	out   string
	after []*ref.Node
}

// format formats src and reads the result with the reference reader. It
// returns nil if src isn't accepted or the case has failed.
func formatCase(c *mc.Case, src string, cfg *impl.Cfg) *formatted {
	roots, rerr := ref.Parse(src)
	if rerr != nil {
		return nil
	}
	return formatParsed(c, src, roots, cfg)
}

func formatParsed(c *mc.Case, src string, roots []*ref.Node, cfg *impl.Cfg) *formatted {
	out, ok, err := impl.Format(src, cfg)
	c.Trans(1)
	if !ok {
		return nil
	}
	c.States(1)
	if err != nil {
		c.Fail(q(src), "%s: printing fails: %v", cfg, err)
		return nil
	}
	c.Valid(1)
	after, aerr := ref.Parse(out)
	if aerr != nil {
		c.Fail(q(src), "%s: the output %s is not well-formed: %v", cfg, q(out), aerr)
		return nil
	}
	c.Outcome(out)
	if c.WantSample() {
		c.Sample(map[string]string{"source": short(src), "formatted": short(out)})
	}
	return &formatted{src, roots, out, after}
}

var cfgOff = &impl.Cfg{Transforms: impl.AllOff}

func judgeC09(c *mc.Case, src string) {
	f := formatCase(c, src, nil)
	if f == nil {
		return
	}
	norm := ref.Norm{Ns: true}
	if a, b := ref.Program(f.roots, norm), ref.Program(f.after, norm); a != b {
		c.Fail(q(src), "formatted as %s, which is another program: %s", q(f.out), diffAt(b, a))
		return
	}
	if _, err := impl.Parse(f.out, impl.Full); err != nil {
		c.Fail(q(src), "formatted as %s, which is rejected: %v", q(f.out), err)
	}
}

// diffAt shows where two canonical texts differ.
func diffAt(got, want string) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	cut := func(s string) string {
		if lo := i - 30; lo > 0 {
			s = s[lo:]
		}
		return fmt.Sprintf("%q", firstN(s, 80))
	}
	return "got " + cut(got) + ", want " + cut(want)
}

// ended returns nodes with the line breaks that comments need if they are not
// to swallow what follows.
func ended(nodes []*ref.Node, delimited bool) []*ref.Node {
	var out []*ref.Node
	for i, n := range nodes {
		m := n
		if len(n.Kids) > 0 {
			cp := *n
			cp.Kids = ended(n.Kids, true)
			m = &cp
		}
		out = append(out, m)
		if n.Kind == ref.Comment {
			if i+1 < len(nodes) && nodes[i+1].Kind != ref.Newline || i+1 == len(nodes) && delimited {
				out = append(out, &ref.Node{Kind: ref.Newline})
			}
		}
	}
	return out
}

func judgeC10(c *mc.Case, src string) {
	f := formatCase(c, src, cfgOff)
	if f == nil {
		return
	}
	norm := ref.Norm{Comments: true, Newlines: true}
	if a, b := ref.Program(ended(f.roots, false), norm), ref.Program(f.after, norm); a != b {
		c.Fail(q(src), "formatted as %s: tokens or line breaks differ: %s", q(f.out), diffAt(b, a))
	}
}

func sameText(c *mc.Case, src string, cfg *impl.Cfg) {
	out, ok, err := impl.Format(src, cfg)
	c.Trans(1)
	if !ok || err != nil {
		return
	}
	c.States(1)
	again, ok, err := impl.Format(out, cfg)
	c.Trans(1)
	c.Valid(1)
	if !ok || err != nil {
		c.Fail(q(src), "%s: the output %s can't be formatted: %v", cfg, q(out), err)
	} else if again != out {
		c.Fail(q(src), "%s: formatted as %s, and formatting that gives %s", cfg, q(out), q(again))
	}
	c.Outcome(out)
	if c.WantSample() {
		c.Sample(map[string]string{"source": short(src), "formatted": short(out)})
	}
}

func runC11(r *mc.Run) {
	masks := []*impl.Cfg{nil, cfgOff, {Transforms: impl.Mask(511)}}
	for i := 0; i < impl.NumTransforms; i++ {
		masks = append(masks, &impl.Cfg{Transforms: impl.Mask(1 << i)})
	}
	printSpaces(r, func(c *mc.Case, src string) {
		for i, cfg := range masks {
			// the ns transforms have nothing to do elsewhere
			if i > 0 && !r.Thorough() && i != 1+int(c.I)%11 || i > 2 && (!strings.Contains(src, "(ns") && i != 5 && i != 6 && i != 7 && i != 8 && i != 9) {
				continue
			}
			if sameText(c, src, cfg); c.Failed() {
				return
			}
		}
	})
	texts := append(append(append([]string{}, nsTexts()...), transformTexts()...), corpus...)
	r.Space("masks", "texts that transforms change under every set of transforms", mc.Size(len(texts), 512), func(c *mc.Case) {
		d := c.Dims(len(texts), 512)
		sameText(c, texts[d[0]], &impl.Cfg{Transforms: impl.Mask(d[1])})
	})
	nsTemplates(r, "nsall", func(c *mc.Case, src string) {
		for i, m := range []int{1 << 7, 1 << 8, 3 << 7, 1<<7 | 1, 1<<7 | 2, 1<<8 | 2, 511 &^ 1, 511 &^ 2} {
			if !r.Thorough() && i != int(c.I)%8 {
				continue
			}
			if sameText(c, src, &impl.Cfg{Transforms: impl.Mask(m)}); c.Failed() {
				return
			}
		}
	})
}

func comments(nodes []*ref.Node) map[string]int {
	m := map[string]int{}
	ref.Walk(nodes, func(n *ref.Node) {
		if n.Kind == ref.Comment {
			m[n.Text]++
		}
	})
	return m
}

func runC12(r *mc.Run) {
	printSpaces(r, judgeC12)
	// The same texts with a comment at the end of a line.
	f := func(c *mc.Case, src string) {
		var ends []int
		for i := range src {
			if src[i] == '\n' {
				ends = append(ends, i)
			}
		}
		for k, at := range ends {
			if (r.Thorough() || k == int(c.I)%len(ends)) && !c.Failed() {
				judgeC12(c, src[:at]+[]string{";i", " ;i", "\n;i\n\n;j"}[int(c.I+int64(k))%3]+src[at:])
			}
		}
	}
	r.Prefix = "commented/"
	layoutSpaces(r, balanced(f))
	transformSpaces(r, closingMid(f))
	nsTemplates(r, "ns", f)
	r.Prefix = ""
}

func judgeC12(c *mc.Case, src string) {
	if !strings.ContainsAny(src, ";!") {
		return
	}
	f := formatCase(c, src, nil)
	if f == nil {
		return
	}
	want, got := comments(f.roots), comments(f.after)
	if fmt.Sprint(want) != fmt.Sprint(got) {
		c.Fail(q(src), "formatted as %s: comments %v, want %v", q(f.out), got, want)
		return
	}
	norm := ref.Norm{Ns: true, Comments: true}
	if a, b := ref.Program(f.roots, norm), ref.Program(f.after, norm); a != b {
		c.Fail(q(src), "formatted as %s: comments moved: %s", q(f.out), diffAt(b, a))
	}
}

// spelling spells a tree with given blanks: blank(i, must) is the text for
// the i-th place where blanks may stand; must says that one is needed there.
// before line breaks, "\n" stands for the break itself.
type spelling struct {
	b     strings.Builder
	i     int
	blank func(i int, must bool) string
	nl    func(i int) string
}

func (s *spelling) gap(must bool) {
	s.b.WriteString(s.blank(s.i, must))
	s.i++
}

func (s *spelling) seq(open, close string, kids []*ref.Node) {
	s.b.WriteString(open)
	s.gap(false)
	for i, k := range kids {
		if k.Kind == ref.Newline {
			nl := s.nl(s.i)
			if i > 0 && kids[i-1].Kind == ref.Comment {
				nl = strings.TrimLeft(nl, " \t,") // these would belong to the comment
			}
			s.b.WriteString(nl)
			s.i++
			s.gap(false)
			continue
		}
		s.node(k)
		if k.Kind == ref.Comment {
			// nothing can be added; a line break follows
			continue
		}
		s.gap(i+1 < len(kids) && kids[i+1].Kind != ref.Newline)
	}
	s.b.WriteString(close)
}

func (s *spelling) prefix(p string, n *ref.Node) {
	s.b.WriteString(p)
	s.gap(p == "~" && n.Kids[0].Kind == ref.Deref)
	s.node(n.Kids[0])
}

func (s *spelling) node(n *ref.Node) {
	switch n.Kind {
	case ref.List:
		s.seq("(", ")", n.Kids)
	case ref.Vector:
		s.seq("[", "]", n.Kids)
	case ref.Set:
		s.seq("#{", "}", n.Kids)
	case ref.FnLit:
		s.seq("#(", ")", n.Kids)
	case ref.Map:
		if n.Text != "" {
			s.b.WriteString("#" + n.Text)
			s.gap(false)
		}
		s.seq("{", "}", n.Kids)
	case ref.ReaderCond:
		s.b.WriteString("#?")
		s.gap(false)
		s.seq("(", ")", n.Kids)
	case ref.ReaderCondSplice:
		s.b.WriteString("#?@")
		s.gap(false)
		s.seq("(", ")", n.Kids)
	case ref.Quote:
		s.prefix("'", n)
	case ref.Deref:
		s.prefix("@", n)
	case ref.SyntaxQuote:
		s.prefix("`", n)
	case ref.Unquote:
		s.prefix("~", n)
	case ref.UnquoteSplice:
		s.prefix("~@", n)
	case ref.Meta:
		s.prefix("^", n)
	case ref.Discard:
		s.prefix("#_", n)
	case ref.Eval:
		s.prefix("#=", n)
	case ref.VarQuote:
		s.b.WriteString("#'")
		s.gap(false)
		s.b.WriteString(n.Text)
	case ref.Tag:
		s.b.WriteString("#")
		s.gap(needsSpace(n.Text))
		s.b.WriteString(n.Text)
	case ref.String:
		s.b.WriteString(`"` + n.Text + `"`)
	case ref.Regex:
		s.b.WriteString(`#"` + n.Text + `"`)
	default:
		s.b.WriteString(n.Text)
	}
}

// needsSpace reports whether a tag reads as something else when it directly
// follows the #.
func needsSpace(tag string) bool {
	roots, err := ref.Parse("#" + tag)
	return err != nil || len(roots) != 1 || roots[0].Kind != ref.Tag || roots[0].Text != tag
}

func spell(roots []*ref.Node, blank func(i int, must bool) string, nl func(i int) string) (text string, places int) {
	s := &spelling{blank: blank, nl: nl}
	s.seq("", "", roots)
	return s.b.String(), s.i
}

var policies = []struct {
	opt, must, nl string
}{
	{" ", " ", "\n"},
	{"", ",", "\r\n"},
	{",", "\t", "\r\n"},
	{"\t \f,", ", ", " \n"},
	{"", "\u00a0", "\n"},
	{strings.Repeat(" ", 23), strings.Repeat(" ", 41), "\t\r\n"},
	{"\r", "\r ", "\n"},
}

func runC14(r *mc.Run) {
	var full bool // every policy and place, or a few of them in turn
	judge := func(c *mc.Case, src string) {
		roots, err := ref.Parse(src)
		if err != nil {
			return
		}
		// The plainest spelling is what all others are compared with.
		roots = ended(roots, false)
		plain, places := spell(roots, func(i int, must bool) string {
			if must {
				return " "
			}
			return ""
		}, func(int) string { return "\n" })
		if check, err := ref.Parse(plain); err != nil || impl.SameTree(check, roots) != "" {
			return // a text the speller can't spell
		}
		type want struct{ on, off string }
		var w want
		var ok bool
		cfgs := []*impl.Cfg{nil, cfgOff}
		if !full {
			cfgs = cfgs[c.I/int64(len(policies))%2:][:1]
		}
		for _, cfg := range cfgs {
			var out string
			if out, ok, _ = impl.Format(plain, cfg); !ok {
				return
			}
			if cfg == nil {
				w.on = out
			} else {
				w.off = out
			}
		}
		c.States(1)
		c.Trans(2)
		try := func(text string) {
			if c.Failed() || text == plain {
				return
			}
			for _, cfg := range cfgs {
				expect := w.on
				if cfg != nil {
					expect = w.off
				}
				out, ok, err := impl.Format(text, cfg)
				c.Trans(1)
				c.States(1)
				c.Valid(1)
				if !ok || err != nil || out != expect {
					c.Fail(q(text), "%s: formatted as %s (%v %v), but %s, which only differs in blanks, as %s", cfg, q(out), ok, err, q(plain), q(expect))
					return
				}
			}
		}
		for i, p := range policies {
			if !full && i != int(c.I)%len(policies) {
				continue
			}
			text, _ := spell(roots, func(i int, must bool) string {
				if must {
					return p.must
				}
				return p.opt
			}, func(int) string { return p.nl })
			try(text)
		}
		if !full || len(src) > 2000 {
			return
		}
		// Every single place.
		for at := 0; at < places; at++ {
			blanks := []string{",", "\t", "     "}
			for j := range blanks {
				bl := blanks[(int(c.I)+at+j)%3]
				text, _ := spell(roots, func(i int, must bool) string {
					switch {
					case i == at:
						return bl
					case must:
						return " "
					}
					return ""
				}, func(i int) string {
					if i == at {
						return bl + "\n"
					}
					return "\n"
				})
				try(text)
				if !r.Thorough() {
					break // one kind of blank per place
				}
			}
		}
		c.Outcome(w.on)
		if c.WantSample() {
			c.Sample(map[string]interface{}{"source": short(plain), "places": places})
		}
	}
	n := 3
	if r.Thorough() {
		n = 4
	}
	full = true
	r.Seqs("tokens", "all sequences of tokens and separators", tokens, 1, n, join(judge))
	r.Seqs("inlist", "all bodies of a list", inlistTokens, 3, n, wrap("(x ", " y)", judge))
	mc.List(r, "corpus", "corpus texts", corpus, judge)
	docSpaces(r, closing(judge))
	full = r.Thorough()
	nsTemplates(r, "ns", judge)
	layoutSpaces(r, balanced(judge))
	transformSpaces(r, closingMid(judge))
	sizeSpaces(r, judge)
	full = false
	placeSpaces(r, judge)
	atomSpaces(r, judge)
	full = r.Thorough()
	// Comments of every kind.
	comments := []string{";", ";;", ";;;", ";;;;", ";;;;;;;;", "; a", ";; a", ";;; a", ";;;; a", ";a ", ";\ta", ";=", ";---", ";!a", "#!a", "#! a", ";(a", ";#_", ";TODO", ";é", ";,a", ";;,", "; -*- a -*-", ";{{{", ";}"}
	product(r, "comments", "every kind of comment everywhere", closingMid(judge), cat(one("", "a", "\n", "[", "(a", "(a\n", "(let [a", "{a", "(ns n (:require", "(ns n (:require\n", "(ns n\n", "(if a", "(defn f", "(-> a\n"), one(" ", "\n", "\n\n"), one(comments...), one("\n"), one("", "b", comments[3]+"\nb", "\nb"), one("!"))...)
}

func judgeC15(c *mc.Case, src string) {
	roots, err := ref.Parse(src)
	if err != nil {
		return
	}
	for _, cfg := range []*impl.Cfg{nil, cfgOff} {
		f := formatParsed(c, src, roots, cfg)
		if f == nil {
			return
		}
		if p := spacing(f.out, f.after, cfg == nil, " "); p != "" {
			c.Fail(q(src), "%s: formatted as %s: %s", cfg, q(f.out), p)
			return
		}
	}
	if c.I%8 == 0 {
		f := formatParsed(c, src, roots, &impl.Cfg{IndentChar: '\t'})
		if f == nil {
			return
		}
		if p := spacing(f.out, f.after, true, "\t"); p != "" {
			c.Fail(q(src), "indented by tabs: formatted as %s: %s", q(f.out), p)
		}
	}
}

// spacing checks the canonical spacing of a formatted text.
func spacing(out string, roots []*ref.Node, def bool, indent string) (problem string) {
	bad := func(at int, format string, args ...interface{}) {
		if problem == "" {
			lo := at - 20
			if lo < 0 {
				lo = 0
			}
			problem = fmt.Sprintf(format, args...) + fmt.Sprintf(" near %q", firstN(out[lo:], 60))
		}
	}
	isIndent := func(s string) bool { return strings.Trim(s, indent) == "" }
	var seq func(kids []*ref.Node, start, end int, n *ref.Node)
	var node func(n *ref.Node)
	seq = func(kids []*ref.Node, start, end int, parent *ref.Node) {
		pos := start
		newlines := 0
		if parent == nil {
			newlines = 1
		}
		first := true    // directly after the opener
		fresh := false   // directly after a line break
		comment := false // the last line ends in a comment
		prev := ref.Set  // kind before
		for _, k := range kids {
			gap := out[pos:k.Off]
			switch {
			case k.Kind == ref.Newline:
				comment = prev == ref.Comment
				if gap != "" {
					bad(k.Off, "%q before a line break", gap)
				}
				if newlines++; newlines > 2 && def {
					bad(k.Off, "two blank lines")
				}
				fresh = true
			case fresh:
				if !isIndent(gap) {
					bad(k.Off, "indentation %q", gap)
				}
			case first:
				if gap != "" {
					bad(k.Off, "%q after an opening delimiter", gap)
				}
			case gap != " ":
				bad(k.Off, "%q between two forms", gap)
			}
			if k.Kind != ref.Newline {
				newlines = 0
				fresh = false
				node(k)
			}
			first = false
			prev = k.Kind
			pos = k.End
		}
		gap := out[pos:end]
		switch {
		case parent == nil:
			if gap != "" {
				bad(end, "%q at the end", gap)
			}
			return
		case fresh:
			if !isIndent(gap) {
				bad(end, "indentation %q", gap)
			}
			if def && !comment && parent.Kind != ref.ReaderCond && parent.Kind != ref.ReaderCondSplice {
				bad(end, "a closing delimiter starts a line")
			}
		case gap != "":
			bad(end, "%q before a closing delimiter", gap)
		}
	}
	prefix := func(n *ref.Node, p string) {
		k := n.Kids[0]
		want := ""
		if n.Kind == ref.Unquote && k.Kind == ref.Deref {
			want = " "
		}
		if got := out[n.Off:k.Off]; got != p+want {
			bad(n.Off, "prefix %q, want %q", got, p+want)
		}
		node(k)
	}
	node = func(n *ref.Node) {
		open := ""
		switch n.Kind {
		case ref.List:
			open = "("
		case ref.Vector:
			open = "["
		case ref.Map:
			open = "{"
			if n.Text != "" {
				open = "#" + n.Text + "{"
			}
		case ref.Set:
			open = "#{"
		case ref.FnLit:
			open = "#("
		case ref.ReaderCond:
			open = "#?("
		case ref.ReaderCondSplice:
			open = "#?@("
		case ref.Quote:
			prefix(n, "'")
		case ref.Deref:
			prefix(n, "@")
		case ref.SyntaxQuote:
			prefix(n, "`")
		case ref.Unquote:
			prefix(n, "~")
		case ref.UnquoteSplice:
			prefix(n, "~@")
		case ref.Meta:
			prefix(n, "^")
		case ref.Discard:
			prefix(n, "#_")
		case ref.Eval:
			prefix(n, "#=")
		case ref.VarQuote:
			if got := out[n.Off:n.End]; got != "#'"+n.Text {
				bad(n.Off, "var quote %q", got)
			}
		case ref.Tag:
			want := "#" + n.Text
			if needsSpace(n.Text) {
				want = "# " + n.Text
			}
			if got := out[n.Off:n.End]; got != want {
				bad(n.Off, "tag %q, want %q", got, want)
			}
		}
		if open == "" {
			return
		}
		if !strings.HasPrefix(out[n.Off:], open) {
			bad(n.Off, "opening delimiter isn't %q", open)
			return
		}
		seq(n.Kids, n.Off+len(open), n.End-1, n)
	}
	seq(roots, 0, len(out), nil)
	return problem
}

// styleCfg gives every style a head that has it only by an override.
var styleCfg = &impl.Cfg{Transforms: impl.AllOff, Indents: map[string]format.IndentStyle{
	"norm": format.IndentNormal, "lst": format.IndentList, "lb": format.IndentListBody, "lt": format.IndentLet, "fr": format.IndentFor,
	"lf": format.IndentLetfn, "dt": format.IndentDeftype, "c0": format.IndentCond0, "c1": format.IndentCond1, "c2": format.IndentCond2, "c4": format.IndentCond4}}

var implStyles = map[format.IndentStyle]ref.Style{format.IndentNormal: ref.Normal, format.IndentList: ref.ListStyle, format.IndentListBody: ref.ListBody,
	format.IndentLet: ref.Let, format.IndentFor: ref.For, format.IndentLetfn: ref.Letfn, format.IndentDeftype: ref.Deftype,
	format.IndentCond0: ref.Cond0, format.IndentCond1: ref.Cond1, format.IndentCond2: ref.Cond2, format.IndentCond4: ref.Cond4}

func settings(cfg *impl.Cfg) ref.Settings {
	var s ref.Settings
	if cfg == nil {
		return s
	}
	s.Indents = map[string]ref.Style{}
	for k, v := range cfg.Indents {
		s.Indents[k] = implStyles[v]
	}
	s.Threading = map[string]ref.Threading{}
	for k, v := range cfg.ThreadFirst {
		s.Threading[k] = ref.ThreadAll
		if v == format.ThreadFirstCondArrow {
			s.Threading[k] = ref.ThreadCond
		}
	}
	return s
}

var styleSettings = settings(styleCfg)

// judgeLayout checks the indentation of every line of the output.
func judgeLayout(c *mc.Case, src string, cfg *impl.Cfg, set ref.Settings) {
	f := formatCase(c, src, cfg)
	if f == nil {
		return
	}
	p, n := ref.CheckLayout(f.out, f.after, set)
	if n > 0 {
		c.Nontrivial(1)
	}
	if p != "" {
		c.Fail(q(src), "%s: formatted as %s: %s", cfg, q(f.out), p)
	}
}

func runC16(r *mc.Run) {
	judge := func(c *mc.Case, src string) {
		judgeLayout(c, src, styleCfg, styleSettings)
	}
	layoutSpaces(r, balanced(judge))
	sizeSpaces(r, judge)
	placeSpaces(r, judge)
	atomSpaces(r, judge)
	// All built-in names, and names that only look like them.
	var names []string
	for name := range ref.BuiltinIndents {
		names = append(names, name)
	}
	names = sorted(names)
	names = append(names, "norm", "lst", "lb", "lt", "fr", "lf", "dt", "c0", "c1", "c2", "c4", "default", "defined", "letter", "with-", "when-x", "with", "whenx", "de", "le", "x/default",
		"x/letter", "x.y/with-z", "a.b/cond", "default/x", "let/x", "ns/", "/", "-def", "abcdefghijkl", "abcdefghijklm", "nil", "true", "->", "->>", "some->", "some->>", "cond->", "é")
	bodies := []string{
		"a\nb\nc\nd\ne", " a\nb\nc\nd\ne", " a b\nc\nd", " a b c\nd\ne\nf", " a b c d e\nf\ng", "\na b\nc d\ne", " [a\nb\nc]\nd", " [:let [a\nb]\nc\n(d e\nf)]\n(g h\ni)", " [(a b\nc)]\n[(d e\nf)]", " a (b c\nd)\n(e f\ng)",
		" ;c\na\nb", " a ;c\nb\nc", " a\n:>>\nb\nc\n:>>\nd", " a b c\n:>>\nd\ne", "", "\n", " a\n\n\nb", " #_a\nb\nc", " ^a\nb\nc", " a #t\nb\nc\nd", " {a\nb}\nc"}
	r.Space("names", "every built-in name and look-alikes with bodies that tell styles apart", mc.Size(len(names), len(bodies), 4), func(c *mc.Case) {
		d := c.Dims(len(names), len(bodies), 4)
		form := []string{"(%s)", "#(%s)", "(foo x (%s))", "[a\n\"b\nc\" (%s)]"}[d[2]]
		judge(c, strings.ReplaceAll(form, "%s", names[d[0]]+bodies[d[1]]))
	})
	// The same through the whole default pipeline.
	def := func(c *mc.Case, src string) { judgeLayout(c, src, nil, ref.Settings{}) }
	mc.List(r, "corpus", "corpus texts under default transforms", corpus, def)
	nsTemplates(r, "ns", def)
	transformSpaces(r, closingMid(def))
	r.Prefix = "default/"
	sizeSpaces(r, def)
	placeSpaces(r, def)
	atomSpaces(r, def)
	r.Prefix = ""
	r.Seqs("tokens", "all sequences of tokens and separators", tokens, 1, 3, join(judge))
}

func runC19(r *mc.Run) {
	judge := func(c *mc.Case, src string) {
		f := formatCase(c, src, cfgOff)
		if f == nil {
			return
		}
		var want, got []*ref.Node
		lits := func(nodes []*ref.Node) (out []*ref.Node) {
			ref.Walk(nodes, func(n *ref.Node) {
				switch n.Kind {
				case ref.String, ref.Regex, ref.Char, ref.Number, ref.Symbol, ref.Keyword, ref.Tag, ref.VarQuote, ref.Nil, ref.Bool:
					out = append(out, n)
				}
			})
			return
		}
		want, got = lits(f.roots), lits(f.after)
		if len(want) != len(got) {
			c.Fail(q(src), "formatted as %s: %d literals, want %d", q(f.out), len(got), len(want))
			return
		}
		docs := ref.Docstrings(f.roots)
		cols := ref.Columns(f.out)
		for i, w := range want {
			text := w.Text
			if docs[w] {
				text = ref.AlignDoc(text, cols[got[i].Off])
			}
			if got[i].Kind != w.Kind || got[i].Text != text {
				c.Fail(q(src), "formatted as %s: %s %q, want %q", q(f.out), got[i].Kind, got[i].Text, text)
				return
			}
		}
	}
	lexicalSpaces(r, judge)
	// The vocabulary of numbers, and of what looks like one.
	product(r, "number", "every spelling of numbers", judge, cat(one("", "(a ", "[+"), one("", "-", "+"), one("", "0", "0x", "0X", "00", "2r", "36R", "16r", "1/", "1.", "0.", "1e", "1E", "0b", "0B", "##", "1_", "08", "#0x"), one("0", "7", "9", "a", "F", "Ff", "deadBEEF", "1010", "10", "Zz", "1e1", "1E1", "1e+1", "1E-10", "1e05", "Inf", "-Inf", "NaN", "123456789012345678901234567890", ".5", "5.", "5.0", "50.500", "1/2", "10/020"),
		one("", "N", "M", "n", "m", "NM", "e", "E5", "e5", "e-5M", ".0", "/3", "r1", "L", "f", "d", "x"), one("", " b"))...)
	docSpaces(r, closing(judge))
	product(r, "doc/forms", "every form around a string", closing2(judge), cat(one("", "a ", "é ", "\"x\ny\" "), one("(ns ", "(def ", "(defn ", "(defmacro ", "(defmulti ", "(defmethod ", "(defonce ", "(x/def "), one("f", "^m f", "[f]", ":f", "f x", "f\n", "f\n\n", "f ;c\n", "f #_d", "f ^m", "f #t"), one(" \"a\n   b\n \n\tc  \"", " #\"a\n   b\n \"", " (\"a\n  b\" x)"), one("!", " x!", ";c\n!", "\n!", "\n;c\n!", " #_x!", " #_x y!", " ^m y!", " nil!", " \"z\n   z\"!"))...)
	layoutSpaces(r, balanced(judge))
	placeSpaces(r, judge)
	atomSpaces(r, judge)
}

func closing2(f srcFunc) srcFunc { return closing(f) }
