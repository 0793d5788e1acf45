package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"unicode/utf8"

	"github.com/cespare/goclj/parse"
	"verif/impl"
	"verif/mc"
	"verif/ref"
)

// All lists the checks.
var All []*mc.Check

func add(c *mc.Check) { All = append(All, c) }

func short(s string) string {
	if len(s) > 300 {
		return s[:150] + "..." + s[len(s)-100:]
	}
	return s
}

func q(s string) string {
	if len(s) > 400 {
		return fmt.Sprintf("%q... (%d bytes) ...%q", s[:150], len(s), s[len(s)-100:])
	}
	return fmt.Sprintf("%q", s)
}

func isPanic(err error) bool { return err != nil && strings.HasPrefix(err.Error(), "PANIC") }

func init() {
	add(&mc.Check{ID: "C01", Run: runC01, Assumptions: []string{
		"termination: a case that runs for 60 s, or uses 8 GB, counts as not terminating (normal cases take microseconds)"}})
	add(&mc.Check{ID: "C02", Run: func(r *mc.Run) { lexicalSpaces(r, judgeC02) }, Assumptions: []string{
		"texts are valid UTF-8", "the reference reader states what well-formed means; number bodies, a lone colon and ## names are not validated, as in goclj"}})
	add(&mc.Check{ID: "C03", Run: runC03, Assumptions: []string{"columns and offsets count bytes; an unterminated string is reported where it starts"}})
	add(&mc.Check{ID: "C04", Run: runC04, Assumptions: []string{
		"a list headed by comment after a discard that itself misses a form is left out unless discards are ignored, too"}})
}

var maskDefault = map[string]*impl.Cfg{}

func runC01(r *mc.Run) {
	allOn := &impl.Cfg{Transforms: impl.Mask(511)}
	allOff := &impl.Cfg{Transforms: impl.AllOff}
	judge := func(c *mc.Case, src string) {
		c.States(1)
		var accepted *parse.Tree
		nacc := 0
		for opts := parse.ParseOpts(0); opts < 8; opts++ {
			if len(src) > 3 && opts != impl.Full && opts != 7 {
				continue
			}
			t, err := impl.Parse(src, opts)
			c.Trans(1)
			if isPanic(err) {
				c.Fail(q(src), "parsing with options %d: %v", opts, err)
				return
			}
			if (t == nil) == (err == nil) {
				c.Fail(q(src), "parsing with options %d: tree %v and error %v", opts, t != nil, err)
				return
			}
			if opts == impl.Full {
				accepted = t
			}
			if t != nil {
				nacc++
			}
		}
		c.Valid(1)
		c.Outcome(fmt.Sprint(nacc, accepted != nil))
		if accepted == nil {
			return
		}
		if s := render(accepted, src); s == "" && len(accepted.Roots) > 0 {
			c.Fail(q(src), "empty rendering of a non-empty tree")
			return
		}
		for i, cfg := range []*impl.Cfg{nil, allOff, allOn} {
			t := accepted
			if i > 0 {
				t, _ = impl.Parse(src, impl.Full)
			}
			out, err := impl.Print(t, cfg)
			c.Trans(1)
			if err != nil {
				c.Fail(q(src), "printing (setting %d of default, all off, all on): %v", i, err)
				return
			}
			if i == 0 {
				c.Outcome(out)
			}
		}
		if c.WantSample() {
			c.Sample(map[string]string{"source": short(src)})
		}
	}
	lexicalSpaces(r, judge)
	abyssSpaces(r, judge)
	repeatSpaces(r, judge)
	bytesAlpha := []string{"\x80", "\xff", "\xc3", "\xe2\x82", "\xf0", "\xed\xa0\x80", "\x00", "(", ")", "\"", "\\", ";", "#", "a", " ", "\n", ":", "'"}
	r.Seqs("bytes", "all strings over invalid UTF-8 and structure", bytesAlpha, 1, 4, join(judge))
	transformSpaces(r, closingMid(judge))
	placeSpaces(r, judge)
	atomSpaces(r, judge)
	docSpaces(r, closing(judge))
	// Every transform set on texts that trigger transforms.
	texts := nsTexts()
	texts = append(texts, corpus...)
	texts = append(texts, transformTexts()...)
	r.Space("masks", "every corpus and ns text under every transform set", mc.Size(len(texts), 512), func(c *mc.Case) {
		d := c.Dims(len(texts), 512)
		src := texts[d[0]]
		t, err := impl.Parse(src, impl.Full)
		if err != nil {
			return
		}
		c.States(1)
		c.Trans(2)
		out, err := impl.Print(t, &impl.Cfg{Transforms: impl.Mask(d[1])})
		if err != nil {
			c.Fail(q(src), "printing with transform set %09b: %v", d[1], err)
			return
		}
		c.Outcome(out)
	})
	nsTemplates(r, "ns", func(c *mc.Case, src string) {
		t, err := impl.Parse(src, impl.Full)
		c.States(1)
		c.Trans(1)
		if err != nil {
			return
		}
		for _, cfg := range []*impl.Cfg{allOn, nil} {
			if t == nil {
				t, _ = impl.Parse(src, impl.Full)
			}
			if _, err := impl.Print(t, cfg); err != nil {
				c.Fail(q(src), "printing: %v", err)
				return
			}
			t = nil
			c.Trans(1)
		}
	})
}

func judgeC02(c *mc.Case, src string) {
	if !utf8.ValidString(src) {
		return
	}
	c.States(1)
	c.Trans(1)
	want, werr := ref.Parse(src)
	t, err := impl.Parse(src, impl.Full)
	c.Valid(1)
	if isPanic(err) {
		c.Fail(q(src), "%v", err)
		return
	}
	if (err == nil) != (werr == nil) {
		c.Fail(q(src), "goclj says %v, the reader model says %v", err, errOrNil(werr))
		return
	}
	if err != nil {
		c.Outcome("rejected")
		return
	}
	got, cerr := impl.Convert(t.Roots)
	if cerr != nil {
		c.Fail(q(src), "%v", cerr)
		return
	}
	if d := impl.SameTree(got, want); d != "" {
		c.Fail(q(src), "wrong tree: %s", d)
		return
	}
	c.Outcome(shape(want))
	if c.WantSample() {
		c.Sample(map[string]string{"source": short(src), "tree": short(shape(want))})
	}
}

func errOrNil(e *ref.Err) interface{} {
	if e == nil {
		return "accepted"
	}
	return e.Error()
}

// shape renders a tree compactly.
func shape(nodes []*ref.Node) string {
	var b strings.Builder
	var rec func(ns []*ref.Node)
	rec = func(ns []*ref.Node) {
		for _, n := range ns {
			b.WriteString(n.Kind.String())
			if n.Text != "" {
				fmt.Fprintf(&b, "%q", n.Text)
			}
			if len(n.Kids) > 0 {
				b.WriteByte('(')
				rec(n.Kids)
				b.WriteByte(')')
			}
			b.WriteByte(' ')
		}
	}
	rec(nodes)
	return b.String()
}

func runC03(r *mc.Run) {
	names := []string{impl.Name, "", "a b.clj", "%d%s", "dir/ñ.clj"}
	lexicalSpaces(r, func(c *mc.Case, src string) { judgeC03(c, src, impl.Name) })
	r.Space("names", "every corpus text and its truncations under every source name", mc.Size(len(corpus), len(names)), func(c *mc.Case) {
		d := c.Dims(len(corpus), len(names))
		for i := 0; i <= len(corpus[d[0]]) && !c.Failed(); i++ {
			judgeC03(c, corpus[d[0]][:i], names[d[1]])
		}
	})
	// The name is the file name as it was given.
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "names-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	base := filepath.Base(dir)
	cwd, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	if c, err := filepath.EvalSymlinks(cwd); err == nil {
		cwd = c
	}
	rel := "."
	if real, err := filepath.EvalSymlinks(dir); err == nil {
		if rl, err := filepath.Rel(cwd, real); err == nil {
			rel = rl
		}
	}
	dirs := []string{dir, dir + "/.", dir + "/", dir + "/../" + base, "/." + dir, "/" + dir, "//" + dir, dir + "/././/", dir + "/sub/..", dir + "/link", dir + "/link/../" + base, rel, "./" + rel, rel + "/sub/../"}
	leaves := []string{"f.clj", "a b.clj", "%d%s", "ñ.clj", "..x", "-", "-x.clj", "a:1:2.clj", "a\nb", "x.cljs.", "\xff.clj", "\\", "\"q\""}
	os.Mkdir(filepath.Join(dir, "sub"), 0700)
	os.Symlink(".", filepath.Join(dir, "link"))
	r.Space("files", "texts from files under every spelling of their names", mc.Size(len(corpus), len(dirs), len(leaves)), func(c *mc.Case) {
		d := c.Dims(len(corpus), len(dirs), len(leaves))
		leaf := leaves[d[2]]
		src := corpus[d[0]]
		if c.I%3 == 0 && len(src) > 0 {
			src = src[:int(c.I)%len(src)]
		}
		// each case has its own file, whose name ends in the leaf
		unique := fmt.Sprintf("%d-%d", c.I, c.Worker) + leaf
		path := dirs[d[1]] + "/" + unique
		if err := os.WriteFile(filepath.Join(dir, unique), []byte(src), 0600); err != nil {
			return
		}
		defer os.Remove(filepath.Join(dir, unique))
		judgeNamed(c, src, path, func() (t *parse.Tree, err error) {
			defer func() {
				if e := recover(); e != nil {
					t, err = nil, fmt.Errorf("PANIC: %v", e)
				}
			}()
			return parse.File(path, impl.Full)
		})
	})
}

func judgeC03(c *mc.Case, src, name string) {
	judgeNamed(c, src, name, func() (*parse.Tree, error) { return parseNamed(src, name) })
}

func judgeNamed(c *mc.Case, src, name string, run func() (*parse.Tree, error)) {
	c.States(1)
	c.Trans(1)
	want, werr := ref.Parse(src)
	t, err := run()
	if (err == nil) != (werr == nil) {
		return // C02's business
	}
	c.Valid(1)
	if err != nil {
		if isPanic(err) {
			return
		}
		at := fmt.Sprintf("%s:%d:%d", name, werr.Line, werr.Col)
		msg := err.Error()
		i := strings.Index(msg, at)
		if i < 0 || i+len(at) < len(msg) && msg[i+len(at)] >= '0' && msg[i+len(at)] <= '9' {
			c.Fail(q(src), "error %q should be at %s (%s)", msg, at, werr.Msg)
		}
		c.Outcome(at)
		return
	}
	got, cerr := impl.Convert(t.Roots)
	if cerr != nil || impl.SameTree(got, want) != "" {
		return // C02's business
	}
	if d := impl.SameTreePos(got, want); d != "" {
		c.Fail(q(src), "wrong position: %s", d)
		return
	}
	if d := nameDiff(t.Roots, name); d != "" {
		c.Fail(q(src), "%s", d)
	}
	if c.WantSample() {
		c.Sample(map[string]string{"source": short(src)})
	}
	n := 0
	ref.Walk(want, func(*ref.Node) { n++ })
	c.Outcome(fmt.Sprint(n, len(src)))
}

func parseNamed(src, name string) (t *parse.Tree, err error) {
	defer func() {
		if e := recover(); e != nil {
			t, err = nil, fmt.Errorf("PANIC: %v", e)
		}
	}()
	return parse.Reader(strings.NewReader(src), name, impl.Full)
}

func nameDiff(nodes []parse.Node, name string) string {
	for _, n := range nodes {
		p := n.Position()
		if p == nil {
			return fmt.Sprintf("%s has no position", n)
		}
		if p.Name != name {
			return fmt.Sprintf("%s is in source %q, want %q", n, p.Name, name)
		}
		if d := nameDiff(n.Children(), name); d != "" {
			return d
		}
	}
	return ""
}

// optTokens are what the parse options react to.
var optTokens = []string{"(comment a)", "(comment", ")", "#_", "a", ";c\n", "\n", "^:m ", "#t ", "'", "(", "[", "]", " comment "}

func runC04(r *mc.Run) {
	n := 5
	if r.Thorough() {
		n = 6
	}
	r.Seqs("opttokens", "all sequences of tokens the options react to, x 8 options", optTokens, 1, n, join(judgeC04))
	small := []string{"#_", "a ", "'", "^", "#t ", "(", ")", "comment "}
	r.Seqs("discards", "all nestings of discards, metadata, tags and quotes", small, 5, n+1, join(judgeC04))
	r.Seqs("tokens", "all sequences of tokens and separators", tokens, 1, n-2, join(judgeC04))
	r.Seqs("inlist", "all bodies of a list", inlistTokens, 3, n-1, wrap("(x ", " y)", judgeC04))
	// Heads that are almost the symbol comment.
	heads := []string{"comment", "clojure.core/comment", "a/comment", "/comment", "comment/a", "comment/", "Comment", "COMMENT", "comments", "comment*", "comment.", ".comment", "comment!", "comment?", "-comment", "+comment", "comment-", "xcomment", "commen", "comment1", "comment'", "comment#", "%comment", ":comment", "::comment", ":a/comment", "\"comment\"", "\\c", "#comment a", "# comment a", "#'comment", "'comment", "`comment", "~comment", "@comment", "^comment a", "^a comment", "#_a comment", "#_comment a", "#_#_a b comment", ";c\ncomment", "\ncomment", ",comment", "(comment)", "[comment]", "(comment a) comment", "do comment", "nil comment", "comment comment", "quote comment"}
	around := []string{"(%s)", "(%s x)", "a (%s x) b", "[(%s x)]", "(a (%s x) c)", "{(%s x) b}", "#{(%s x)}", "#(%s x)", "#?(%s x)", "#?(:clj (%s x))", "#?@(:clj [(%s x)])", "'(%s x)", "`(%s x)", "~(%s x)", "@(%s x)", "^(%s x) a", "#t (%s x)", "# t (%s x)", "#_(%s x) a", "#_#_(%s x) a", "#=(%s x)", "'[(%s x)]", "(quote (%s x))", "'('(%s x))", "[%s x]", "{%s x}", "#:a{(%s x) b}", "((%s x) (%s y))", "(comment (%s x))"}
	r.Space("heads", "forms with a head like comment at every kind of place", mc.Size(len(heads), len(around)), func(c *mc.Case) {
		d := c.Dims(len(heads), len(around))
		judgeC04(c, strings.ReplaceAll(around[d[1]], "%s", heads[d[0]]))
	})
	editSpaces(r, judgeC04, []string{"#_", "(comment ", ")", ";", "\n", "^"})
}

func judgeC04(c *mc.Case, src string) {
	full, ferr := ref.Parse(src)
	risky := ferr == nil && headAfterIncompleteDiscard(full)
	for opts := parse.ParseOpts(0); opts < 8; opts++ {
		o := ref.Opts{Drop: opts&parse.IncludeNonSemantic == 0, IgnoreComment: opts&parse.IgnoreCommentForm != 0,
			IgnoreDiscard: opts&parse.IgnoreReaderDiscard != 0}
		if risky && o.IgnoreComment {
			continue
		}
		c.States(1)
		c.Trans(1)
		want, werr := ref.ParseOpts(src, o)
		t, err := impl.Parse(src, opts)
		if isPanic(err) {
			return
		}
		c.Valid(1)
		if (err == nil) != (werr == nil) {
			if opts == impl.Full {
				return // C02's business
			}
			c.Fail(q(src), "options %d: goclj says %v, the model says %v", opts, err, errOrNil(werr))
			return
		}
		if err != nil {
			continue
		}
		got, cerr := impl.Convert(t.Roots)
		if cerr != nil {
			return
		}
		if d := impl.SameTreePos(got, want); d != "" {
			if base, err := impl.Parse(src, impl.Full); err == nil {
				if g, err := impl.Convert(base.Roots); err != nil || impl.SameTreePos(g, full) != "" {
					return // wrong without options, too: C02's or C03's business
				}
			}
			c.Fail(q(src), "options %d: wrong tree: %s", opts, d)
			return
		}
		c.Outcome(shape(want))
	}
	if c.WantSample() {
		c.Sample(map[string]string{"source": short(src)})
	}
}

// headAfterIncompleteDiscard reports whether a list starts with a discard
// whose form continues after it, as in (#_ #_ a b comment).
func headAfterIncompleteDiscard(nodes []*ref.Node) bool {
	bad := false
	ref.Walk(nodes, func(n *ref.Node) {
		if n.Kind != ref.List {
			return
		}
		for _, k := range n.Kids {
			switch k.Kind {
			case ref.Newline, ref.Comment:
				continue
			case ref.Discard:
				if ref.Incomplete(k) {
					bad = true
				}
				continue
			}
			return
		}
	})
	return bad
}

// render renders a tree unless it is so big that (by its indentation) the
// rendering is huge.
func render(t *parse.Tree, src string) string {
	if len(src) > 600 {
		return "skipped"
	}
	return t.String()
}
