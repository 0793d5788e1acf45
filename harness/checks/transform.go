package checks

import (
	"strings"

	"verif/impl"
	"verif/mc"
	"verif/ref"
)

func init() {
	note := "texts the parser or the reader model rejects are left to C02"
	add(&mc.Check{ID: "C20", Run: runC20, Assumptions: []string{note}})
	add(&mc.Check{ID: "C21", Run: runC21, Assumptions: []string{note}})
	add(&mc.Check{ID: "C22", Run: runC22, Assumptions: []string{note}})
}

// onMask turns a bit mask into the model's settings.
func onMask(mask int) (on [ref.NumTransforms]bool) {
	for i := range on {
		on[i] = mask>>i&1 == 1
	}
	return
}

var everything = ref.Norm{Comments: true, Newlines: true}

// judgeTransform compares the output under exactly the given transforms with
// what the model makes of the source.
func judgeTransform(c *mc.Case, src string, mask int) {
	roots, err := ref.Parse(src)
	if err != nil {
		return
	}
	judgeParsed(c, src, roots, mask)
}

func judgeParsed(c *mc.Case, src string, roots []*ref.Node, mask int) {
	cfg := &impl.Cfg{Transforms: impl.Mask(mask)}
	f := formatParsed(c, src, roots, cfg)
	if f == nil {
		return
	}
	model := ref.Transform(roots, onMask(mask))
	want, got := ref.Program(model, everything), ref.Program(f.after, everything)
	if want != got {
		c.Fail(q(src), "%s: formatted as %s: %s", cfg, q(f.out), diffAt(got, want))
		return
	}
	if want != ref.Program(ref.Transform(roots, onMask(0)), everything) {
		c.Nontrivial(1)
	}
}

func runC20(r *mc.Run) {
	judge := func(c *mc.Case, src string) {
		judgeTransform(c, src, 1<<ref.EnforceNSStyle)
	}
	nsTemplates(r, "ns", judge)
	atomSpaces(r, judge)
	styleSpaces(r, judge)
}

// styleSpaces explores the parts of ns clauses that restyling looks at.
func styleSpaces(r *mc.Run, f srcFunc) {
	f = closingMid(f)
	heads := []string{"(:require", "(require", "[:require", "[require", "(:require-macros", "[require-macros", "(:import", "(import", "[:import", "(:use", "[use", "(:load", "[load", "(:gen-class", "(gen-class", "(:refer-clojure", "[refer-clojure",
		"{:require", "#{:require", "(\"require\"", "(::require", "(:requires", "(:foo", "[:foo", "(foo", "'(:require", "#_[:require", "^[:require", "^m [:require", "(^m :require", "(\n:require", "(;h\n:require", "#?(:clj [:require", "#(:require", "#?@(:clj [(require", "(x/require", "(:x/require", "()", "(:use-macros", "(:require )[:import"}
	items := []string{"", "b", "java.util.Date", ".b", "b.", "a..b", "a.1", "1.5", "a.b/c", "a.b$c", "é.ü", "nil", "a.nil", "a.-b", "a._b", "(b)", "[b]", "(a B (c))", "[a (b) {c (d)}]", "[b :refer (x ;c\n y) :exclude (z)]", "(b :refer #{x})", "'b", "'(b)", "\"a.b\"", ":a.b", "{a b}", "#{b}",
		"#(b)", "#_b", "#_ #_ b c", "^m b", "^{a.b c} d.e", "#t b", "#?(:clj b)", "#?@(:clj [(b)])", "@b", "b\n\n\nc", "[[b (c)]]", "a.true", "a.b.c", "+.b", "a.b'", "a.false", "%.a", "a.B#", "a.*b*", "a.b:c", "a.{b}"}
	product(r, "style/one", "every clause head with every item", f, cat(one("(ns n"), one(quick(r, seps, 1)...), one(heads...), one("", " ", "\n", "\n\n", ";c\n", " ;c\n\n"), one(items...), one("", " z", "\n"), one("!"))...)
	product(r, "style/where", "clauses wherever they may or may not be in an ns form", f, cat(one("(ns ", "(ns\n", "(\nns ", "(foo ", "[ns ", "(x (ns ", "'(ns ", "#(ns ", "(ns-x ", "(x/ns ", "(:ns ", "(ns(require b) "), one("", "n ", "^m n ", "\"d\" ", "[require c] "),
		one("(require a)", "[:import b.C]", "([:import b.C])", "#_[:import b.C]", "{x [:import b.C]}", "(:foo [:import b.C])", "(:require [:import b.C])", "(:require (:import (b C)))"), one("", " {m [:use x]}", "\n(:import [a\nB])"), one("!"), one("", "\n[require q]", "\n(import a.B)"))...)
	if r.Thorough() {
		product(r, "style/two", "every clause head with every pair of items", f, cat(one("(ns n "), one(heads[:20]...), one(" ", "\n", ";c\n"), one(items...), one(" ", "\n"), one(items...), one("!"))...)
	}
}

func runC21(r *mc.Run) {
	masks := []int{1 << ref.SortImportRequire, 1<<ref.SortImportRequire | 1<<ref.RemoveTrailingNewlines, 1<<ref.SortImportRequire | 1<<ref.EnforceNSStyle}
	judge := func(c *mc.Case, src string) {
		roots, err := ref.Parse(src)
		if err != nil {
			return
		}
		for i, m := range masks {
			if i > 0 && !r.Thorough() && c.I%4 != 0 {
				continue
			}
			if judgeParsed(c, src, roots, m); c.Failed() {
				return
			}
		}
	}
	nsTemplates(r, "ns", judge)
	atomSpaces(r, judge)
	f := closingMid(judge)
	// Every order of items, with ties, comments and unnameable items.
	items := quick(r, []string{"a", "(a x)", "[a.b :as y]", "B", "a-b", "é", "\"s\"", "^m a", "#_a", "[]", "#t b", "(\n a)", "[^m a]", "aa", "{a b}", "#?(:clj a)", "[b]", "a0"}, 13)
	decor := []string{"\n", " ", " ;i\n", "\n;j\n"}
	product(r, "order/3", "every clause of three items", f, cat(one("(ns n\n"), one(quick(r, []string{"(:require", "(:import", "(:require-macros", "(:use", "(require", "[:require"}, 2)...), one("\n", " ", ";h\n"), one(items...), one(decor...), one(items...), one(decor[:3]...), one(items...), one("!", "\n!", ";k\n!", "\n;l\n!"))...)
	few := []string{"a", "(a x)", "[b]", "\"s\"", "^m a", "#_b"}
	n := 4
	if r.Thorough() {
		n = 6
	}
	product(r, "order/n", "every longer clause over a few items", f, cat(one("(ns n (:require"), rep(n, []string{" ", "\n"}, few), one("!"))...)
	cm := []string{" a", " b", "\n", ";x\n", " ^m", " #_c"}
	if r.Thorough() {
		n = 8
	}
	product(r, "comments", "all sequences of items, line breaks and comments", f, cat(one("(ns n (:import"), rep(n+2, cm), one("!"))...)
	// Names that other orders tell apart.
	product(r, "names/2", "every two names", f, cat(one("(ns n\n(:require", "(ns n\n(:import"), one("\n"), one(orderNames...), one("\n"), one(orderNames...), one("!"))...)
	product(r, "names/3", "names among others", f, cat(one("(ns n\n(:require"), one("\n["), one(orderNames...), one(" :as x]\n"), one(orderNames...), one(" [a.b]\n"), one("a10", "a.b", "B", "a-b", "(a2 x)"), one("!"))...)
	// More items than the sort sorts by insertion.
	r.Space("many", "clauses of 16 items with every assignment of two names to eight of them", 1<<8*2, func(c *mc.Case) {
		var b strings.Builder
		b.WriteString("(ns n\n(:require\n")
		for i := 0; i < 16; i++ {
			name := "b"
			if i%2 == 1 {
				name = "c"
			} else if c.I>>(i/2)&1 == 1 {
				name = "a"
			}
			if c.I>>8 == 1 && i%5 == 4 {
				b.WriteString(";c" + itoa(i) + "\n")
			}
			b.WriteString("[" + name + " :as x" + itoa(i) + "]\n")
		}
		b.WriteString("))")
		judge(c, b.String())
	})
}

// orderNames are compared byte by byte.
var orderNames = []string{"a", "a1", "a2", "a10", "a01", "a1b", "a10b", "a2b", "a.b", "a.b.c", "a.b-c", "a-b", "a_b", "a/b", "ab", "aB", "A", "A1", "Ab", "B", "b", "a'", "a*", "a!", "a?", "a+b", "a$b", "a<", "a.1", "a.10", "a.2", "a.A", "a.z", "a.", ".a", "aa", "aaa", "z",
	"é", "e", "É", "f", "日本", "\u0065\u0301", "\U0001F600", "\uffee", "aé", "az", "_a", "-a", "*a*", "%a", "a#", "java.util", "java.util.Date", "java", "javax.x", "clojure.string", "cljs.core"}

func runC22(r *mc.Run) {
	var masks []int
	for _, t := range []int{ref.RemoveTrailingNewlines, ref.FixDefnArglist, ref.FixDefmethodDispatchVal, ref.RemoveExtraBlankLines, ref.FixIfNewlines} {
		masks = append(masks, 1<<t)
	}
	masks = append(masks, 0x7c)
	subsets := func(c *mc.Case, src string) {
		roots, err := ref.Parse(src)
		if err != nil {
			return
		}
		for m := 0; m < 32; m++ {
			if !r.Thorough() && m != 31 && m&(m-1) != 0 && m != 3+int(c.I)%28 {
				continue
			}
			if judgeParsed(c, src, roots, m<<2); c.Failed() {
				return
			}
		}
	}
	judge := func(c *mc.Case, src string) {
		roots, err := ref.Parse(src)
		if err != nil {
			return
		}
		for i, m := range masks {
			if !r.Thorough() && i != int(c.I)%6 && i < 5 {
				continue
			}
			if judgeParsed(c, src, roots, m); c.Failed() {
				return
			}
		}
	}
	mc.List(r, "texts", "texts that the transforms change", transformTexts(), subsets)
	mc.List(r, "corpus", "corpus texts", corpus, subsets)
	transformSpaces(r, closingMid(judge))
	placeSpaces(r, judge)
	atomSpaces(r, judge)
	f := closingMid(judge)
	heads := []string{"(if", "(if-not", "(if-let", "(if-some", "(defn", "(defmethod"}
	els := []string{"a", "[b]", ":k", ";c\n", "^m", "#_d", "(e\n)"}
	product(r, "arms", "every form of up to four arguments with every line break", f, cat(one("", "(z ", "(if x\n"), one(heads...), rep(3, []string{" ", "\n", "\n\n"}, els), one("", " f", "\n", "\n\n\n"), one("!"))...)
	before := []string{"", "^m ", "^m ^n ", "^m\n^n ", "^m ^n\n", "#_d ^m ", "#_d #_e ", "^m #_d ", "#_\nd ", ";c\n^m ", "^m ;c\n", "#_ #_ d e ", "^m ^n ^o ", "^{:k\nv} ^n ", "#t ^m ", "^m '"}
	product(r, "prefixes", "forms with arms that metadata, discards and comments come before", f, cat(one("", "(z "), one(heads...), one(" a"), one(" ", "\n"), one(before...), one("b"), one(" ", "\n", "\n\n"), one(before...), one("c"), one("!", "\n!", " ^m d!"))...)
	product(r, "seq", "all sequences of line breaks, comments and forms in a list", f, cat(one("(", "[", "#?(", "#{"), rep(5, []string{"", "\n", "\n\n\n", ";c\n", " a", "(b\n)", "^m", "'(\n\n\n)"}), one("!"), one("", "\n\n\n"))...)
	n := 3
	if r.Thorough() {
		n = 4
	}
	r.Seqs("tokens", "all sequences of tokens and separators", tokens, 1, n, join(judge))
}
