package checks

import (
	"sort"
	"strconv"
	"strings"

	"verif/mc"
)

// product explores every choice of one alternative from each slot.
func product(r *mc.Run, name, what string, f srcFunc, slots ...[]string) {
	n := int64(1)
	for _, s := range slots {
		n *= int64(len(s))
	}
	r.Space(name, what, n, func(c *mc.Case) { f(c, pick(c.I, slots)) })
}

func pick(x int64, slots [][]string) string {
	parts := make([]string, len(slots))
	for j := len(slots) - 1; j >= 0; j-- {
		k := int64(len(slots[j]))
		parts[j] = slots[j][x%k]
		x /= k
	}
	return strings.Join(parts, "")
}

// rep repeats slots k times.
func rep(k int, slots ...[]string) [][]string {
	var out [][]string
	for i := 0; i < k; i++ {
		out = append(out, slots...)
	}
	return out
}

func cat(slots ...[][]string) [][]string {
	var out [][]string
	for _, s := range slots {
		out = append(out, s...)
	}
	return out
}

func one(alts ...string) [][]string { return [][]string{alts} }

var (
	seps  = []string{" ", "\n"}
	seps3 = []string{" ", "\n", "\n\n"}
	seps4 = []string{" ", "\n", "\n\n", "\n\n\n"}
	// styleHeads has a head for every style and lookup path.
	styleHeads = []string{"(foo", "(let", "(for", "(letfn", "(deftype", "(cond", "(case", "(condp", "(c4", "(defx", "(->", "(cond->", "(some->", "(:kw",
		"(if", "(averyverylongname", "(x/let", "(x/with-y", "#(foo", "#(let", "[a", "{a", "#{a", "#?(a", "(norm", "(\"s\"", "((a)", "(lst", "#:n{a"}
	closers = map[string]string{"(": ")", "[": "]", "{": "}"}
	elems   = []string{"a", "[b\nc]", "(d\ne)", ";c\n", "#_x", "^m", ":>>", "#t", "\"s\nt\""}
	elems4  = []string{"a", "(d e\nf)", ";c\n", "^m"}
)

// closerOf returns the delimiter that closes an opener such as "#?(".
func closerOf(open string) string {
	i := strings.IndexAny(open, "([{")
	return closers[open[i:i+1]]
}

// layoutSpaces explores forms of every style with every arrangement of line
// breaks.
func layoutSpaces(r *mc.Run, f srcFunc) {
	body := func(k int, es []string, heads []string) {
		for _, h := range heads {
			slots := cat(one(h), rep(k, seps, es), one("", "\n"), one(closerOf(h)))
			name := strings.NewReplacer("(", "L", "[", "V", "{", "M", "#", "H", " ", "", "\"", "Q", "/", ".", ":", "K", ">", "T", "?", "C").Replace(h)
			product(r, "form/"+name+"/"+itoa(k), "every body of this many elements", f, slots...)
		}
	}
	for k := 0; k <= 2; k++ {
		body(k, elems, styleHeads)
	}
	body(3, elems, styleHeads)
	body(4, elems4, styleHeads)
	if r.Thorough() {
		body(4, elems, []string{"(foo", "(cond", "(condp", "(let", "{a"})
		body(5, elems4, styleHeads)
	}
	// Bindings, methods, functions: bodies of the special vectors and lists.
	binds := []string{"(let [", "(for [", "(for [x y :let [", "(for [x y\n:let\n[", "(letfn [(f ", "(letfn [", "(deftype T ", "(deftype T [a] (m ", "{", "#?(", "#?@(", "#:a{", "(lt ^m [", "(let\n[",
		"(if-let [", "(fr [", "(x/fr [", "(deftype\nT (m", "#(for [", "(letfn [(", "(letfn [(\n", "(-> [", "(for [a b :let ^m [", "(for [:let x [", "(let [:let [", "(for [x y :let ;c\n[", "(for [x y :let #_z [", "(for [x y\n:let ;c\n;d\n^m [", "(let ;c\n[", "(letfn ;c\n[(f ", "(deftype T ;c\n(m ", "(for ;c\n[x y :let["}
	es := []string{"a", "(let [b\nc] d)", ";c\n", "^m", "#_x", ":let [c\nd]", "(e f\ng)"}
	for _, b := range binds {
		cl := unclose(b)
		last := len(cl) - 1
		product(r, "bind/"+clean(b), "every body of a special position", f,
			cat(one(b), rep(3, seps, es), one("", "\n"), one(cl[:last]+" z\ny"+cl[last:]))...)
	}
	// Nesting of two styles.
	outer := []string{"(foo ", "(defx ", "(cond ", "(case\n", "(let [", "(:kw ", "[", "{", "(-> ", "(->\n", "(cond-> ", "#(foo ", "#{", "(letfn [(", "(deftype ", "((", "#?(", "(averyverylongname ;c\n", "'(", "~@(foo ", "#_(foo ", "^{", "`[", "@(foo ", "#=(foo ", "#:n{", "(lst\n", "(x/foo ", "#?@("}
	inner := []string{"(foo ", "(defx ", "(cond ", "(case x ", "(condp x y ", "(assoc x ", "(c4 ", "(let [", "[", "{", "(-> ", "(cond-> ", "(some-> ", "#(case ", "#(-> ", "#{", "(:kw ", "#?(", "'(foo ", "^(foo ", "\"s\nt\" (foo "}
	for _, o := range outer {
		product(r, "nest/"+clean(o), "every style nested in this one", f,
			cat(one(o), one("", "x ", "x\n", "x y "), one(inner...), one("a", "a b", "a\nb", "a b\nc", "a\nb\nc", "\na b\nc", "a b c\nd"),
				one("@"), one(seps...), one("z", "(foo a\nb)", "(case a\nb)"), one("", "\n"), one(unclose(o)))...)
	}
	// Reader prefixes.
	prefixes := []string{"'", "`", "~", "~@", "@", "^", "#^", "#_", "#=", "#'", "# ", "#", "~ @", "# _", "#_ #_ ", "^m ", "^m\n", "#t ", "#t\n", "^{a\nb} "}
	gaps := []string{"", " ", "\n", ";c\n", "\n;c\n;d\n"}
	if !r.Thorough() {
		prefixes = []string{"'", "~", "@", "^", "#_", "#=", "#'", "# ", "# _", "^m ", "#t\n", "^{a\nb} "}
		gaps = []string{"", " ", "\n;c\n"}
	}
	prod := func(name string, n int) {
		var slots [][]string
		slots = append(slots, []string{"", "(x "})
		for i := 0; i < n; i++ {
			slots = append(slots, prefixes, gaps)
		}
		slots = append(slots, []string{"a", "(b c\nd)", "[e]", "\"s\nt\"", "{f\ng}"}, []string{"", "\n"}, []string{" z) y", "\nz) y"})
		product(r, name, "every stack of reader prefixes, with gaps", func(c *mc.Case, src string) {
			if !strings.HasPrefix(src, "(x ") {
				src = "(" + src
			}
			f(c, src)
		}, slots...)
	}
	prod("prefix/1", 1)
	prod("prefix/2", 2)
	// Characters wider than a byte, and tokens with line breaks, before
	// things that are aligned.
	wide := []string{"é", "日本", "\"é\"", "\"é\nü\"", "#\"é\nüü\"", "\\é", ":é", "(é)", "\"\n\"", "#é", "^é", "#'é", "#_é", "#é{}", "\"a\n bcd\" \"e\nf\"", "\U0001F600"}
	product(r, "wide", "what follows wide and multi-line tokens", f,
		cat(one("(foo ", "(", "[", "(let [", "(cond ", "{", "(case ", "(-> ", "#?(", "(defx "), one(wide...), one(seps...), one("a", "(foo b\nc)", "(case b\nc)", "[d\ne]"), one("@"), one(" f", "\nf"))...)
}

// places are where a form, for which % stands, can be.
var places = []string{"(if %\na b)", "(if a %\nb)", "(if a\nb %)", "(if-let [a %]\nb c)", "(% a\nb)", "(foo %\na)", "(foo a\n%)", "(foo\n%)", "(:k a\n%)", "[%]", "[a\n% b]", "{%\n1}", "{a\n%}", "#{%\na}", "#:n{:a\n%}", "#(% a\nb)", "#(foo %)",
	"'%", "`%", "~%", "~@%", "@%", "^% a", "^{:m %} a", "^m %", "#t %", "#_%", "#_ #_ a %", "#=%", "#?(:clj %\n:cljs a)", "#?(% a)", "#?@(:clj [%])", "(comment %)", "(defn a [b]\n%)", "(defn a\n[%]\nb)", "(defmethod a %\nb)", "(defmethod a :b\n%)",
	"(let [a %\nb c] d)", "(let [%\na]\nb)", "(let [a b]\n%)", "(for [a b :let [%\nc]] d)", "(letfn [(f [x]\n%)] a)", "(letfn [(f %\nb)] a)", "(letfn [^m %] a)", "(deftype T [a]\n(m [b]\n%))", "(deftype T [a]\n^m %)", "(cond a\n% b\nc)", "(cond %\na)", "(case % a\nb)", "(condp a b %\nc)",
	"(condp a b c :>>\n%)", "(-> % a\n(case b c\nd))", "(-> a %\n(case b c\nd))", "(cond-> a % b\n(case b c\nd))", "(cond-> a b %)", "(% :a\n:b)", "(ns a (:foo %))", "(ns a (:require %))", "(ns a ^{:m %} (:import b))", "(def a \"b\nc\" %)", "%\na", "a %", ";c\n%", "(a %;c\n)", "(a\n\n\n%\n\n\n)"}

// placed are forms whose layout or line breaks depend on what they are.
var placed = []string{"(if a b\nc)", "(if-let [a\nb] c d\n)", "[a\n]", "{:a\n\n\n\n:b\n}", "#:n{a\nb\n}", "#{a ;c\n}", "(-> a\n(case b c\nd))", "(cond-> a b\n(case c d\ne))", "(case a\nb c\nd)", "(let [a\nb] c\nd)", "(for [a\nb :let [c\nd]] e\nf)", "(letfn [(f [x]\ny)] z)",
	"(deftype A [b]\n(c [d]\ne))", "(condp a b c :>>\nd e\nf)", "#?(:clj\na :cljs b)", "#(if % a\nb)", "#_(a\nb)", "^m [a\nb]", "\"s\nt\"", "(f a\nb)", "(defn f \"d\n e\"\n[x] y)", "(defmethod f\n:k x)", "(:k a\nb)", "(comment a\nb)", "()", "(\n)", "(a ;c\rb\n)", "[;c\r]"}

// placeSpaces explores forms within others at every depth.
func placeSpaces(r *mc.Run, f srcFunc) {
	in := func(place, form string) string { return strings.Replace(place, "%", form, 1) }
	r.Space("places", "every form in every place within every place", mc.Size(len(places), len(places), len(placed)), func(c *mc.Case) {
		d := c.Dims(len(places), len(places), len(placed))
		if !r.Thorough() && (d[0]+d[1]+d[2])%3 > 0 {
			return
		}
		form := placed[d[2]]
		if strings.Contains(form, "#(") { // it can't be in another
			form = strings.ReplaceAll(form, "%", "p")
		}
		f(c, in(places[d[0]], in(places[d[1]], form)))
	})
	depths := []int{3, 12, 50}
	r.Space("towers", "every two places within each other again and again", mc.Size(len(places), len(places), len(depths)), func(c *mc.Case) {
		d := c.Dims(len(places), len(places), len(depths))
		s := placed[(d[0]*7+d[1])%len(placed)]
		if strings.Contains(s, "#(") {
			s = "p"
		}
		for i := 0; i < depths[d[2]]; i++ {
			s = in(places[d[i%2]], s)
		}
		f(c, s)
	})
}

// atoms are tokens and short forms in all their spellings.
var atoms = []string{":k", "::k", ":a/b", "::a/b", ":a.b/c", ":a.b", ":1", ":+", ":*", ":a:b", ":nil", ":&", ":日", ":k'", ":/", ":K", ":let", ":>>", ":as", ":all", ":refer", ":clj", ":_",
	"a", "a/b", "a.b/c", "a.b.C", "nil", "true", "false", "%", "&", ".", ".a", "a.", "-", "+", "/", "a//", "->", "if", "ns", "defn", "x/if", "_", "*a*", "a'", "a#", "日",
	"1", "-1", "+1", "1/2", "0x1F", "1e5", "1.5M", "2r101", "1N", "##Inf", "##-Inf", "##NaN",
	"\"\"", "\"a\"", "\"a\n b\"", "\"\\\"\"", "\\a", "\\newline", "\\u0041", "\\o101", "\\(", "\\;", "#\"a\"", "#\"a\nb\"",
	"#'a", "#'a/b", "@a", "'a", "`a", "~a", "~@a", "#=(a)", "'(a\nb)", "@(a\nb)", "#_a", "#_ #_ a b", "^m a", "^:m a", "^{:a\nb} a", "^m", "#t a", "#t.u/v a", "# t a", "#t", "#?(:clj a)", "#?@(:clj [a])", "#?(:clj\na)",
	"()", "[]", "{}", "#{}", "#()", "#:a{}", "#::{}", "#::a{}", "(a)", "[a]", "(\n)", "[a\n]", "{a\nb}", ";c\n", ";\n", "#!x\n", ";;; c\n", ";c\r", ";c\r\n", "#!c\r"}

// holes are places that an atom may be in.
var holes = []string{"(defmethod f\n% x)", "(defmethod f\n%\nx)", "(defmethod % \n:k x)", "(defn f\n% x)", "(defn %\n[x] y)", "(defn f\n[x] %\n)", "(if %\na b)", "(if a %\nb)", "(if a\n% b)", "(if-let % a\nb)", "(%\na\nb)", "(% a\nb)", "(a %\nb)", "[%\n%]",
	"{%\na %\nb}", "(let [% a\nb\n%] c)", "(let %\na)", "(for [a b % [c\nd]] e)", "(letfn [% (a [b]\nc)] d)", "(deftype A [b]\n% (c [d]\ne))", "(case %\na b\n%\nc)", "(condp a b\n%\nc\nd\ne)", "(cond\n%\na\nb\n%\nc)", "(-> %\n(case b\nc\nd))", "(-> a % (case b\nc\nd))",
	"(cond-> a % (case b\nc\nd))", "(ns %\n(:require [b :as c]))", "(ns n % (:require b))", "(ns n (:require % b))", "(ns n (:require [% :as x] b [a]))", "(ns n (:require [b % x] [a]))", "(ns n (:require [b :as %] [a]))\n(%)", "(ns n (:require [b :refer [%]] [a]))\n(%)", "(ns n (:import % b.C))", "(ns n (:import (% B) a.C))", "(ns n (:use % b))", "(ns n (:use [b :only %]))", "(ns n (% b))",
	"(def % \"s\n t\" a)", "(def a \"s\n t\" %)", "(def a % \"s\n t\" b)", "#?(% a\nb c)", "#?(:clj %\n:cljs\n%)", "^% a", "#_% b", "#_\n%\nb", "'%", "@%\n", "~%", "#% a", "# % a", "(comment %\n)", "(a % ;c\n)", "a\n\n\n%\n\n\nb", "%", "%%", "#(a %\n%)", "#{%\n%}", "#:n{%\na}", "'(a\n%)", "^m [%\na]"}

// atomSpaces explores every atom in every place that may tell atoms apart.
func atomSpaces(r *mc.Run, f srcFunc) {
	r.Space("atoms", "every spelling of every kind of token in every place", mc.Size(len(holes), len(atoms)), func(c *mc.Case) {
		d := c.Dims(len(holes), len(atoms))
		f(c, strings.ReplaceAll(holes[d[0]], "%", atoms[d[1]]))
	})
	r.Space("atoms/2", "every two atoms beside each other in every place", mc.Size(len(holes), len(atoms), len(atoms)), func(c *mc.Case) {
		d := c.Dims(len(holes), len(atoms), len(atoms))
		if !r.Thorough() && (d[0]*5+d[1]*3+d[2])%24 > 0 {
			return
		}
		sep := []string{" ", "\n"}[(d[1]+d[2])/24%2]
		f(c, strings.Replace(holes[d[0]], "%", atoms[d[1]]+sep+atoms[d[2]], 1))
	})
}

func itoa(n int) string { return strconv.Itoa(n) }

func clean(s string) string {
	return strings.NewReplacer("\n", "~", " ", "_").Replace(s)
}

// unclose returns the closing delimiters that a text needs.
func unclose(s string) string {
	var out []byte
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case ';':
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case '"':
			for i++; i < len(s) && s[i] != '"'; i++ {
			}
		case '(', '[', '{':
			out = append([]byte{closers[s[i:i+1]][0]}, out...)
		case ')', ']', '}':
			out = out[1:]
		}
	}
	return string(out)
}

// balanced replaces each @ by the delimiters that close what has been opened
// since the first form, and closes everything else at the end.
func balanced(f srcFunc) srcFunc {
	return func(c *mc.Case, src string) {
		if i := strings.LastIndex(src, "@"); i >= 0 && !strings.Contains(src[i:], "@(") {
			un := unclose(src[:i])
			if len(un) > 1 {
				src = src[:i] + un[:1] + src[i+1:]
			} else {
				src = src[:i] + src[i+1:]
			}
			src += unclose(src)
		}
		f(c, src)
	}
}

// docSpaces explores docstrings and their look-alikes.
func docSpaces(r *mc.Run, f srcFunc) {
	lines := []string{"", "a", "  ", "  b", "      c", "\t d", "         e", "f ", "g\t", "\\", "\\\\", "h \\ ", "\\\\ ", "i \\\\\\ \t", "\\\"", "é", "\r", " \r", "\u00a0x", "\u2003", "\t\t\t\t\t\t\t\t\t\tt", "\t\t\t   \t\t   t"}
	k := 2
	heads := []string{"(defn f ", "(def f\n", "(ns f ", "(defmacro f\n", "(defmulti f ", "(def-x f ", "[defn f ", "(a (defn f ", "(defn ^m f ", "(defn f ^m ", "(defn f [a] ", "(defn\nf ", "#(defn f ", "é (ns f ", "(defn- f ", "(defonce f ", "'(def f ", "\"é\n\" (def ééé "}
	tails := []string{" x", "\nx", "", "\n", ";c\n", " #_x", "\n;c\nx", " ^m x", " #_x y"}
	product(r, "doc/heads", "a string at every docstring-like place", f,
		cat(one(heads...), one("\"a\n    b\n  c\"", "\"\n\"", "\"x\"", "#\"a\n   b\"", "\"a\n  b\" \"c\n  d\""), one(tails...), one("!"))...)
	_ = k
	product(r, "doc/lines", "every body of three lines", f, cat(one("(defn f \"a\n", "(ns f\n\"", "(def ff \"b\n"), one(lines...), one("\n"), one(lines...), one("\n"), one(lines...), one("\" x)"))...)
	if r.Thorough() {
		product(r, "doc/lines4", "every body of four lines", f, cat(one("(ns f\n\""), one(lines...), one("\n"), one(lines...), one("\n"), one(lines...), one("\n"), one(lines...), one("\" x)"))...)
	}
}

// closing replaces a final ! by the missing closing delimiters.
func closing(f srcFunc) srcFunc {
	return func(c *mc.Case, src string) {
		if strings.HasSuffix(src, "!") {
			src = src[:len(src)-1]
			src += unclose(src)
		}
		f(c, src)
	}
}

// transformSpaces explores what the line-break transforms look at.
func transformSpaces(r *mc.Run, f srcFunc) {
	es := []string{"a", "[b]", ":k", ";c\n", "^m", "(e\n)"}
	if r.Thorough() {
		es = append(es, "#_d", "\"s\"")
	}
	sp := []string{" ", "\n", "\n\n"}
	for _, h := range []string{"(if", "(defn", "(defmethod"} {
		product(r, "trans/"+h[1:], "every body of four elements", f, cat(one(h), rep(3, sp, es), one(" ", "\n"), one("x", ";c\n"), one("", "\n", "\n\n"), one(")"))...)
		product(r, "trans/"+h[1:]+"5", "every body of five plain elements", f, cat(one("", "(z ", "'"), one(h), rep(4, []string{" ", "\n"}, []string{"a", "[b]", ":k", ";c\n"}), one("", "\n"), one("!"))...)
	}
	product(r, "trans/heads", "every head that is or is not subject to a transform", f,
		cat(one("", "(z\n", "'", "#_", "[", "#("), one("(if", "(if-not", "(if-let", "(if-some", "(if-x", "(when", "(x/if", "(defn", "(defn-", "(defmethod", "(defmacro", "[if", "[defn", "#(if", "(\nif", "(;c\nif", "(^m if", "(ns"),
			rep(3, []string{" ", "\n"}, []string{"a", "[b]", ":k"}), one("", " d", "\nd"), one("!"))...)
	short := []string{"(if", "(if-not", "(if-let", "(if-some", "(defn", "(defn-", "(defmethod", "(defmacro", "(ns", "(:require", "(let", "(for", "(letfn", "(deftype", "(cond", "(->", "(case", "(def", "#?(", "("}
	for n := 0; n <= 3; n++ {
		gaps, els := []string{" ", "\n", ";c\n"}, []string{"a", "[b\n]", ":k", "\"s\nt\"", "^m"}
		if n == 3 && !r.Thorough() {
			gaps, els = gaps[:2], els[:3]
		}
		product(r, "trans/short"+itoa(n), "short forms of every kind", f, cat(one("", "(z\n", "#("), one(short...), rep(n, gaps, els), one("", "\n", ";d\n"), one("!"))...)
	}
	// Line breaks before closing delimiters, and blank lines.
	opens := []string{"(", "[", "{", "#{", "#(", "#?(", "#?@(", "#:n{", "'(", "^[", "(a [", "[(", "{#{", "#_(", "(ns a (:require ", "(ns a (:b "}
	product(r, "trans/trailing", "every ending of every sequence", f,
		cat(one("", "\n", "\n\n", "\n\n\n", ";h\n\n\n\n"), one(opens...), one("", "a", ";c\n", "a ;c\n", "a\n\n\n;c\n", "^m", "#_x", "a\n\n\nb", "\n\n\na"), one("", "\n", "\n\n", "\n\n\n", "\n;d\n"), one("!"), one("", "\n", "\n\n", "\n\n\n", " z", "\n\n\n\nz", ";e", "\n\n\n;e\n\n\n"))...)
	product(r, "trans/blank", "all sequences of line breaks, comments and forms", f, rep(6, []string{"", "\n", "\n\n", ";c\n", "a", "(b\n\n\n)"})...)
}

// closingMid replaces the first ! by the missing closing delimiters.
func closingMid(f srcFunc) srcFunc {
	return func(c *mc.Case, src string) {
		if i := strings.Index(src, "!"); i >= 0 {
			src = src[:i] + unclose(src[:i]) + src[i+1:]
		}
		f(c, src)
	}
}

var nsHeads = []string{"(:require", "(require", "[:require", "(:require-macros", "(:use", "(use", "(:import", "[import", "(:refer-clojure", "(:load", "(:gen-class", "(:foo", "^m (:require", "#_(:require", "#?(:clj (:require"}

var nsItems = []string{"b", "[b :as x]", "(a.c :refer (d e))", "[a]", ";c\n", "^m", "#_b", "java.util.D$e", "(java.util List Map)", "[x.y z]", "\"s\"", "#?(:clj [q])", "[e ;c\n:as f]", "#t", ":reload", "[b :refer [y\nx]]", "[b :refer :all]", "(a [g :as h] i)", "[b :as w]"}

var useItems = []string{"b", "[b :as x]", "[b :only [d e]]", "(b :only (d))", "[b]", "[c :refer [y]]", "[b :exclude [z]]", "[b :only [d\n;k\ne]]", ";c\n", "#_b", "[g :as h :only [y]]", ":reload", "^m"}

var usage = []string{"", "\n(x/f)", "\n::x/y", "\n#'x/y", "\n#::x{:a d}", "\n(d)", "\n(y b/z)", "\n[w/a ::h/b f/c e]", "\n(a.c/z)"}

// nsTemplates explores ns forms.
func nsTemplates(r *mc.Run, name string, f srcFunc) {
	f = closingMid(f)
	product(r, name+"/clause2", "one clause with two items", f, cat(one("(ns n"), one(quick(r, seps, 1)...), one(nsHeads...), rep(2, seps, nsItems), one(quick(r, []string{"", "\n"}, 1)...), one("!"), one("", usage[1]))...)
	product(r, name+"/clause3", "one clause with three items", f, cat(one("(ns n\n"), one("(:require", "(:import"), rep(3, seps, nsItems), one("!"))...)
	product(r, name+"/use2", "a :use with two items and a :require", f, cat(one("(ns n\n(:use"), rep(2, seps, useItems), one(")"), one(seps...), one("(:require"), one(seps...), one(nsItems...), one("!"), one("", "\n(d y)"))...)
	product(r, name+"/usage", "one item and every usage", f, cat(one("(ns n"), one("", "\n(:import b.D (a Q))"), one("\n(:require ", "\n(:require-macros ", "\n(:use "), one(nsItems...), one(" ", "\n"), one(append([]string{""}, nsItems...)...), one("!"), one(usage...))...)
	product(r, name+"/clauses", "every arrangement of three clauses", f,
		cat(one("(ns n", "(ns n \"d\""), rep(3, seps, []string{"(:require b)", "(:require [c :as d])", "(:use e)", "(:use [b :only [f]])", "(:import g.H)", ";c\n", "(:gen-class)", "#_x", "^m", "(:require)", "(:use)", "\"s\"", "{:a 1}", "sym"}), one("", "\n"), one("!"))...)
	gaps := []string{" ", "\n", "\n\n;v\n\n;w\n"}
	items := []string{"b", "[a :as b]", "^m c", "a ;z\n"}
	if r.Thorough() {
		gaps = append(gaps, "\n;u\n")
		items = append(items, "#_ #_ d e")
	}
	product(r, name+"/comments", "comments everywhere in a clause", f,
		cat(one("(ns n\n"), one("(:require", "(:import", "(:use", "[require"), one("", ";a\n"), rep(3, gaps, items), one("", "\n", "\n;t\n", " ;t\n"), one("!"))...)
	product(r, name+"/refers", "refer lists of several requires and uses of one lib", f,
		cat(one("(ns n\n(:require "), rep(2, []string{"b", "[b :as x]", "[b :as y]", "[b :refer [p q]]", "[b :refer (q r)]", "(b :refer [])", "[b :refer-macros [p]]", "[b :as x :refer [r] :refer-macros [s]]", "[b :refer [^m p]]", "[^m b :as x]", "[b :as x :as y]", "[b :refer [p ;i\n q]]", "[b :refer :all]"}, []string{" ", "\n"}),
			one("", ")\n(:use b", ")\n(:use [b :only [p s]]", ")\n(:use [b :as z]", ")(:require-macros [b :refer [p]]"), one("!"), one("", "\np", "\n(q x/y r)", "\n[p q r s x/a y/b]"))...)
}

// printSpaces explores sources for checks of the printer: at the level of
// characters and tokens, layout, docstrings, transforms and ns forms.
func printSpaces(r *mc.Run, f srcFunc) {
	n := 3
	if r.Thorough() {
		n = 4
	}
	r.Seqs("chars", "all strings over one character of every lexical class", lexAlpha, 0, n, join(f))
	r.Seqs("tokens", "all sequences of tokens and separators", tokens, 1, n, join(f))
	r.Seqs("inlist", "all bodies of a list", inlistTokens, 3, n+1, wrap("(x ", " y)", f))
	r.Seqs("dispatch", "all strings after a #", dispatchAlpha, 3, n, wrap("#", "", f))
	r.Seqs("string", "all string bodies", stringBits, 0, n+1, wrap("(def x \"a", "\" b)", f))
	r.Seqs("comment", "all comments", commentBits, 0, n+1, wrap("(a ;", "\nb)", f))
	editSpaces(r, f, []string{"(", ")", "[", "\"", "\\", ";", "'", "#", "a", " ", "\n", "\r", "^", "#_", ",", ";c\n"})
	richSpaces(r, f)
}

// richSpaces is printSpaces without the lexical level.
func richSpaces(r *mc.Run, f srcFunc) {
	layoutSpaces(r, balanced(f))
	docSpaces(r, closing(f))
	transformSpaces(r, closingMid(f))
	nsTemplates(r, "ns", f)
	sizeSpaces(r, f)
	placeSpaces(r, f)
	atomSpaces(r, f)
}

func nsTexts() []string {
	var out []string
	for _, it := range nsItems {
		for _, h := range nsHeads {
			src := "(ns n\n" + h + " " + it + "\n;q\n[z]"
			out = append(out, src+unclose(src)+"\n(x/f d)")
		}
	}
	for _, it := range useItems {
		out = append(out, "(ns n\n(:require [b :as k])\n(:use "+it+" v))\n(d)")
	}
	return out
}

func transformTexts() []string {
	return []string{
		"(defn f\n [x] y)", "(defn f\n [x] ;c\n y)", "(defmethod f\n :k [x] y)", "(defmethod f\n :k\n [x] y)", "(if a b\n c)", "(if a\n b c)", "(if-not a ;c\n b c)",
		"(a\n\n\n b\n )", "\n\n\n(a)\n\n\n\n(b [\n])", "(ns n\n\n\n (:require b)\n (:use c)\n )", "{a\n\n\n\n b\n}", "#?(:clj\n 1\n)", "(defn f\n [x]\n y\n\n\n\n )",
		"(if-let [x\n y] z\n w\n )", "(ns n (:import java.util.Date) (:require [a :as b]))\n(defn f\n [x] (if a b\n c))",
	}
}

func sorted(s []string) []string {
	sort.Strings(s)
	return s
}

// quick returns only the first n alternatives for the quick tier.
func quick(r *mc.Run, alts []string, n int) []string {
	if r.Thorough() {
		return alts
	}
	return alts[:n]
}
