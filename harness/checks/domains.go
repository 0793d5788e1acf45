package checks

import (
	"fmt"
	"strings"

	"verif/mc"
)

// lexAlpha is one character of every class the lexer distinguishes.
var lexAlpha = strings.Split("( ) [ ] { } \" \\ ; ' @ ^ ~ ` # : , a 1 - % / _ ? = ! < + & é", " ")

func init() { lexAlpha = append(lexAlpha, " ", "\n", "\r") }

// dispatchAlpha is what matters after a #.
var dispatchAlpha = append(strings.Split("# ? @ ( ) : { } _ ' \" ^ = ! < a 1 ~ ;", " "), " ", "\n")

// tokens is an alphabet of whole tokens and separators.
var tokens = []string{" ", "\n", "a", "(", ")", "[", "]", "{", "}", "#{", "#(", "\"s\"", "'", "@", "~", "~@", "^", "#_", ":k", "1",
	";c\n", "#?(", "\\x", "#t ", "#'", "`"}

// stringBits are what matters in a string literal, character literal,
// comment, or number.
var stringBits = []string{"a", "\"", "\\", "\n", "\r", ";", "é"}
var charBits = []string{"u", "o", "0", "3", "7", "8", "a", "F", "g", " ", "(", "é"}
var commentBits = []string{";", "\r", "\n", "a", "\"", ")", " "}
var atomBits = []string{"+", "-", "0", "9", "a", ".", "/", ":", "#", "'", "%", "`", "\\", "\n", ","}

var charLiteralNames = []string{"newline", "space", "tab", "formfeed", "backspace", "return"}

// srcFunc judges one source text.
type srcFunc func(c *mc.Case, src string)

func join(f srcFunc) func(c *mc.Case, parts []string) {
	return func(c *mc.Case, parts []string) { f(c, strings.Join(parts, "")) }
}

// wrap is join with something before and after.
func wrap(pre, post string, f srcFunc) func(c *mc.Case, parts []string) {
	return func(c *mc.Case, parts []string) { f(c, pre+strings.Join(parts, "")+post) }
}

// lexicalSpaces explores texts at the level of characters and tokens.
func lexicalSpaces(r *mc.Run, f srcFunc) {
	n := 4
	if r.Thorough() {
		n = 5
	}
	r.Seqs("chars", "all strings over one character of every lexical class", lexAlpha, 0, n, join(f))
	tokenSpaces(r, f)
	r.Seqs("dispatch", "all strings after a #", dispatchAlpha, 3, n, wrap("#", "", f))
	r.Seqs("string", "all string bodies", stringBits, 0, n+2, wrap("\"", "\" b", f))
	r.Seqs("regex", "all regex bodies", stringBits, 0, n+1, wrap("(#\"", "\" b)", f))
	r.Seqs("char", "all character literals", charBits, 0, n+1, wrap("\\", " b", f))
	r.Seqs("comment", "all comments", commentBits, 0, n+1, wrap("(a ;", "\nb)", f))
	r.Seqs("shebang", "all #! comments", commentBits, 0, n, wrap("[a #!", "\nb]", f))
	r.Seqs("atom", "all numbers, symbols and keywords", atomBits, 1, n, join(f))
	var names []string
	for _, name := range charLiteralNames {
		for i := 0; i <= len(name); i++ {
			names = append(names, name[:i], name[i:], name[:i]+"a"+name[i:], name[:i]+strings.ToUpper(name[i:]))
			if i < len(name) {
				names = append(names, name[:i]+name[i+1:], name[:i]+"z"+name[i+1:])
			}
		}
	}
	for d := 0; d < 1024; d++ {
		names = append(names, fmt.Sprintf("o%o", d), fmt.Sprintf("o%03o", d))
	}
	for d := 0; d < 1<<16; d++ {
		names = append(names, fmt.Sprintf("u%04X", d))
		if d%251 == 0 {
			names = append(names, fmt.Sprintf("u%04x", d), fmt.Sprintf("u%x", d), fmt.Sprintf("U%04X", d))
		}
	}
	mc.List(r, "charname", "named, octal and unicode characters and their one-letter edits", names, func(c *mc.Case, v string) {
		f(c, "[\\"+v+" b]")
	})
	nestSpaces(r, f)
	runeSpaces(r, f)
	editSpaces(r, f, lexAlpha)
	scaleSpaces(r, f)
	sizeSpaces(r, f)
}

var nestTokens = []string{"(", "[", "{", "#{", "#(", "#?(", "#?@(", "#_", "'", "^", "#t ", "a ", ":b ", "!"}

// nestSpaces explores nesting of sequences and prefixes of different kinds;
// what is open at the end is closed.
func nestSpaces(r *mc.Run, f srcFunc) {
	n := 5
	if r.Thorough() {
		n = 6
	}
	r.Seqs("nesting", "all sequences of openers, prefixes, atoms and closing delimiters, closed at the end", nestTokens, 2, n, func(c *mc.Case, parts []string) {
		var b strings.Builder
		var open []string
		for _, p := range parts {
			switch {
			case p != "!":
				b.WriteString(p)
				if strings.ContainsAny(p, "([{") {
					open = append(open, closerOf(p))
				}
			case len(open) == 0:
				return
			default:
				b.WriteString(open[len(open)-1])
				open = open[:len(open)-1]
			}
		}
		for i := len(open) - 1; i >= 0; i-- {
			b.WriteString(open[i])
		}
		f(c, b.String())
	})
}

var inlistTokens = []string{" ", "\n", "a", "[a]", "(", ")", "'", "#_", "^", "#t ", ";c\n", "~", "@"}

func tokenSpaces(r *mc.Run, f srcFunc) {
	n := 4
	if r.Thorough() {
		n = 5
	}
	r.Seqs("tokens", "all sequences of tokens and separators", tokens, 1, n, join(f))
	r.Seqs("inlist", "all bodies of a list", inlistTokens, 3, n+1, wrap("(x ", " y)", f))
}

var runeContexts = []string{"%s", "a%sb", "\\%s", "\\%sa", "\"%s\"", ":%s", ";%s\nx", "(%s)", "#%s", "'%s", "1%s", "-%s", "(+%sa)", "a/%s", "[%%s]", "\\o%s", "\\u004%s"}

// runeSpaces explores every rune in every lexical context.
func runeSpaces(r *mc.Run, f srcFunc) {
	type rng struct{ lo, hi rune }
	ranges := []rng{{0, 0x3100}, {0xD700, 0xE010}, {0xFE00, 0x10010}, {0x1F5F0, 0x1F610}, {0x10FFF0, 0x110000}}
	if r.Thorough() {
		ranges = []rng{{0, 0x110000}}
	}
	var rs []rune
	for _, g := range ranges {
		for x := g.lo; x < g.hi; x++ {
			if x < 0xD800 || x > 0xDFFF {
				rs = append(rs, x)
			}
		}
	}
	r.Space("runes", "every rune of the ranges in every lexical context", mc.Size(len(rs), len(runeContexts)), func(c *mc.Case) {
		d := c.Dims(len(rs), len(runeContexts))
		f(c, strings.ReplaceAll(runeContexts[d[1]], "%s", string(rs[d[0]])))
	})
}

// editSpaces explores all truncations and single edits of the corpus.
func editSpaces(r *mc.Run, f srcFunc, alpha []string) {
	type edit struct{ t, pos, op int }
	var edits []edit
	for t, s := range corpus {
		for pos := 0; pos <= len(s); pos++ {
			for op := -2; op < len(alpha); op++ {
				edits = append(edits, edit{t, pos, op})
			}
		}
	}
	mc.List(r, "edits", "every truncation, deletion and insertion in every corpus text", edits, func(c *mc.Case, e edit) {
		s := corpus[e.t]
		switch {
		case e.op == -2:
			s = s[:e.pos]
		case e.op == -1:
			if e.pos == len(s) {
				return
			}
			s = s[:e.pos] + s[e.pos+1:]
		default:
			s = s[:e.pos] + alpha[e.op] + s[e.pos:]
		}
		f(c, s)
	})
}

var scaleTokens = []string{"abc", ":key", "12345", "\"str\"", "#\"re\"", "\\newline", "\\u00e9", ";comment\n", "#_a", "#(b)", "~@c", "#?@(:a b)",
	"#:ns{:a 1}", "##Inf", "#'v", "#tag x", "éé", "\"é\nü\"", "-1", "\r\n", "#!x\n", "^m x"}

// fillers of a given length that end between tokens.
var fillers = []func(n int) string{
	func(n int) string { return strings.Repeat(" ", n) },
	func(n int) string { return strings.Repeat("\n", n) },
	func(n int) string { return strings.Repeat("a", n-1) + " " },
	func(n int) string { return ";" + strings.Repeat("é", (n-2)/2) + strings.Repeat("c", n%2) + "\n" },
	func(n int) string { return "\"" + strings.Repeat("s", n-2) + "\"" },
	func(n int) string { return strings.Repeat("(a) ", n/4) + strings.Repeat(",", n%4) },
}

// maxDepth is how many forms a form may be in. Forms that are deeper may be
// refused.
const maxDepth = 99999

// abyss are texts that nest deeper than anyone can read.
var abyss = []func(n int) string{
	func(n int) string { return strings.Repeat("(", n) },
	func(n int) string { return strings.Repeat("(", n) + strings.Repeat(")", n) },
	func(n int) string { return strings.Repeat("a [\n{", n) },
	func(n int) string { return strings.Repeat("#{", n) + strings.Repeat("}", n) },
	func(n int) string { return strings.Repeat("#?(", n) + strings.Repeat(")", n) },
	func(n int) string { return strings.Repeat("#?@(", n) + strings.Repeat(")", n) },
	func(n int) string { return "#(" + strings.Repeat("#:a{", n) + strings.Repeat("}", n) + ")" },
	func(n int) string { return strings.Repeat("'", n) + "a" },
	func(n int) string { return strings.Repeat("`", n) + "a" },
	func(n int) string { return strings.Repeat("~", n) + "a" },
	func(n int) string { return strings.Repeat("~@", n) + "a" },
	func(n int) string { return strings.Repeat("@", n) },
	func(n int) string { return strings.Repeat("#_", n) + strings.Repeat("a ", n) },
	func(n int) string { return strings.Repeat("#^", n) + "a" },
	func(n int) string { return strings.Repeat("^", n) + "a" },
	func(n int) string { return strings.Repeat("#=", n) + "a" },
	func(n int) string { return strings.Repeat("^(", n) + strings.Repeat(") a", n) },
	func(n int) string { return strings.Repeat("(if a ", n) + strings.Repeat(")", n) },
	func(n int) string { return strings.Repeat("(-> a ", n) + strings.Repeat(")", n) },
	func(n int) string { return strings.Repeat("(comment ", n) + strings.Repeat(")", n) },
	func(n int) string { return strings.Repeat("#t ", n) + "a" },
	func(n int) string { return strings.Repeat("^a ", n) + "a" },
	func(n int) string { return strings.Repeat("#_ #t ", n) + strings.Repeat("a ", n) },
}

// abyssSpaces explores nesting that is too deep for any stack.
func abyssSpaces(r *mc.Run, f srcFunc) {
	depths := []int{maxDepth - 1, maxDepth, maxDepth + 1, 1000000, 4000000}
	if r.Thorough() {
		depths = append(depths, maxDepth/2-1, maxDepth/2, 8000000)
	}
	r.Space("abyss", "one construct in itself up to millions of times", mc.Size(len(depths), len(abyss)), func(c *mc.Case) {
		d := c.Dims(len(depths), len(abyss))
		n := depths[d[0]]
		if d[1] >= len(abyss)-3 && n > 300000 {
			n = 300000 // these are many forms beside each other
		}
		f(c, abyss[d[1]](n))
	})
}

// scaleSpaces explores size: tokens around the read buffer boundaries, long
// tokens, many tokens, deep nesting.
func scaleSpaces(r *mc.Run, f srcFunc) {
	var pos []int
	for _, base := range []int{4096, 8192} {
		for d := -12; d <= 2; d++ {
			pos = append(pos, base+d)
		}
	}
	if r.Thorough() {
		for _, base := range []int{512, 1024, 2048, 12288, 16384, 32768, 65536} {
			for d := -12; d <= 2; d++ {
				pos = append(pos, base+d)
			}
		}
	}
	r.Space("boundary", "every token at every position around a buffer boundary", mc.Size(len(scaleTokens), len(fillers), len(pos)), func(c *mc.Case) {
		d := c.Dims(len(scaleTokens), len(fillers), len(pos))
		f(c, fillers[d[1]](pos[d[2]])+scaleTokens[d[0]]+" z")
	})
	var sizes []int
	for n := 1; n <= 70; n++ {
		sizes = append(sizes, n)
	}
	sizes = append(sizes, 100, 127, 128, 129, 255, 256, 257, 300, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 4095, 4096, 4097, 5000, 65537, 100000)
	if r.Thorough() {
		sizes = append(sizes, 10000, 32767, 32768, 65535, 65536, 131073)
	}
	grow := []func(n int) string{
		func(n int) string { return strings.Repeat("(", n) + "a" + strings.Repeat(")", n) },
		func(n int) string { return strings.Repeat("[{", (n+1)/2) + "a b" + strings.Repeat("}]", (n+1)/2) },
		func(n int) string { return strings.Repeat("'", n) + "a" },
		func(n int) string { return strings.Repeat("#_", n) + strings.Repeat("a ", n) },
		func(n int) string { return strings.Repeat("^a ", n) + "b" },
		func(n int) string { return strings.Repeat("@ ~ ", (n+1)/2) + "b" },
		func(n int) string { return strings.Repeat("(", n) },
		func(n int) string { return strings.Repeat("a", n) },
		func(n int) string { return ":" + strings.Repeat("a", n) },
		func(n int) string { return "\"" + strings.Repeat("a\n", n) + "\"" },
		func(n int) string { return "\"" + strings.Repeat("\\\\", n) + "\"" },
		func(n int) string { return "(" + strings.Repeat("a ", n) + ")" },
		func(n int) string { return strings.Repeat("\n", n) + "a" },
		func(n int) string { return "(a" + strings.Repeat("\n", n) + "b)" },
		func(n int) string { return "'" + strings.Repeat("\n", n) + "b" },
		func(n int) string { return "#_" + strings.Repeat(";c\n", n) + "b" },
		func(n int) string { return strings.Repeat(";c\n", n) + "a" },
		func(n int) string { return strings.Repeat("(a) ", n) + ")" },
		func(n int) string { return "#(" + strings.Repeat("(b ", n-1) + strings.Repeat(")", n-1) + ")" },
	}
	r.Space("scale", "repetition and nesting of one construct", mc.Size(len(grow), len(sizes)), func(c *mc.Case) {
		d := c.Dims(len(grow), len(sizes))
		n := sizes[d[1]]
		if n >= maxDepth && (d[0] <= 6 || d[0] == len(grow)-1) {
			n = maxDepth - 1
		}
		f(c, grow[d[0]](n))
	})
}

// What is repeated in the space of repetitions, and where.
var repeated = []string{";c\r", ";c\n", "a\n", "[a :as b]\n", "(a b)\n", "a ;c\n", "^b a\n", "#_b\n", "\n;c\n\n\n", "^b\n", ";c\ra ", "{:a\n1}\n", "\"a\"\n", "a b ", "'a\r\n"}
var repeatedIn = []string{"%s", "(%s)", "[a %s]", "(ns a (:require %s))", "(ns a\n(:require\n%s))", "(ns a (:import\n%s))", "(ns a\n(:use\n%s))", "(ns a\n%s)", "(if\n%s)", "(if a\nb\n%sc)", "(defn f\n%s)", "(-> x\n%s)", "(let [\n%s])", "(case x\n%s)", "(cond-> x\n%s)", "(defn f \"%s\")", "{%s}", "#?(%s)",
	"(ns a (:require [b :refer [%s]]))", "(ns a (:require [b\n%s]))", "(ns a (:import (b\n%s)))", "(comment\n%s)", "(for [\n%s])", "(letfn [\n%s])", "(defmethod f\n%s)", "#{%s}", "'(%s)", "#(%s)", "(ns a) (a b %s)"}

// repeatSpaces explores repetition, of which the time must not be a square.
func repeatSpaces(r *mc.Run, f srcFunc) {
	n := 100000
	if r.Thorough() {
		n = 200000
	}
	r.Space("repeat", "everything that occurs in a list, very often", mc.Size(len(repeatedIn), len(repeated)), func(c *mc.Case) {
		d := c.Dims(len(repeatedIn), len(repeated))
		if !r.Thorough() && d[1] > 0 && (d[0]+d[1])%8 > 0 {
			return
		}
		f(c, strings.Replace(repeatedIn[d[0]], "%s", strings.Repeat(repeated[d[1]], n), 1))
	})
}

// sized are constructs with one number in them: the length of a name, the
// width of what stands before a line break, the depth, or the number of
// items, lines or blanks.
var sized = []func(n int, x string) string{
	// a head of n characters, and what follows on further lines
	func(n int, x string) string { return "(" + x + "\na\n(b c\nd))" },
	func(n int, x string) string { return "(" + x + " a\nb\nc)" },
	func(n int, x string) string { return "(" + x + " ;c\na)" },
	func(n int, x string) string { return "(" + x + "\n;c\na\n;d\n)" },
	func(n int, x string) string { return "(:" + x + " a\nb)\n(:" + x + "\nb)" },
	func(n int, x string) string { return "(a/" + x + " b\nc)\n(" + x + "/b c\nd)" },
	func(n int, x string) string { return "(def-" + x + " a\n[b\nc]\nd)" },
	func(n int, x string) string { return "#(" + x + " %\n%2)\n((" + x + ")\na\nb)" },
	// something n wide before a form with line breaks
	func(n int, x string) string { return "[" + x + " (a b\nc)\n{d\ne}]" },
	func(n int, x string) string { return "{:" + x + " {:a 1\n:b 2}\n:c 3}" },
	func(n int, x string) string { return "(let [" + x + " (a\nb)\ne (f g\nh)]\n(i\nj))" },
	func(n int, x string) string { return "(when \"" + x + "\" (a b\nc)\nd)" },
	func(n int, x string) string { return "(f #" + x + " (a b\nc)\nd)\n^{:" + x + " a\n:b c} d" },
	func(n int, x string) string { return "(cond-> " + x + "\na (b c\nd))" },
	func(n int, x string) string { return "(case " + x + "\na (b\nc)\n(d\ne))" },
	func(n int, x string) string { return "(f \"a\n" + x + "\" (b c\nd)\ne)" },
	func(n int, x string) string {
		return "[" + strings.Repeat("é", n) + " (a b\nc)\n#\"" + x + "\" [a\nb]]"
	},
	// depth
	func(n int, x string) string { return strings.Repeat("(a\n", n) + "b" + strings.Repeat(")", n) },
	func(n int, x string) string { return strings.Repeat("[", n) + "a\n\nb" + strings.Repeat("]", n) },
	func(n int, x string) string {
		return strings.Repeat("(when a\n", n) + ";c\nb" + strings.Repeat("\n)", n)
	},
	func(n int, x string) string {
		return strings.Repeat("{:a ", n) + "{:b 1\n:c 2}" + strings.Repeat("}", n)
	},
	func(n int, x string) string { return strings.Repeat("'", n) + "(a b\nc)" },
	func(n int, x string) string {
		return "(-> a\n" + strings.Repeat("(", n) + "b\nc" + strings.Repeat(")", n) + ")"
	},
	// number
	func(n int, x string) string { return "(f" + strings.Repeat("\na", n) + ")" },
	func(n int, x string) string { return "(f a" + strings.Repeat(" a\nb", n) + ")" },
	func(n int, x string) string { return "[" + strings.Repeat("a\n", n) + "]" },
	func(n int, x string) string { return "(cond\n" + strings.Repeat("a\nb\n", n) + ")" },
	func(n int, x string) string { return "(cond" + strings.Repeat(" a b", n) + "\nc\nd)" },
	func(n int, x string) string { return "(let [" + strings.Repeat("a\n(b\nc)\n", n) + "] d)" },
	func(n int, x string) string { return "{" + strings.Repeat(":a\n1\n", n) + "}" },
	func(n int, x string) string { return "(-> a\n" + strings.Repeat("(case b c\nd)\n", n) + ")" },
	func(n int, x string) string {
		return "a" + strings.Repeat("\n", n) + "b\n(c" + strings.Repeat("\n", n) + "d)"
	},
	func(n int, x string) string { return "(a ;" + x + "\nb)\n;" + x + "\n(c\n;" + x + "\n)" },
	func(n int, x string) string { return "(a" + strings.Repeat("\n;c", n) + "\n)" },
	func(n int, x string) string {
		return "(" + strings.Repeat("^a ", n) + "b\nc)\n#_" + strings.Repeat("#t ", n) + "(b c\nd)"
	},
	func(n int, x string) string { return strings.Repeat("#_", n) + strings.Repeat(" a\n", n) + "(b c\nd)" },
	func(n int, x string) string { return strings.Repeat("(a\nb)\n", n) },
	// strings
	func(n int, x string) string { return "(def a \"" + strings.Repeat("b\n", n) + "\" c)" },
	func(n int, x string) string {
		return "(defn f \"a\n" + strings.Repeat(" ", n) + "b\n" + strings.Repeat(" ", n+1) + "c\" [x]\ny)"
	},
	func(n int, x string) string {
		return "(" + x + " \"a\n" + strings.Repeat(" ", n) + "b\" c\nd)\n(defn " + x + " \"a\n  b\" [c])"
	},
	func(n int, x string) string {
		return "(ns " + x + " \"a\n" + strings.Repeat("\t", n) + "b\"\n(:require [c]))\nc/d"
	},
	// ns
	func(n int, x string) string {
		return "(ns n (:require [" + x + " :as z] [b." + x + " :as y])\n(:import (p " + x + ")))\nz/a y/b " + x
	},
	func(n int, x string) string { return "(ns n (:require " + strings.Repeat("[a]\n", n) + "))" },
	func(n int, x string) string {
		var b strings.Builder
		b.WriteString("(ns n (:require")
		for i := n; i > 0; i-- {
			fmt.Fprintf(&b, " [l%d :as a%d] ;c%d\n", i*7919%(n+1), i, i)
		}
		b.WriteString(") (:import")
		for i := n; i > 0; i-- {
			fmt.Fprintf(&b, " (p%d C%d)\n", i*7919%(n+1), i)
		}
		b.WriteString("))")
		for i := 1; i <= n; i++ {
			fmt.Fprintf(&b, " a%d/x C%d", i, i)
		}
		return b.String()
	},
	func(n int, x string) string {
		var b strings.Builder
		b.WriteString("(ns n (:require [l :refer [")
		for i := n; i > 0; i-- {
			fmt.Fprintf(&b, " r%d", i*7919%(n+1))
			if i%3 == 0 {
				b.WriteString("\n")
			}
		}
		b.WriteString("]]))")
		for i := 0; i <= n; i++ {
			fmt.Fprintf(&b, " r%d", i)
		}
		return b.String()
	},
}

// sizeSpaces explores the layout of constructs at every size up to a bound,
// and around larger numbers at which something might be stored differently.
func sizeSpaces(r *mc.Run, f srcFunc) {
	var sizes []int
	max, around := 140, []int{200, 255, 256, 511, 512, 1023, 1024}
	if r.Thorough() {
		max, around = 600, []int{999, 1000, 1023, 1024, 1999, 2000, 2047, 2048, 4095, 4096}
	}
	for n := 0; n <= max; n++ {
		sizes = append(sizes, n)
	}
	for _, n := range around {
		sizes = append(sizes, n, n+1)
	}
	r.Space("sizes", "constructs with a name, width, depth or number of every size", mc.Size(len(sizes), len(sized)), func(c *mc.Case) {
		d := c.Dims(len(sizes), len(sized))
		n := sizes[d[0]]
		f(c, sized[d[1]](n, strings.Repeat("x", n)))
	})
}
