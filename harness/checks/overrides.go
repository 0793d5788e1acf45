package checks

import (
	"fmt"
	"strings"

	"github.com/cespare/goclj/format"
	"verif/impl"
	"verif/mc"
	"verif/ref"
)

func init() {
	add(&mc.Check{ID: "C17", Run: runC17, Assumptions: []string{"the layout rules of C16 tell the styles apart"}})
	add(&mc.Check{ID: "C18", Run: runC18, Assumptions: []string{"the layout rules of C16 tell the styles apart"}})
}

// Names of symbols of every kind.
var oddNames = []string{"/", "+", "-", "->", "->>", "<=", "*", "*x*", "&", "%", "%1", ".", "..", ".foo", "foo.", "foo!", "foo?", "foo'", "foo#", "a.b", "a.b.c", "a|b", "a:b", "x1", "_", "_x", "$", "$x", "=", "!", "|", "é", "日本", "nil?", "trueish", "Foo", "FOO", "-1x", "def", "let-x", "if", "ns", strings.Repeat("n", 300)}

// The overrides that subsets are formed of. Each has a style no other has.
var overrideNames = []struct {
	name  string
	style format.IndentStyle
}{
	{"foo", format.IndentListBody}, {"m.n/foo", format.IndentCond1}, {"o/foo", format.IndentCond0}, {"a/foo", format.IndentNormal},
	{"let", format.IndentCond4}, {"m.n/let", format.IndentCond2}, {"m.n/def-x", format.IndentList}, {"def-x", format.IndentDeftype},
}

var bindingClauses = []string{
	"", "(:require [m.n :as a])", "(:require [m.n :refer [foo]])", "(:require [m.n :as a :refer [foo let def-x]])", "(:require-macros [m.n :as a])", "(:require-macros [m.n :refer [foo]])",
	"(:use [m.n :as a])", "(:use [m.n :only [foo]])", "(:require (m.n :as a))", "(:require (m.n :refer (foo bar)))", "(:require [o :as a])", "(:require [o :refer [foo]])", "(:require [m.n :refer-macros [foo]])",
	"(:require [m.n :as a :as b])", "(:require [m.n :refer [bar]])", "(:require [m.n :refer :all])", "(:require [m.n :exclude [foo] :as a])", "(:require m.n)", "(:require [m.n])", "(:require [m.n :as-alias a])",
	"(:require ^k [m.n :as a])", "#_(:require [m.n :as a])", "(:require [x :as y]\n[m.n ;c\n:as\na])", "(:require [m.n :refer [bar\n;c\nfoo]])", "(:require [m :as a])", "(:import [m.n foo a])", "(:require [m.n :rename {foo let} :as a])",
	"(:require [m.n foo :as a])", "(:require [foo :as a])", "(:refer-clojure :exclude [foo let])", "(:require [m.n.x :as a] [y :as m.n])", "(:require (m [n :as a]))", "(:require [m.n :as a, :refer [foo], :reload true])",
	"(:require [\"m.n\" :as a])", "(:require #_[m.n :as a] z)", "(:require [m.n :as :a])", "(:require [m.n :refer foo])", "(:require [m.n :refer [a] :as foo])", "(:require [m.n :refer {foo bar}])",
	"(:require [m.n :as ;c\na])", "(:require [m.n ;c\n:refer ;d\n[foo]])", "(:require [;c\nm.n :as a])", "(:use [m.n :only ;c\n[foo]])", "(:require [m.n :as #_x a])", "(:require [m.n #_:as :as a])", "(:require [m.n :as a ;c\n])", "(:require ;c\n[m.n\n:as\n\na\n:refer\n(foo\n)])",
}

var headSpellings = []string{"foo", "a/foo", "b/foo", "m.n/foo", "o/foo", "n/foo", "m/foo", "let", "a/let", "m.n/let", "x/let", "def-x", "a/def-x", "foo/a", ":foo", "foo.", ".foo", "foo/foo", "a.foo", "y/foo", "m.n.x/foo", "m.n/bar", "Foo", "foo'", "bar"}

var tellApart = []string{"%s a\nb\nc\nd\ne\nf", "%s\na\nb\n[c\nd]", "%s a b c\nd\ne", "%s [a\nb]\n(c d\ne)"}

func runC17(r *mc.Run) {
	n := len(overrideNames)
	cfgs := make([]*impl.Cfg, 1<<n)
	sets := make([]ref.Settings, 1<<n)
	for i := range cfgs {
		cfg := &impl.Cfg{Indents: map[string]format.IndentStyle{}}
		for j, o := range overrideNames {
			if i>>j&1 == 1 {
				cfg.Indents[o.name] = o.style
			}
		}
		cfgs[i], sets[i] = cfg, settings(cfg)
	}
	judge := func(c *mc.Case, src string, i int) {
		f := formatCase(c, src, cfgs[i])
		if f == nil {
			return
		}
		if p, _ := ref.CheckLayout(f.out, f.after, sets[i]); p != "" {
			c.Fail(q(src), "overrides %v: formatted as %s: %s", cfgs[i].Indents, q(f.out), p)
		}
	}
	heads := func(from, to int) string {
		var b strings.Builder
		for _, h := range headSpellings[from:to] {
			for _, t := range tellApart {
				b.WriteString("\n(" + fmt.Sprintf(t, h) + ")")
			}
			b.WriteString("\n#(" + fmt.Sprintf(tellApart[0], h) + ")")
		}
		return b.String()
	}
	all := heads(0, len(headSpellings))
	r.Space("overrides", "every subset of eight overrides with every require clause and all head spellings", mc.Size(1<<n, len(bindingClauses)), func(c *mc.Case) {
		d := c.Dims(1<<n, len(bindingClauses))
		judge(c, "(ns x\n"+bindingClauses[d[1]]+")"+all, d[0])
	})
	few := []int{1<<n - 1, 1<<1 | 1<<2, 1<<1 | 1<<5 | 1<<6}
	if r.Thorough() {
		few = nil
		for i := 0; i < 1<<n; i++ {
			few = append(few, i)
		}
	}
	r.Space("clauses", "every pair of require clauses, in one ns or two, before or after the code", mc.Size(len(few), len(bindingClauses), len(bindingClauses), 4), func(c *mc.Case) {
		d := c.Dims(len(few), len(bindingClauses), len(bindingClauses), 4)
		a, b := bindingClauses[d[1]], bindingClauses[d[2]]
		h := heads(0, 12)
		var src string
		switch d[3] {
		case 0:
			src = "(ns x\n" + a + "\n" + b + ")" + h
		case 1:
			src = "(ns x " + a + ")\n(ns y " + b + ")" + h
		case 2:
			src = h[1:] + "\n(ns x\n" + a + b + ")"
		case 3:
			src = "(foo x\n" + a + ")\n(in-ns x\n" + b + ")" + h
		}
		judge(c, src, few[d[0]])
	})
	// What ns-rewriting transforms make of the clauses still binds the same.
	r.Space("transforms", "require clauses under every set of ns transforms", mc.Size(len(few), len(bindingClauses), 16), func(c *mc.Case) {
		d := c.Dims(len(few), len(bindingClauses), 16)
		mask := d[2]&3 | d[2]>>2<<7
		cfg := *cfgs[few[d[0]]]
		cfg.Transforms = impl.Mask(mask)
		f := formatCase(c, "(ns x\n"+bindingClauses[d[1]]+")"+heads(0, 12), &cfg)
		if f == nil {
			return
		}
		if p, _ := ref.CheckLayout(f.out, f.after, sets[few[d[0]]]); p != "" {
			c.Fail(q(f.src), "%s, overrides %v: formatted as %s: %s", &cfg, cfg.Indents, q(f.out), p)
		}
	})
	// Names of every kind.
	spaces := []string{"m.n", "m", "a", "a.b.c", "m-n", "m_n", "*", "é", "a'", "q"}
	oddBind := []string{"", "(:require [%[1]s :as a])", "(:require [%[1]s :refer [%[2]s]])", "(:require [%[1]s :as %[3]s :refer [b %[2]s c]])", "(:require [b :refer [%[2]s]] [%[1]s :as %[3]s])"}
	r.Space("names", "names and namespaces of every kind overridden and bound", mc.Size(len(oddNames), len(spaces), 3, len(oddBind), 2), func(c *mc.Case) {
		d := c.Dims(len(oddNames), len(spaces), 3, len(oddBind), 2)
		name, space := oddNames[d[0]], spaces[d[1]]
		cfg := &impl.Cfg{Transforms: impl.AllOff, Indents: map[string]format.IndentStyle{}}
		if d[2] != 0 {
			cfg.Indents[space+"/"+name] = format.IndentCond1
		}
		if d[2] != 1 {
			cfg.Indents[name] = format.IndentCond2
		}
		alias := []string{"x.y", "*"}[d[4]]
		var b strings.Builder
		if bind := oddBind[d[3]]; strings.Contains(bind, "%[3]s") {
			fmt.Fprintf(&b, "(ns z "+bind+")", space, name, alias)
		} else if strings.Contains(bind, "%[2]s") {
			fmt.Fprintf(&b, "(ns z "+bind+")", space, name)
		} else if bind != "" {
			fmt.Fprintf(&b, "(ns z "+bind+")", space)
		}
		for _, h := range []string{name, space + "/" + name, "a/" + name, alias + "/" + name, "b/" + name, name + name, space} {
			for _, t := range tellApart {
				b.WriteString("\n(" + fmt.Sprintf(t, h) + ")")
			}
		}
		judgeLayout(c, b.String(), cfg, settings(cfg))
	})
	// Every built-in name and every style an override can give it.
	var names []string
	for name := range ref.BuiltinIndents {
		names = append(names, name)
	}
	names = append(sorted(names), "with-x", "when-x", "default", "bar", "x/y")
	styles := []format.IndentStyle{format.IndentNormal, format.IndentList, format.IndentListBody, format.IndentLet, format.IndentFor, format.IndentLetfn, format.IndentDeftype,
		format.IndentCond0, format.IndentCond1, format.IndentCond2, format.IndentCond4}
	r.Space("builtin", "every built-in name overridden by every style, plain and qualified", mc.Size(len(names), len(styles), 4, len(tellApart)), func(c *mc.Case) {
		d := c.Dims(len(names), len(styles), 4, len(tellApart))
		name := names[d[0]]
		over := name
		head := name
		if !strings.Contains(name, "/") {
			if d[2]&1 == 1 {
				over = "q/" + name
			}
			if d[2]&2 == 2 {
				head = "q/" + name
			}
		}
		cfg := &impl.Cfg{Transforms: impl.AllOff, Indents: map[string]format.IndentStyle{over: styles[d[1]]}}
		judgeLayout(c, "("+fmt.Sprintf(tellApart[d[3]], head)+")", cfg, settings(cfg))
	})
}

func runC18(r *mc.Run) {
	cfgs := []*impl.Cfg{
		{Indents: styleCfg.Indents},
		{Indents: styleCfg.Indents, ThreadFirst: map[string]format.ThreadFirstStyle{"-?>": format.ThreadFirstNormal, "c?>": format.ThreadFirstCondArrow, "x/->": format.ThreadFirstCondArrow}},
		{Indents: styleCfg.Indents, ThreadFirst: map[string]format.ThreadFirstStyle{"->": format.ThreadFirstCondArrow, "cond->": format.ThreadFirstNormal, "case": format.ThreadFirstNormal, "->>": format.ThreadFirstNormal}},
	}
	var sets []ref.Settings
	for _, c := range cfgs {
		sets = append(sets, settings(c))
	}
	judge := func(c *mc.Case, src string) {
		for i := range cfgs {
			if judgeLayout(c, src, cfgs[i], sets[i]); c.Failed() {
				return
			}
		}
	}
	heads := []string{"(->", "(some->", "(cond->", "(->>", "(-?>", "(c?>", "#(->", "#(cond->", "(x/->", "(foo", "'(->", "[->", "(doto", "(case", "#(-?>"}
	leaf := []string{"x", "(case a\nb\nc\nd)", "(condp a\nb\nc\nd\ne)", "(c4 a b\nc\nd\ne\nf\ng)", "(cond a\nb\nc)", "#(case a\nb\nc)"}
	more := []string{"^m", ";c\n", "#_x", "#t", "'(case a\nb\nc)", "(foo (case a\nb\nc))", "[(case a\nb\nc)]", "(case ;c\na\nb\nc)", "\"s\"", ":k", "(case)", "()", "(assoc a\nb\nc)", "(c0 a\nb\nc)"}
	wide := append(append([]string{}, leaf...), more...)
	product(r, "flat", "every threading form with three arguments of every kind", closingMid(judge), cat(one(heads...), rep(2, []string{" ", "\n"}, wide), one(" ", "\n"), one(leaf...), one("!"))...)
	product(r, "flat4", "every threading form with five arguments", closingMid(judge), cat(one(heads...), one(" ", "\n"), one("x", "(case a\nb)", "^m", "#_y"), rep(4, []string{"\n"}, []string{"p", "(case a\nb\nc)", "(condp a\nb\nc\nd)", ";c\n", "^m"}), one("!"))...)
	// Nesting: threading forms at every argument of threading forms.
	in := func(k int) []string {
		var out []string
		for _, h := range []string{"(-> ", "(cond-> ", "(->> ", "(-?> ", "#(-> ", "(foo "} {
			for pos := 0; pos <= 2; pos++ {
				s := h
				for i := 0; i <= 2; i++ {
					if i == pos && k >= 0 {
						s += "%s\n"
					} else {
						s += "(case a\nb\nc)\n"
					}
				}
				out = append(out, s+"(condp a\nb\nc\nd))")
			}
		}
		return out
	}
	l1, l2 := in(0), in(0)
	l3 := []string{"(-> x\n(case a\nb\nc))", "(-> (case a\nb\nc)\n(case a\nb\nc))", "(cond-> (case a\nb\nc) (case a\nb\nc)\n(case a\nb\nc)\n(case a\nb\nc))", "(case a\nb\nc)", "(x/-> (case a\nb\nc) (case a\nb\nc) (case a\nb\nc))", "(foo (case a\nb\nc))",
		"'(-> x (case a\nb\nc))", "(c?> (case a\nb\nc) (case a\nb\nc)\n(case a\nb\nc)\n(case a\nb\nc))", "#(-> (case a\nb\nc) (case a\nb\nc))", "[(-> (case a\nb\nc) (case a\nb\nc))]", "(\n-> x (case a\nb\nc))", "(;c\n-> x (case a\nb\nc))", "()"}
	r.Space("nested", "threading forms nested three deep at every argument", mc.Size(len(l1), len(l2), len(l3)), func(c *mc.Case) {
		d := c.Dims(len(l1), len(l2), len(l3))
		judge(c, fmt.Sprintf(l1[d[0]], fmt.Sprintf(l2[d[1]], l3[d[2]])))
	})
	// Threading forms inside everything that isn't a list.
	conts := []string{"%s", "{:k %s}", "{%s 1}", "{%s\n%s}", "#{%s}", "[%s]", "[[%s] %s]", "'%s", "`%s", "~%s", "~@%s", "@%s", "#_%s", "^%s x", "^{:k %s} x", "#=%s", "#?(:clj %s)", "#?@(:clj [%s])", "#:n{:k %s}", "#(f %s)", "#t %s", "(let [a %s] %s)", "(defn f [a] %s)",
		"(def a {:b [%s %s]})", "(comment %s)", "(fn [] %s)", "(case %s :a %s)", "(if %s\n%s)", "(ns n (:require [a %s]))", "(a ;c\n%s)", "(a\n\n%s)", "(\"s\" %s)", "(:k %s)", "(%s)", "((f) %s)"}
	threads := []string{"(-> x\n(case a\nb\nc))", "(some-> x (condp a\nb\nc\nd))", "(cond-> x\na (case b\nc\nd)\n(case a\nb\nc) e)", "(-?> x\n(case a\nb\nc))", "(c?> x a (c4 a\nb\nc\nd\ne\nf))", "(->> x\n(case a\nb\nc))", "#(-> %% (case a\nb\nc))", "(-> {:a (-> x (case a\nb\nc))} (case a\nb\nc))"}
	r.Space("inside", "threading forms inside every two containers", mc.Size(len(conts), len(conts), len(threads)), func(c *mc.Case) {
		d := c.Dims(len(conts), len(conts), len(threads))
		th := strings.ReplaceAll(threads[d[2]], "%%", "%")
		judge(c, strings.ReplaceAll(conts[d[0]], "%s", strings.ReplaceAll(conts[d[1]], "%s", th)))
	})
	if r.Thorough() {
		r.Space("nested4", "threading forms nested four deep at every argument", mc.Size(len(l1), len(l1), len(l2), len(l3)), func(c *mc.Case) {
			d := c.Dims(len(l1), len(l1), len(l2), len(l3))
			judge(c, fmt.Sprintf(l1[d[0]], fmt.Sprintf(l1[d[1]], fmt.Sprintf(l2[d[2]], l3[d[3]]))))
		})
	}
}
