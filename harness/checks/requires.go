package checks

import (
	"fmt"
	"sort"
	"strings"

	"verif/impl"
	"verif/mc"
	"verif/ref"
)

func init() {
	notes := []string{"texts the parser or the reader model rejects are left to C02", "clauses of ns with metadata or a tag in front of them are left out"}
	add(&mc.Check{ID: "C24", Run: runC24, Assumptions: notes})
	add(&mc.Check{ID: "C25", Run: runC25, Assumptions: notes})
}

// nsPart is a part of an ns form: a clause that was read, or something else.
type nsPart struct {
	clause *ref.Clause
	other  string
}

// nsParts takes an ns form apart. It returns false for those that are left out.
func nsParts(ns *ref.Node, styled bool, names ...string) ([]nsPart, bool) {
	var out []nsPart
	missing := 0
	for _, k := range ns.Kids[1:] {
		if k.Kind == ref.Newline || k.Kind == ref.Comment {
			continue
		}
		before := missing
		if missing > 0 && k.Kind != ref.Discard {
			missing--
		}
		missing += ref.Missing(k)
		if ref.IsClause(k, names...) {
			if before > 0 {
				return nil, false
			}
			out = append(out, nsPart{clause: ref.ReadClause(k, styled)})
			continue
		}
		if k.Kind == ref.String { // it may be a docstring
			k = &ref.Node{Kind: ref.String, Text: ref.LooseDoc(k.Text)}
		}
		out = append(out, nsPart{other: ref.Program([]*ref.Node{k}, ref.Norm{Comments: true})})
	}
	return out, true
}

func counts(lists ...[]string) map[string]int {
	m := map[string]int{}
	for _, l := range lists {
		for _, s := range l {
			m[s]++
		}
	}
	return m
}

// lacks reports something of which b has less than a.
func lacks(a, b map[string]int) (string, bool) {
	var keys []string
	for k := range a {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if b[k] < a[k] {
			return k, true
		}
	}
	return "", false
}

func commentsOf(n *ref.Node) map[string]int {
	var l []string
	ref.Walk([]*ref.Node{n}, func(n *ref.Node) {
		if n.Kind == ref.Comment {
			l = append(l, n.Text)
		}
	})
	return counts(l)
}

// judgeRequires checks what UseToRequire and RemoveUnusedRequires do to the ns
// forms of a text.
func judgeRequires(c *mc.Case, src string, mask int) {
	roots, err := ref.Parse(src)
	if err != nil {
		return
	}
	cfg := &impl.Cfg{Transforms: impl.Mask(mask)}
	f := formatParsed(c, src, roots, cfg)
	if f == nil {
		return
	}
	on := onMask(mask)
	usage := ref.FindUsage(roots)
	fail := func(format string, args ...interface{}) {
		c.Fail(q(src), "%s: formatted as %s: %s", cfg, q(f.out), fmt.Sprintf(format, args...))
	}
	// Everything but the ns forms is as without these transforms.
	rest := func(nodes []*ref.Node) []*ref.Node {
		var out []*ref.Node
		for _, n := range nodes {
			if ref.IsForm(n, "ns") {
				n = &ref.Node{Kind: ref.Symbol, Text: "ns"}
			}
			out = append(out, n)
		}
		return out
	}
	plain := on
	plain[ref.UseToRequire], plain[ref.RemoveUnusedRequires] = false, false
	model := ref.Transform(roots, plain)
	if a, b := ref.Program(rest(model), everything), ref.Program(rest(f.after), everything); a != b {
		fail("code outside of ns differs: %s", diffAt(b, a))
		return
	}
	var before, after, modelled []*ref.Node
	pickNS := func(nodes []*ref.Node) (out []*ref.Node) {
		for _, n := range nodes {
			if ref.IsForm(n, "ns") {
				out = append(out, n)
			}
		}
		return
	}
	before, modelled, after = pickNS(roots), pickNS(model), pickNS(f.after)
	for i := range before {
		if problem := judgeNS(before[i], modelled[i], after[i], usage, on); problem != "" {
			fail("%s", problem)
			return
		}
	}
	if len(before) > 0 && on != plain {
		c.Nontrivial(1)
	}
}

func judgeNS(src, model, out *ref.Node, usage *ref.Usage, on [ref.NumTransforms]bool) (problem string) {
	styled := on[ref.EnforceNSStyle]
	if styled {
		src = ref.KeywordClauses(src)
	}
	names := []string{":require", ":use", ":require-macros"}
	parts, ok := nsParts(src, styled, names...)
	if !ok {
		return ""
	}
	mparts, _ := nsParts(model, styled, names...)
	if len(parts) != len(mparts) {
		panic("the model has another number of clauses: " + fmt.Sprint(len(parts), len(mparts)))
	}
	for i := range parts { // other parts are only restyled
		if parts[i].clause == nil {
			parts[i].other = mparts[i].other
		}
	}
	got, ok := nsParts(out, styled, names...)
	if !ok {
		return "metadata in front of a clause"
	}
	// What is expected.
	var want []nsPart
	if on[ref.UseToRequire] {
		req, use := ref.NewClause(":require"), ref.NewClause(":use")
		at := -1
		for _, p := range parts {
			switch {
			case p.clause == nil, p.clause.Name == ":require-macros":
				want = append(want, p)
				continue
			case at < 0:
				at = len(want)
				want = append(want, nsPart{clause: req})
			}
			if p.clause.Name == ":use" {
				use.Extra = append(use.Extra, p.clause.Extra...)
				use.ByExtra = append(use.ByExtra, p.clause.ByExtra...)
				p.clause.Extra, p.clause.ByExtra = nil, nil
			}
			req.Merge(p.clause)
		}
		if len(use.Extra) > 0 {
			want = append(want[:at+1], append([]nsPart{{clause: use}}, want[at+1:]...)...)
		}
	} else {
		want = parts
	}
	optional := map[string]int{} // comments that may go
	if on[ref.RemoveUnusedRequires] {
		var kept []nsPart
		for _, p := range want {
			if p.clause == nil || p.clause.Name == ":use" {
				kept = append(kept, p)
				continue
			}
			old := map[string]*ref.Lib{}
			for name, l := range p.clause.Libs {
				old[name] = l
			}
			n := len(kept)
			p.clause.Prune(usage, func(name string, l *ref.Lib) bool {
				merged := on[ref.UseToRequire] && p.clause.Name == ":require"
				if l.Empty || merged && (l.Bare || l.Plain) {
					// Whether what it became before this counts
					// as [lib] isn't specified.
					return n < len(got) && got[n].clause != nil && got[n].clause.Name == p.clause.Name && got[n].clause.Libs[name] != nil
				}
				return l.Bare
			})
			for name, l := range old {
				if p.clause.Libs[name] != nil {
					continue
				}
				for _, k := range l.Comments {
					optional[k]++
				}
			}
			if !p.clause.Empty() || len(p.clause.Below) > 0 {
				kept = append(kept, p)
			}
		}
		want = kept
	}
	// Compare.
	show := func(parts []nsPart) string {
		var out []string
		for _, p := range parts {
			if p.clause == nil {
				out = append(out, strings.NewReplacer("\x01", "(", "\x02", ")").Replace(p.other))
			} else {
				out = append(out, p.clause.Name+fmt.Sprintf("%q", p.clause.Facts()))
			}
		}
		return strings.Join(out, " ")
	}
	if g, w := show(got), show(want); g != w {
		return "the ns form has " + g + ", want " + w
	}
	if a, b := commentsOf(src), commentsOf(out); fmt.Sprint(a) != fmt.Sprint(b) {
		if k, bad := lacks(b, a); bad {
			return fmt.Sprintf("a comment %q too many", k)
		}
		for k, n := range optional {
			if a[k] -= n; a[k] <= 0 {
				delete(a, k)
			}
		}
		if k, bad := lacks(a, b); bad {
			return fmt.Sprintf("comment %q is missing", k)
		}
	}
	// Comments stay with the only item for a lib.
	for i, p := range want {
		if p.clause == nil {
			continue
		}
		for name, l := range p.clause.Libs {
			if l.Items > 1 {
				continue
			}
			if k, bad := lacks(counts(l.Comments), counts(got[i].clause.Libs[name].Comments)); bad {
				return fmt.Sprintf("comment %q isn't at %s any more", k, name)
			}
		}
		if k, bad := lacks(counts(p.clause.ByExtra), counts(got[i].clause.ByExtra)); bad {
			return fmt.Sprintf("comment %q isn't at its item any more", k)
		}
	}
	return ""
}

func runC24(r *mc.Run) { runRequires(r, 1<<ref.UseToRequire) }
func runC25(r *mc.Run) { runRequires(r, 1<<ref.RemoveUnusedRequires) }

func runRequires(r *mc.Run, t int) {
	both := 1<<ref.UseToRequire | 1<<ref.RemoveUnusedRequires
	masks := []int{t | 127, t, both | 127, t | 1<<ref.EnforceNSStyle, t | 1, t | 1<<ref.RemoveTrailingNewlines, both}
	judge := func(c *mc.Case, src string) {
		for i, m := range masks {
			if !r.Thorough() && i != int(c.I*2/3)%len(masks) {
				continue
			}
			if judgeRequires(c, src, m); c.Failed() {
				return
			}
		}
	}
	nsTemplates(r, "ns", judge)
	atomSpaces(r, judge)
	f := closingMid(judge)
	// Combinations of items over a small vocabulary.
	req := []string{"", "b", "[b]", "(b)", "[b :as x]", "[b :as y]", "[b :refer [p]]", "[b :refer [p q]]", "[b :as x :refer [q]]", "[b :refer :all]", "[c :as x]", "[c :refer (p)]", "[b-d :as z]", "[b :refer-macros [q]]", "[b :rename {p q}]", "(b [e :as x])", "#?(:clj [b :as x])", "[b :as x :refer :all :refer-macros [q]]"}
	use := []string{"", "b", "[b]", "(b :only [p])", "[b :only (p q)]", "[b :as x]", "[c :as x]", "[b :exclude [p]]", "[b :only [p] :as x]", "[c]", "'b", "[b :only p]"}
	uses := []string{"", "\n(x/f)", "\np", "\n[q x/y]", "\n#'b/v", "\n::y/k", "\n#::z{}", "\n(b/f ::c/k)", "\n'x/y", "\n#_x/f", "\n:x/y", "\n(x y z) x.y", "\n^x/t p", "\n`(~@x/y #(q %))", "\n#x/y 1", "\n\"x/y p\"", "\n;x/y p\n"}
	tail := uses
	if !r.Thorough() && t == 1<<ref.UseToRequire {
		tail = uses[:3]
	}
	product(r, "merge", "a :require of two items and a :use of another", f, cat(one("(ns n\n(:require "), one(req...), one(" ", "\n"), one(req...), one(")"), one("", "\n(:import b.D)", "\n(:require-macros [b :as x])"), one("\n(:use "), one(use...), one("!"), one(tail...))...)
	// Items with every option and value.
	keys := []string{":as", ":refer", ":only", ":refer-macros", ":exclude", ":rename", ":include-macros", ":reload", ":all", "x"}
	vals := []string{"x", "[p]", "(p)", "[]", "()", "[p q]", "(q ;c\np)", ":all", "{p q}", "nil", "true", "\"p\"", "[:p]", "[[p]]", "#{p}", "^m [p]", "a/b"}
	opens := []string{"[%s]", "(%s)", "[\n%s\n]"}
	heads := []string{":require", ":use", ":require-macros"}
	r.Space("options/1", "items with an option", mc.Size(len(heads), len(opens), len(keys), len(vals)+1, 3, len(tail)), func(c *mc.Case) {
		d := c.Dims(len(heads), len(opens), len(keys), len(vals)+1, 3, len(tail))
		item := "b " + keys[d[2]]
		if d[3] > 0 {
			item += []string{" ", "\n", " "}[d[4]] + vals[d[3]-1]
		}
		item = fmt.Sprintf(opens[d[1]], item)
		judge(c, "(ns n\n("+heads[d[0]]+" "+item+[]string{"", " c", "\n[b :refer [q]]\n(b)"}[d[4]]+"))"+tail[d[5]])
	})
	r.Space("options/2", "items with two options", mc.Size(len(heads), len(keys), len(vals), len(keys), len(vals)), func(c *mc.Case) {
		d := c.Dims(len(heads), len(keys), len(vals), len(keys), len(vals))
		item := fmt.Sprintf(opens[d[1]&1], "b "+keys[d[1]]+" "+vals[d[2]]+" "+keys[d[3]]+" "+vals[d[4]])
		judge(c, "(ns n\n("+heads[d[0]]+" "+item+"))"+tail[d[2]%len(tail)])
	})
	product(r, "order", "clauses in every order", f, cat(one("(ns n\n"), rep(3, []string{"(:require [b :as x])", "(:use b)", "(:use [b :only [p]])", "(:require [b :refer [p]])", "(:import b.D)", "(:use [c :as x] 3)", "(:require)", "(:use)"}, []string{"\n", " ", ";c\n", " ;d\n;e\n"}), one("!"), one("", "\n(x/f p)"))...)
	// Every way of using an alias, a name and a lib.
	names := []string{"x", "b", "p", "b.c", "xx", "X", "q"}
	forms := []string{"%", "%/f", "#'%", "#'%/f", "::%/k", "::%", ":%/k", ":%", "#::%{:a 1}", "#:%{:a 1}", "'%", "'%/f", "`%/f", "~%/f", "@%", "#%/f 1", "# % 1", "^% a", "^%/f a", "^:%/k a", "#_%/f", "#_%", "(f %/f)", "[%]", "{% 1}", "#{%}", "#(%/f)", "#?(:clj %/f)", "#?@(:clj [%])", "\"%/f\"", "\\%", ";%/f\n", "%.", ".%", "%.f", "f/%", "%/f/g", "#=(%/f)", "%#", "%'", "(ns %)", "(comment %/f)", "#\"%/f\"", "%/", "f%/f", "(% %/f)", "(defn % [])", "~@%/f"}
	items := []string{"[b :as x]", "[b :refer [x]]", "[b :refer [x p]]", "b", "[b]", "(b)", "[b.c :as x :refer [p]]", "[b :refer-macros [x]]", "[b.c :as b]", "[q :as x] [b :as q]", "[x :as p]", "[b :refer [p] :refer-macros [x]]", "[b :refer :all]", "[b :as xx :as x]", "[b :refer []]"}
	r.Space("usage", "every way of mentioning every name", mc.Size(len(items), len(forms), len(names), 3), func(c *mc.Case) {
		d := c.Dims(len(items), len(forms), len(names), 3)
		u := strings.ReplaceAll(forms[d[1]], "%", names[d[2]])
		clause := "(:require " + items[d[0]] + ")"
		src := "(ns n\n" + clause + ")\n" + u
		switch d[3] {
		case 1:
			src = u + "\n(ns n\n(:require-macros " + items[d[0]] + ")\n(:use [y :only [z]]))\n(g (h " + u + "\n))"
		case 2:
			src = "(ns n (:foo " + u + "\n)\n" + clause + ")"
		}
		judge(c, src)
	})
	oddItems := []string{"[b :as %]", "[b :refer [%]]", "[b :refer (p % q)]", "[% :as x]", "[% :refer [q]]", "[b :as p :refer [%]]", "[b :as %] [c :refer [%]]", "[b :refer-macros [%]]"}
	r.Space("usage/names", "every way of mentioning names of every kind", mc.Size(len(oddItems), len(forms), len(oddNames), 2), func(c *mc.Case) {
		d := c.Dims(len(oddItems), len(forms), len(oddNames), 2)
		name := oddNames[d[2]]
		judge(c, "(ns n\n(:require "+strings.ReplaceAll(oddItems[d[0]], "%", name)+[]string{")", "\n[d :as d]\n)"}[d[3]]+")\n"+strings.ReplaceAll(forms[d[1]], "%", name))
	})
	// Imports keep the libs that provide them.
	imports := []string{"", "b.D", "b.c.D", "(b D)", "[b D E]", "(b.c D)", "b_c.D", "(b_c D)", "b-c.D", "(b)", "()", "D", "'b.D", "(\"b\" D)", "#?(:clj b.D)", "^m b.D", ";c\n b.D",
		"(\nb D)", "[;c\nb D]", "(^m b D)", "(#_c b D)", "(#t b D)", "[b D]", "#?(:clj (b D))", "#?(:clj b.D :cljs b.c.D)", "#?@(:clj [b.D (b.c D)])", "#?@(:clj [#?(:cljs (b-c D))])", "#_b.D", "^m (b D)", "[[b D]]", "((b D))", "{b D}", "#{b.D}", "(nil b)", "(:b b)"}
	libs := []string{"b", "b.c", "b-c", "b_c", "b-c.d", "D"}
	for _, k := range []int{2, 3, 4, 5, 8, 16, 17, 40} {
		dashes := "b" + strings.Repeat("-c", k)
		libs = append(libs, dashes, strings.Replace(dashes, "-", "_", 1), "a.x-y."+dashes)
		imports = append(imports, strings.ReplaceAll(dashes, "-", "_")+".D", "("+strings.ReplaceAll("a.x-y."+dashes, "-", "_")+" D)", strings.Replace(dashes, "-", "_", 1)+".D")
	}
	libs = append(libs, "b--c", "-b", "b-", "-", "b.-c", "é-é", "b-c-d.e-f-g.h-i-j")
	imports = append(imports, "b__c.D", "_b.D", "b_.D", "(_ D)", "b._c.D", "é_é.D", "(b_c_d.e_f_g.h_i_j D E)")
	importClauses := []string{"(:import %s)", "(import %s)", "[:import %s]", "#?(:clj (:import %s))", "#?@(:clj [(import %s)] :cljs [[import c.D]])", "(:import e.f.G\n(g.h I) %s)", "#_(:import %s)", "^m (:import %s)", "(:import) (:import %s)", "(:imports %s)", "((:import %s))"}
	r.Space("imports", "every import with every lib", mc.Size(len(imports), len(libs), 4, len(importClauses)), func(c *mc.Case) {
		d := c.Dims(len(imports), len(libs), 4, len(importClauses))
		lib := []string{"[%s :as x]", "[%s :refer [p]]", "[%s]", "(%s)"}[d[2]]
		judge(c, "(ns n\n"+fmt.Sprintf(importClauses[d[3]], imports[d[0]])+"\n(:require "+fmt.Sprintf(lib, libs[d[1]])+" z))")
	})
}
