package checks

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"github.com/cespare/goclj/format"
	"verif/impl"
	"verif/mc"
)

func init() {
	add(&mc.Check{ID: "C13", Run: runC13, Unstable: true, Assumptions: []string{
		"ranges over maps are goclj's only source of nondeterminism that is enumerated; others are only looked for by repeating runs and processes"}})
}

// withOrders runs a function with chosen iteration orders of maps; it is set if
// goclj is instrumented.
var withOrders func(choices []int, f func()) []int

func runC13(r *mc.Run) {
	set := func(on []format.Transform, off []format.Transform) *impl.Cfg {
		m := map[format.Transform]bool{}
		for _, t := range on {
			m[t] = true
		}
		for _, t := range off {
			m[t] = false
		}
		return &impl.Cfg{Transforms: m}
	}
	sort, use, unused := format.TransformSortImportRequire, format.TransformUseToRequire, format.TransformRemoveUnusedRequires
	style := format.TransformEnforceNSStyle
	cfgs := []*impl.Cfg{
		nil,
		set([]format.Transform{use, unused}, nil),
		set([]format.Transform{use}, []format.Transform{sort}),
		set([]format.Transform{unused}, []format.Transform{sort}),
		set([]format.Transform{use, unused}, []format.Transform{sort, style}),
		{Indents: map[string]format.IndentStyle{"foo": format.IndentCond1, "b/f": format.IndentLet, "c/f": format.IndentCond0, "f": format.IndentNormal, "let": format.IndentList},
			ThreadFirst: map[string]format.ThreadFirstStyle{"x->": format.ThreadFirstNormal, "y->": format.ThreadFirstCondArrow}},
		// The same name with different styles in several namespaces.
		{Indents: map[string]format.IndentStyle{"a/f": format.IndentCond1, "b/f": format.IndentLet, "c/f": format.IndentCond0, "d.e/f": format.IndentList},
			ThreadFirst: map[string]format.ThreadFirstStyle{"a/f": format.ThreadFirstNormal, "b/f": format.ThreadFirstCondArrow, "a/->": format.ThreadFirstCondArrow}},
		{Indents: map[string]format.IndentStyle{"a/if": format.IndentCond1, "b/if": format.IndentLet, "f": format.IndentDeftype, "F": format.IndentLet, "f*": format.IndentCond1, "a.f/f": format.IndentCond4, "b.f/f": format.IndentNormal, "with-f": format.IndentFor, "def-f": format.IndentLetfn},
			ThreadFirst: map[string]format.ThreadFirstStyle{"f->": format.ThreadFirstNormal, "F->": format.ThreadFirstCondArrow}},
	}
	judge := func(c *mc.Case, src string, cfg *impl.Cfg) {
		var want string
		var ok bool
		var err error
		format := func(choices []int) (string, []int) {
			var out string
			sizes := withOrders(choices, func() { out, ok, err = impl.Format(src, cfg) })
			c.Trans(1)
			return out, sizes
		}
		if withOrders == nil {
			format = func([]int) (string, []int) {
				var out string
				out, ok, err = impl.Format(src, cfg)
				c.Trans(1)
				return out, nil
			}
		}
		var sizes []int
		want, sizes = format(nil)
		if !ok || err != nil {
			return
		}
		c.States(1)
		depth := 1
		if r.Thorough() {
			depth = 2
		}
		var explore func(choices, sizes []int, left int)
		explore = func(choices, sizes []int, left int) {
			for i := len(choices); i < len(sizes) && !c.Failed(); i++ {
				for ch := 1; ch < sizes[i] && !c.Failed(); ch++ {
					next := make([]int, i+1)
					copy(next, choices)
					next[i] = ch
					out, sz := format(next)
					c.Valid(1)
					if out != want {
						c.Fail(q(src), "%s: formatted as %s, but with the orders %v of ranges over maps as %s", cfg, q(want), next, q(out))
						return
					}
					if left > 1 {
						explore(next, sz, left-1)
					}
				}
			}
		}
		explore(nil, sizes, depth)
		// and as it comes
		for k := 0; k < 2 && !c.Failed(); k++ {
			out, _, _ := impl.Format(src, cfg)
			c.Trans(1)
			if out != want {
				c.Fail(q(src), "%s: formatted as %s, and then as %s", cfg, q(want), q(out))
			}
		}
		c.Outcome(want)
		if c.WantSample() {
			c.Sample(map[string]interface{}{"source": short(src), "orders_per_range": sizes})
		}
	}
	texts := append(append(append([]string{}, corpus...), nsTexts()...), orderTexts...)
	r.Space("texts", "texts under several settings, every order of every range over a map", mc.Size(len(texts), len(cfgs)), func(c *mc.Case) {
		d := c.Dims(len(texts), len(cfgs))
		judge(c, texts[d[0]], cfgs[d[1]])
	})
	ns := func(cfg *impl.Cfg) srcFunc { return func(c *mc.Case, src string) { judge(c, src, cfg) } }
	items := []string{"b", "[b :as x]", "[b :as y]", "[a :as x]", "[a :refer [p]]", "[a :refer [q p]]", "[c :refer [p] :as d]", "[b :refer [r] :as y]", "[c :refer-macros [s p]]", ";k\n"}
	k := 3
	slots := cat(one("(ns n\n(:require "), rep(k, items, []string{" "}), one("", ")\n(:use b [a :only [q t]]", ")\n(:use c [c :as e])(:require-macros [b :as z] [a :refer [p]]"), one("!"), one("", "\n(p q x/y d/f s)"))
	for i, cfg := range cfgs[1:5] {
		if i == 0 || i == 3 || r.Thorough() {
			product(r, "ns/"+itoa(i+1), "ns forms with several requires and uses of the same libs", closingMid(ns(cfg)), slots...)
		}
	}
	// Names that other orders don't tell apart.
	alike := []string{"b", "B", "b.c", "b-c", "b1", "b01", "é", "É", "B.c", "b_c", "b.1", "e\u0301", "bb"}
	names := quick(r, alike, 7)
	for i, cfg := range cfgs[1:5] {
		if i != 0 && i != 3 && !r.Thorough() {
			continue
		}
		product(r, "alike/"+itoa(i+1), "libs and names that resemble each other", closingMid(ns(cfg)), cat(one(quick(r, []string{"(ns n\n(:require [", "(ns n (:use z) (:require ["}, 1)...), one(names...), one("] ", " :as x] ", " :refer [p q]] "), one(names...), one(" ", ")\n(:use "), one(quick(r, alike, 1)...), one("!"), one("", "\nx/f p q B/f b/f"))...)
		product(r, "refers/"+itoa(i+1), "referred names and aliases that resemble each other", closingMid(ns(cfg)), cat(one("(ns n\n(:require [a :refer ["), one(names...), one(" "), one(names...), one("]] [a :as "), one(alike[:3]...), one("] [a :as "), one(alike[:3]...), one(" :refer [B b b-c z"), one("!"), one(quick(r, []string{"\nb B b-c b_c é b/x B/x", ""}, 1)...))...)
	}
	for k, cfg := range cfgs[5:] {
		product(r, "names/"+itoa(k), "every spelling of names that several overrides have", closingMid(ns(cfg)), cat(one("", "(ns n (:require [b :as x :refer [f]] [a.f :as y :refer [g]] [c :refer [f]]))\n", "(ns n (:require [d.e :as a] [a :as b]))\n"),
			one("(", "#(", "(-> "), one("f", "a/f", "b/f", "c/f", "d/f", "d.e/f", "e/f", "x/f", "y/f", "z/f", "if", "a/if", "b/if", "z/if", "F", "f*", "a.f/f", "b.f/f", "with-f", "x/with-f", "def-f", "a/->", "->", "b/->", "f->", "a/f->", "F->"),
			one(" [a\nb] c\n(case d\ne)\ng", " a\n[b\nc]\n(case d\ne)", "\na\nb\n(f g\nh)"), one("!"))...)
	}
	product(r, "alias", "aliases and referred names bound several times", closingMid(ns(cfgs[5])), cat(one("(ns n (:require "), rep(3, []string{"[b :as x] ", "[c :as x] ", "[d :as x] ", "[b :refer [f]] ", "[c :refer [f]] ", "[b :as x :refer [f]] "}), one("!"), one("\n(x/f [a\nb] c\nd\ne)", "\n(f [a\nb]\nc d\ne)"))...)

	// Other processes.
	bin := filepath.Join(os.Getenv("VERIF_BIN"), "cljfmt")
	flags := [][]string{nil, {"-enable-transform", "use-to-require", "-enable-transform", "remove-unused-requires", "-disable-transform", "sort-import-require"}}
	every := 4
	if r.Thorough() {
		every = 1
	}
	var some []string
	for i, s := range texts {
		if i%every == 0 || i >= len(texts)-len(orderTexts) {
			some = append(some, s)
		}
	}
	r.Space("processes", "three runs of cljfmt each", mc.Size(len(some), len(flags)), func(c *mc.Case) {
		d := c.Dims(len(some), len(flags))
		var outs [3]string
		for i := range outs {
			cmd := exec.Command(bin, flags[d[1]]...)
			cmd.Env = []string{"HOME=/nonexistent", "PATH=" + os.Getenv("PATH")}
			cmd.Stdin = strings.NewReader(some[d[0]])
			out, err := cmd.CombinedOutput()
			outs[i] = fmt.Sprintf("%s %v", out, err)
			c.Trans(1)
		}
		c.States(1)
		c.Valid(2)
		if outs[1] != outs[0] || outs[2] != outs[0] {
			c.Fail(q(some[d[0]]), "flags %v: three runs give %s, %s, %s", flags[d[1]], q(outs[0]), q(outs[1]), q(outs[2]))
		}
	})
}

var orderTexts = []string{
	"(ns n (:require [b :as x] [b :as y] [b :as z] [a :as w] [a :refer [p q]] [a :refer [r]] c d e f g) (:use h [i :only [j]] [b :only [s t u]]))\n(x/a y/b z/c w/d p q r s t)",
	"(ns n (:require [b :as x] [c :as x] [d :as x] [b :refer [f]] [c :refer [f]] [d :refer [f]]))\n(x/f a\nb)\n(f a\nb)",
	"(ns n (:require [b :as x] [b :as x1] [b :as x2] [b :as x3] [b :as x4] [b :as x5] [b :as x6] [b :as x7] [b :as x8] [b :as x9]) (:use [b :only [a1 a2 a3 a4 a5 a6 a7 a8 a9]]))\n(x/a x3/b x7/c a1 a9)",
	"(ns n (:use a b c d e f g h i j k l m))\n(p)",
}
