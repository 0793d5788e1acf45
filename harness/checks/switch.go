package checks

import (
	"fmt"
	"strings"

	"github.com/cespare/goclj/format"
	"verif/impl"
	"verif/mc"
	"verif/ref"
)

func init() {
	add(&mc.Check{ID: "C23", Run: runC23, Assumptions: []string{
		"use-to-require and remove-unused-requires alone are judged by C24 and C25; here, what they make of the ns form by themselves is taken as given"}})
}

// switchTexts are changed by all transforms, each in its own way.
var switchTexts = []string{
	"(ns n\n  (:use b)\n  (:require [d :as y] c\n [a :as x])\n (import java.util.Date)\n )\n(defn f\n  [x] y)\n(defmethod m\n  :k [x] y)\n\n\n\n(if a b\n  c)\n(x/f)\n",
	"(ns n\n (require b (a :as x)) [use c]\n (:require [e :refer [p q]])\n\n\n)\n\n\n(z (defn f\n  [x] (if-not a\n b c)\n)\n\n\n\n [(if-let a b\n (if a\n b c))])\n(defn g\n [x] (if a b\n c\n)\n)\n(defmethod m\n :k\n\n\n [p])",
	"(ns n (:use [b :only [s]] b) (:import [z Z] a.A)(:require-macros [f :as f] e))\n\n\n\n(f/g)\n(defn f\n [\n] y)",
	"(defn f\n [x] ;c\n (if a ;d\n b c)\n)\n(ns n\n\n\n (:require ;a\n b ;b\n ;c\n (a) ;d\n)\n (:use a))\n",
	"(defmethod f\n :k ;c\n {\n:a\n\n\n\nb\n})\n(ns n (:require [b :as x :refer [y]]))\n#(if a b\n c\n)\n'(defn f\n [x] y)",
	"(ns n\n(:require [b.c :as x]\n[b])\n(:use (b :as z) d [e :exclude [f]])(:gen-class\n:a b)\n{:a\n}\n)\n\n\n\n(if-some a\nb c)",
}

func runC23(r *mc.Run) {
	// Every setting of every transform: not mentioned, on, or off.
	n := 1
	for i := 0; i < impl.NumTransforms; i++ {
		n *= 3
	}
	explicit := func(setting int) (m map[format.Transform]bool, mask int) {
		m = map[format.Transform]bool{}
		for i := 0; i < impl.NumTransforms; i++ {
			on := ref.Defaults[i]
			switch setting % 3 {
			case 1:
				on = true
				m[format.Transform(i)] = true
			case 2:
				on = false
				m[format.Transform(i)] = false
			}
			if on {
				mask |= 1 << i
			}
			setting /= 3
		}
		return
	}
	r.Space("settings", "every transform unset, on, or off: unset ones follow the defaults", mc.Size(n, len(switchTexts)), func(c *mc.Case) {
		d := c.Dims(n, len(switchTexts))
		m, mask := explicit(d[0])
		src := switchTexts[d[1]]
		got, ok, err := impl.Format(src, &impl.Cfg{Transforms: m})
		want, _, _ := impl.Format(src, &impl.Cfg{Transforms: impl.Mask(mask)})
		c.Trans(2)
		c.States(1)
		c.Valid(1)
		if !ok || err != nil || got != want {
			c.Fail(q(src), "transforms %v: formatted as %s (%v %v), but as %s with %09b (in the order of the constants) given explicitly", m, q(got), ok, err, q(want), mask)
		}
		c.Outcome(got)
		if c.WantSample() {
			c.Sample(fmt.Sprintf("transforms %v, text %d", m, d[1]))
		}
	})
	// Every set of transforms does what its members do.
	texts := append(append(append([]string{}, switchTexts...), transformTexts()...), corpus...)
	texts = append(texts, nsTexts()...)
	every := 512
	keep := func(text, mask int) bool { return r.Thorough() || text < len(switchTexts) || (text+mask)%5 == 0 }
	r.Space("sets", "every set of transforms is the composition of what each does by itself", mc.Size(len(texts), every), func(c *mc.Case) {
		d := c.Dims(len(texts), every)
		src, mask := texts[d[0]], d[1]
		if !keep(d[0], mask) {
			return
		}
		judgeSet(c, src, mask)
	})
	// The flags.
	names := []string{"sort-import-require", "enforce-ns-style", "remove-trailing-newlines", "fix-defn-arglist-newline", "fix-defmethod-dispatch-val-newline",
		"remove-extra-blank-lines", "fix-if-newline-consistency", "use-to-require", "remove-unused-requires"}
	def := 0
	for i, on := range ref.Defaults {
		if on {
			def |= 1 << i
		}
	}
	flag := func(x, spelling int) []string {
		f := "enable-transform"
		if x%2 == 1 {
			f = "disable-transform"
		}
		switch spelling {
		case 1:
			return []string{"--" + f + "=" + names[x/2]}
		case 2:
			return []string{"-" + f + "=" + names[x/2]}
		}
		return []string{"-" + f, names[x/2]}
	}
	flags := func(c *mc.Case, xs []int, src string) {
		mask := def
		var args []string
		for i, x := range xs {
			args = append(args, flag(x, (i+int(c.I))%3)...)
			mask = mask &^ (1 << (x / 2))
			if x%2 == 0 {
				mask |= 1 << (x / 2)
			}
		}
		want, _, _ := impl.Format(src, &impl.Cfg{Transforms: impl.Mask(mask)})
		res := runCLI(c, cliRun{args: args, stdin: src})
		c.States(1)
		c.Valid(1)
		if res.exit != 0 || res.stdout != want || res.stderr != "" {
			c.Fail(fmt.Sprintf("flags %q, input %s", args, q(src)), "exit status %d, output %s %s; want %s", res.exit, q(res.stdout), q(res.stderr), q(want))
		}
	}
	k := 2 * len(names)
	r.Space("flags/1", "every flag", mc.Size(k, len(switchTexts)), func(c *mc.Case) {
		d := c.Dims(k, len(switchTexts))
		flags(c, d[:1], switchTexts[d[1]])
	})
	r.Space("flags/2", "every sequence of two flags", mc.Size(k, k), func(c *mc.Case) {
		d := c.Dims(k, k)
		flags(c, d, switchTexts[0])
	})
	if r.Thorough() {
		r.Space("flags/3", "every sequence of three flags", mc.Size(k, k, k), func(c *mc.Case) {
			d := c.Dims(k, k, k)
			flags(c, d, switchTexts[0])
		})
	} else {
		r.Space("flags/3", "every sequence of three flags for one or two transforms", mc.Size(len(names), 2, 2, 2, 3), func(c *mc.Case) {
			d := c.Dims(len(names), 2, 2, 2, 3)
			x := []int{2*d[0] + d[1], 2*d[0] + d[2], 2*d[0] + d[3]}
			if d[4] < 2 {
				x[d[4]] = (x[d[4]] + 2) % k
			}
			flags(c, x, switchTexts[0])
		})
	}
	var bad []string
	for _, n := range names {
		bad = append(bad, n+" ", n[1:], n[:len(n)-1], strings.ToUpper(n), n+"s", ":"+n, strings.ReplaceAll(n, "-", "_"), n+","+names[0])
	}
	bad = append(bad, "", "all", "none", "default", "0", "sort", "indent", "*", "sort-import-require\n", "true")
	r.Space("unknown", "unknown names for each flag", mc.Size(len(bad), 2, 3), func(c *mc.Case) {
		d := c.Dims(len(bad), 2, 3)
		f := []string{"-enable-transform", "-disable-transform"}[d[1]]
		args := [][]string{{f, bad[d[0]]}, {f + "=" + bad[d[0]]}, {"-enable-transform", names[0], f, bad[d[0]], "-disable-transform", names[1]}}[d[2]]
		res := runCLI(c, cliRun{args: args, stdin: switchTexts[0]})
		c.States(1)
		c.Valid(1)
		if res.exit == 0 || res.stdout != "" || res.stderr == "" {
			c.Fail(fmt.Sprintf("flags %q", args), "exit status %d, output %s, message %s; want a refusal", res.exit, q(res.stdout), q(firstN(res.stderr, 300)))
		}
	})
}

// judgeSet checks that a set of transforms does what its members do, one after
// the other.
func judgeSet(c *mc.Case, src string, mask int) {
	roots, err := ref.Parse(src)
	if err != nil {
		return
	}
	on := onMask(mask)
	cfg := &impl.Cfg{Transforms: impl.Mask(mask)}
	f := formatParsed(c, src, roots, cfg)
	if f == nil {
		return
	}
	rewrite := mask >> ref.UseToRequire << ref.UseToRequire
	if rewrite != 0 {
		// Restyling the clauses themselves comes first.
		if on[ref.EnforceNSStyle] {
			for i, n := range roots {
				if ref.IsForm(n, "ns") {
					roots[i] = ref.KeywordClauses(n)
				}
			}
		}
		text, _ := spell(ref.Ended(roots, false), func(i int, must bool) string {
			if must {
				return " "
			}
			return ""
		}, func(int) string { return "\n" })
		for t := ref.UseToRequire; t < ref.NumTransforms; t++ {
			if !on[t] {
				continue
			}
			var ok bool
			if text, ok, _ = impl.Format(text, &impl.Cfg{Transforms: impl.Mask(1 << t)}); !ok {
				c.Fail(q(src), "the text as restyled by transform %d alone is rejected", t)
				return
			}
			c.Trans(1)
		}
		if roots, err = ref.Parse(text); err != nil {
			c.Fail(q(src), "the text as restyled by single transforms is malformed: %s", q(text))
			return
		}
	}
	if rewrite != 0 {
		judgeRequires(c, src, mask)
	}
	model := ref.Transform(roots, on)
	c.Valid(1)
	if want, got := ref.Program(model, everything), ref.Program(f.after, everything); want != got {
		c.Fail(q(src), "%s: formatted as %s, which isn't what the transforms do one after the other: %s", cfg, q(f.out), diffAt(got, want))
	}
}
