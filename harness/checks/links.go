package checks

import (
	"fmt"
	"strings"

	"github.com/cespare/goclj/parse"
	"verif/impl"
	"verif/mc"
)

func init() {
	add(&mc.Check{ID: "C05", Run: runC05, Assumptions: []string{
		"a node is only replaced by the container that is its parent (a node listed in two containers has no defined parent)"}})
}

// linkDiff checks every link of a freshly parsed tree.
func linkDiff(nodes []parse.Node, parent parse.Node) string {
	for _, n := range nodes {
		if impl.IsNil(n) {
			return "a nil node is listed"
		}
		p := n.Parent()
		if parent == nil {
			if p != nil {
				return fmt.Sprintf("root %s has parent %v", n, p)
			}
		} else if p != parent {
			return fmt.Sprintf("%s is listed by %s but has parent %v", n, parent, p)
		}
		if d := linkDiff(n.Children(), n); d != "" {
			return d
		}
	}
	return ""
}

func judgeLinks(c *mc.Case, src string) {
	for opts := parse.ParseOpts(0); opts < 8; opts++ {
		if len(src) > 3 && opts != impl.Full && opts != 6 && opts != 7 {
			continue
		}
		t, err := impl.Parse(src, opts)
		c.States(1)
		c.Trans(1)
		if err != nil {
			if opts == impl.Full {
				return
			}
			continue
		}
		c.Valid(1)
		if d := linkDiff(t.Roots, nil); d != "" {
			c.Fail(q(src), "options %d: %s", opts, d)
			return
		}
	}
}

// Texts whose trees are edited: together they have every node type.
var editTexts = []string{
	"(a [b] {c d})",
	"(#{a} #(b))",
	"[#?(:a b) #?@(:c d)]",
	"(@a 'b)",
	"(`a ~b)",
	"(~@a ^b c)",
	"(#_a #=b)",
	"((a) ;c\n b)",
	"#:n{a (b) 1 \"s\"}",
	"(a) [b] 'c",
}

func collect(nodes []parse.Node, out []parse.Node) []parse.Node {
	for _, n := range nodes {
		out = append(out, n)
		out = collect(n.Children(), out)
	}
	return out
}

// linkModel is the reference: who lists whom, and who is whose parent.
type linkModel struct {
	kids   map[int][]int
	parent map[int]int // -1: none
}

const (
	leaf = iota
	single
	many
)

func arity(n parse.Node) int {
	switch n.(type) {
	case *parse.ListNode, *parse.MapNode, *parse.VectorNode, *parse.FnLiteralNode, *parse.ReaderCondNode, *parse.ReaderCondSpliceNode, *parse.SetNode:
		return many
	case *parse.DerefNode, *parse.MetadataNode, *parse.QuoteNode, *parse.SyntaxQuoteNode, *parse.UnquoteNode, *parse.UnquoteSpliceNode,
		*parse.ReaderDiscardNode, *parse.ReaderEvalNode:
		return single
	}
	return leaf
}

// editWorld is one tree being edited together with its model.
type editWorld struct {
	nodes []parse.Node
	id    map[parse.Node]int
	m     linkModel
}

func newEditWorld(src string) *editWorld {
	t, err := impl.Parse(src, impl.Full)
	if err != nil {
		return nil
	}
	w := &editWorld{id: map[parse.Node]int{}}
	w.nodes = collect(t.Roots, nil)
	// Two nodes that are in no tree.
	extra, err := impl.Parse("x (y)", impl.Full)
	if err != nil {
		return nil
	}
	w.nodes = append(w.nodes, collect(extra.Roots, nil)...)
	for i, n := range w.nodes {
		w.id[n] = i
	}
	w.m = linkModel{map[int][]int{}, map[int]int{}}
	for i := range w.nodes {
		w.m.parent[i] = -1
	}
	for i, n := range w.nodes {
		for _, k := range n.Children() {
			w.m.kids[i] = append(w.m.kids[i], w.id[k])
			w.m.parent[w.id[k]] = i
		}
	}
	return w
}

// above reports whether x is y or an ancestor of y by listing.
func (w *editWorld) above(x, y int) bool {
	if x == y {
		return true
	}
	for _, k := range w.m.kids[x] {
		if w.above(k, y) {
			return true
		}
	}
	return false
}

// apply replaces target's children; it reports "" if it is not applicable.
func (w *editWorld) apply(target int, list []int) (applied bool, problem string) {
	n := w.nodes[target]
	var kids []parse.Node
	seen := map[int]bool{}
	for _, k := range list {
		if seen[k] || w.above(k, target) {
			return false, ""
		}
		// nodes listed elsewhere can't be taken over
		if p := w.m.parent[k]; p != -1 && p != target {
			return false, ""
		}
		seen[k] = true
		kids = append(kids, w.nodes[k])
	}
	if from := n.Children(); len(list) > 0 && len(from) > 0 {
		// If the new children are neighbours among the old ones, pass
		// them as a caller would who cuts from the list it was given.
		old := w.m.kids[target]
		for i := 0; i+len(list) <= len(old); i++ {
			if fmt.Sprint(old[i:i+len(list)]) == fmt.Sprint(list) {
				kids = from[i : i+len(list)]
				break
			}
		}
	}
	panicked := func() (p interface{}) {
		defer func() { p = recover() }()
		n.SetChildren(kids)
		return nil
	}()
	ar := arity(n)
	wantPanic := ar == leaf || ar == single && len(kids) != 1
	if wantPanic != (panicked != nil) {
		return true, fmt.Sprintf("replacing the children of %s by %d nodes: panic %v", n, len(kids), panicked)
	}
	if !wantPanic {
		for _, k := range w.m.kids[target] {
			w.m.parent[k] = -1
		}
		w.m.kids[target] = list
		for _, k := range list {
			w.m.parent[k] = target
		}
	}
	return true, w.diff()
}

func (w *editWorld) diff() string {
	for i, n := range w.nodes {
		kids := n.Children()
		if len(kids) != len(w.m.kids[i]) {
			return fmt.Sprintf("%s (node %d) lists %d nodes, want %d", n, i, len(kids), len(w.m.kids[i]))
		}
		for j, k := range kids {
			if id, ok := w.id[k]; !ok || id != w.m.kids[i][j] {
				return fmt.Sprintf("%s (node %d) lists %s at %d, want node %d", n, i, k, j, w.m.kids[i][j])
			}
		}
		p := n.Parent()
		if want := w.m.parent[i]; want == -1 && p != nil || want >= 0 && p != w.nodes[want] {
			return fmt.Sprintf("%s (node %d) has parent %v, want node %d", n, i, p, want)
		}
	}
	return ""
}

func (w *editWorld) key() string {
	var b strings.Builder
	for i := range w.nodes {
		fmt.Fprint(&b, w.m.kids[i], w.m.parent[i])
	}
	return b.String()
}

// runC05 checks links after every parse, and explores edit histories: from
// each tree, all sequences of child replacements up to a depth, merging
// histories that lead to the same model state (the state is all there is to
// see, and it is compared after every step).
func runC05(r *mc.Run) {
	tokenSpaces(r, judgeLinks)
	atomSpaces(r, judgeLinks)
	editSpaces(r, judgeLinks, []string{"(", ")", "'", "#_", "a", "\n"})
	scaleSpaces(r, func(c *mc.Case, src string) {
		if len(src) < 3000 {
			judgeLinks(c, src)
		}
	})
	mc.List(r, "editbases", "the trees the edit histories start from", editTexts, judgeLinks)
	type op struct {
		target int
		list   []int
	}
	for ti, src := range editTexts {
		w0 := newEditWorld(src)
		if w0 == nil {
			continue
		}
		n := len(w0.nodes)
		maxList := 2
		if r.Thorough() {
			maxList = 3
		}
		var ops []op
		for t := 0; t < n; t++ {
			for l := 0; l <= maxList; l++ {
				for i := int64(0); i < mc.Pow(n, l); i++ {
					list := mc.Digits(i, n, l)
					if arity(w0.nodes[t]) != many && (l > 1 || l == 1 && list[0] != 0 && arity(w0.nodes[t]) == leaf) && !(l == 2 && list[0] == 0 && list[1] == n-1) {
						continue
					}
					ops = append(ops, op{t, list})
				}
			}
		}
		depth := 3
		// Breadth-first over model states; each frontier history is extended
		// by every operation, in parallel.
		frontier := [][]op{nil}
		seen := map[string]bool{}
		for d := 1; d <= depth && len(frontier) > 0; d++ {
			maxFront := 3000
			if r.Thorough() {
				maxFront = 40000
			}
			if len(frontier) > maxFront {
				r.Extra("frontier_capped_"+fmt.Sprint(ti), fmt.Sprintf("%d of %d states of depth %d extended", maxFront, len(frontier), d-1))
				frontier = frontier[:maxFront]
			}
			type succ struct {
				key  string
				hist []op
			}
			succs := make([][]succ, len(frontier))
			r.Space(fmt.Sprintf("edits%d/depth%d", ti, d), fmt.Sprintf("every replacement after every distinct history on %q", src), int64(len(frontier)), func(c *mc.Case) {
				hist := frontier[c.I]
				c.States(1)
				var local []succ
				dedup := map[string]bool{}
				for _, o := range ops {
					w := newEditWorld(src)
					if w == nil {
						return
					}
					for _, h := range hist {
						w.apply(h.target, h.list)
					}
					ok, problem := w.apply(o.target, o.list)
					if !ok {
						continue
					}
					c.Trans(1)
					c.Valid(1)
					if problem != "" {
						c.Fail(fmt.Sprintf("%q: replacements %v then %v", src, hist, o), "%s", problem)
						return
					}
					k := w.key()
					if !dedup[k] {
						dedup[k] = true
						local = append(local, succ{k, append(append([]op{}, hist...), o)})
						c.Outcome(k)
					}
				}
				succs[c.I] = local
				c.Sample(map[string]interface{}{"tree": src, "history": fmt.Sprint(hist)})
			})
			if r.Replaying() {
				// the frontier is needed to replay deeper cases
				for fi := range frontier {
					var local []succ
					for _, o := range ops {
						w := newEditWorld(src)
						for _, h := range frontier[fi] {
							w.apply(h.target, h.list)
						}
						if ok, p := w.apply(o.target, o.list); ok && p == "" {
							local = append(local, succ{w.key(), append(append([]op{}, frontier[fi]...), o)})
						}
					}
					succs[fi] = local
				}
			}
			var next [][]op
			for _, ss := range succs {
				for _, s := range ss {
					if !seen[s.key] {
						seen[s.key] = true
						next = append(next, s.hist)
					}
				}
			}
			frontier = next
		}
	}
}
