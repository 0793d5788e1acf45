package ref

import (
	"sort"
	"strings"
)

// The transforms, in the order in which format numbers them.
const (
	SortImportRequire = iota
	EnforceNSStyle
	RemoveTrailingNewlines
	FixDefnArglist
	FixDefmethodDispatchVal
	RemoveExtraBlankLines
	FixIfNewlines
	UseToRequire
	RemoveUnusedRequires
	NumTransforms
)

// Defaults says which transforms are on by default.
var Defaults = [NumTransforms]bool{true, true, true, true, true, true, true, false, false}

func with(n *Node, kids []*Node) *Node {
	m := *n
	m.Kids = kids
	return &m
}

func clone(kids []*Node) []*Node { return append([]*Node{}, kids...) }

func newline() *Node { return &Node{Kind: Newline} }

// Ended returns nodes with the line breaks that comments need if they are not
// to swallow what follows.
func Ended(nodes []*Node, delimited bool) []*Node {
	var out []*Node
	for i, n := range nodes {
		if len(n.Kids) > 0 {
			n = with(n, Ended(n.Kids, true))
		}
		out = append(out, n)
		if n.Kind == Comment {
			if i+1 < len(nodes) && nodes[i+1].Kind != Newline || i+1 == len(nodes) && delimited {
				out = append(out, newline())
			}
		}
	}
	return out
}

// Transform returns what the transforms that are on make of a text. Those
// that rewrite the requires (from UseToRequire on) aren't modelled here.
func Transform(roots []*Node, on [NumTransforms]bool) []*Node {
	roots = Ended(roots, false)
	var out []*Node
	for _, n := range roots {
		if IsForm(n, "ns") {
			if on[EnforceNSStyle] {
				n = nsStyle(n)
			}
			if on[SortImportRequire] {
				n = sortNS(n)
			}
		}
		if on[RemoveTrailingNewlines] {
			n = deep(n, noTrailing)
		}
		if on[FixDefnArglist] && IsForm(n, "defn") {
			n = moveUp(n, Vector, false)
		}
		if on[FixDefmethodDispatchVal] && IsForm(n, "defmethod") {
			n = moveUp(n, Keyword, true)
		}
		if on[RemoveExtraBlankLines] {
			n = deep(n, func(n *Node) *Node { return with(n, oneBlank(n.Kids, 0)) })
		}
		if on[FixIfNewlines] {
			n = deep(n, bothArms)
		}
		out = append(out, n)
	}
	if on[RemoveExtraBlankLines] {
		out = oneBlank(out, 1) // the text starts on a line of its own
	}
	return Ended(out, false)
}

// deep applies f to every node, inner ones first.
func deep(n *Node, f func(*Node) *Node) *Node {
	if len(n.Kids) == 0 {
		return n
	}
	kids := clone(n.Kids)
	for i := range kids {
		kids[i] = deep(kids[i], f)
	}
	return f(with(n, kids))
}

// oneBlank reduces runs of blank lines. breaks is the number of line breaks
// already before the first node.
func oneBlank(kids []*Node, breaks int) []*Node {
	var out []*Node
	for _, k := range kids {
		if k.Kind == Newline {
			if breaks++; breaks > 2 {
				continue
			}
		} else {
			breaks = 0
		}
		out = append(out, k)
	}
	return out
}

// noTrailing removes the line breaks before a closing delimiter.
func noTrailing(n *Node) *Node {
	switch n.Kind {
	case List, Vector, Map, Set, FnLit:
	default:
		return n
	}
	end := len(n.Kids)
	for end > 0 && n.Kids[end-1].Kind == Newline {
		end--
	}
	if end > 0 && end < len(n.Kids) && n.Kids[end-1].Kind == Comment {
		end++ // a comment has to end
	}
	return with(n, n.Kids[:end])
}

// moveUp moves a node of the given kind from the line after the form's name up
// to the name's line. What follows it gets a line of its own.
func moveUp(n *Node, kind Kind, already bool) *Node {
	k := n.Kids
	if len(k) < 5 || k[2].Kind != Newline || k[3].Kind != kind {
		return n
	}
	if k[4].Kind == Newline {
		if !already {
			return n // what follows has its own line already
		}
		return with(n, append([]*Node{k[0], k[1], k[3]}, k[4:]...))
	}
	return with(n, append([]*Node{k[0], k[1], k[3], k[2]}, k[4:]...))
}

// bothArms puts both arms of an if on their own lines if one of them is.
func bothArms(n *Node) *Node {
	if !IsForm(n, "if", "if-not", "if-let", "if-some") {
		return n
	}
	// Where the test, then, and else parts start (with their metadata and
	// tags), and whether a line break comes before their form.
	var starts []int
	var broken []bool
	start, nl := -1, false
	for i := 1; i < len(n.Kids) && len(starts) < 3; i++ {
		k := n.Kids[i]
		switch {
		case k.Kind == Newline:
			nl = true
			start = -1
		case k.Kind == Comment:
			start = -1
		case Semantic(k):
			if start < 0 {
				start = i
			}
			starts = append(starts, start)
			broken = append(broken, nl)
			start, nl = -1, false
		case start < 0:
			start = i
		}
	}
	if len(starts) < 3 || broken[1] == broken[2] {
		return n
	}
	at := starts[1]
	if broken[1] {
		at = starts[2]
	}
	return with(n, append(append(clone(n.Kids[:at]), newline()), n.Kids[at:]...))
}

// nsStyle restyles the clauses of an ns form.
func nsStyle(ns *Node) *Node {
	kids := clone(ns.Kids)
	for i, k := range kids {
		name := ClauseName(k)
		if i == 0 || name == "" {
			continue
		}
		c := with(k, clone(k.Kids))
		c.Kind = List
		c.Kids[0] = &Node{Kind: Keyword, Text: ":" + name}
		for j, item := range c.Kids[1:] {
			switch name {
			case "require", "require-macros":
				c.Kids[j+1] = requireStyle(item)
			case "import":
				c.Kids[j+1] = importStyle(item)
			}
		}
		if name != "refer-clojure" && len(c.Kids) > 1 && c.Kids[1].Kind != Newline && c.Kids[1].Kind != Comment {
			c.Kids = append([]*Node{c.Kids[0], newline()}, c.Kids[1:]...)
		}
		kids[i] = c
	}
	return with(ns, kids)
}

func requireStyle(n *Node) *Node {
	switch n.Kind {
	case Symbol:
		return &Node{Kind: Vector, Kids: []*Node{n}}
	case List, Vector:
		v := with(n, clone(n.Kids))
		v.Kind = Vector
		for i, k := range v.Kids {
			if k.Kind == List {
				v.Kids[i] = with(k, k.Kids)
				v.Kids[i].Kind = Vector
			}
		}
		return v
	}
	return n
}

func importStyle(n *Node) *Node {
	switch n.Kind {
	case Symbol:
		if pkg, class, ok := SplitClass(n.Text); ok {
			return &Node{Kind: List, Kids: []*Node{{Kind: Symbol, Text: pkg}, {Kind: Symbol, Text: class}}}
		}
	case Vector:
		l := with(n, n.Kids)
		l.Kind = List
		return l
	}
	return n
}

// An Item is an item of an ns clause with what belongs to it.
type Item struct {
	Above  []*Node // comments
	Prefix []*Node // metadata and the like
	Node   *Node
	Beside *Node // comment
	// Dangling says that the form that Node applies to is missing.
	Dangling bool
}

// Items splits up what follows the keyword of a clause. below are the comments
// that belong to no item; head is the comment beside the keyword.
func Items(kids []*Node) (items []*Item, below []*Node, head *Node) {
	var above, prefix []*Node
	missing := 0
	var last *Item // on this line
	for i, k := range kids {
		switch k.Kind {
		case Newline:
			last = nil
		case Comment:
			switch {
			case i == 0:
				head = k
			case last != nil:
				last.Beside = k
			default:
				above = append(above, k)
			}
		default:
			if missing > 0 && k.Kind != Discard {
				missing--
			}
			missing += Missing(k)
			if missing > 0 {
				prefix = append(prefix, k)
				last = nil
				continue
			}
			last = &Item{Above: above, Prefix: prefix, Node: k}
			items = append(items, last)
			above, prefix = nil, nil
		}
	}
	if i := len(prefix) - 1; i >= 0 { // nothing follows the last prefix
		items = append(items, &Item{Prefix: prefix[:i], Node: prefix[i], Dangling: true})
	}
	return items, above, head
}

// itemName is what an item of a clause is sorted by.
func itemName(n *Node) (string, bool) {
	switch n.Kind {
	case Symbol:
		return n.Text, true
	case List, Vector:
		if len(n.Kids) > 0 && n.Kids[0].Kind == Symbol {
			return n.Kids[0].Text, true
		}
	}
	return "", false
}

func sortNS(ns *Node) *Node {
	kids := clone(ns.Kids)
	for i, k := range kids {
		if i > 0 && IsClause(k, ":require", ":require-macros", ":import") {
			kids[i] = sortClause(k)
		}
	}
	return with(ns, kids)
}

func sortClause(n *Node) *Node {
	items, below, head := Items(n.Kids[1:])
	sort.SliceStable(items, func(i, j int) bool {
		a, aok := itemName(items[i].Node)
		b, bok := itemName(items[j].Node)
		return aok && (!bok || strings.Compare(a, b) < 0)
	})
	out := []*Node{n.Kids[0]}
	if head != nil {
		out = append(out, head, newline())
	} else if len(n.Kids) > 1 && n.Kids[1].Kind == Newline {
		out = append(out, newline())
	}
	for i, it := range items {
		for _, c := range it.Above {
			out = append(out, c, newline())
		}
		out = append(append(out, it.Prefix...), it.Node)
		if it.Beside != nil {
			out = append(out, it.Beside)
		}
		if i < len(items)-1 || it.Beside != nil || len(below) > 0 {
			out = append(out, newline())
		}
	}
	for _, c := range below {
		out = append(out, c, newline())
	}
	// A line break of an otherwise empty clause is kept only after a comment.
	if len(out) == 2 && out[1].Kind == Newline {
		out = out[:1]
	}
	return with(n, out)
}
