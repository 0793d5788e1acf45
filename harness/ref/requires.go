package ref

import (
	"sort"
	"strings"
)

// A Lib is what a clause says about one lib.
type Lib struct {
	Aliases, Refers, Macros map[string]bool
	All                     bool     // everything is referred
	Bare                    bool     // given as [lib]
	Plain                   bool     // given as lib or (lib)
	Empty                   bool     // given with an empty list of names
	Comments                []string // beside, above and within its items
	Items                   int
}

// A Clause is a :require, :require-macros or :use clause.
type Clause struct {
	Name     string
	Libs     map[string]*Lib
	Extra    []string // items in other shapes
	Comments []string // all of them
	Below    []string // those that belong to no item
	ByExtra  []string // those of other items
}

func (c *Clause) lib(name string) *Lib {
	l := c.Libs[name]
	if l == nil {
		l = &Lib{Aliases: map[string]bool{}, Refers: map[string]bool{}, Macros: map[string]bool{}}
		c.Libs[name] = l
	}
	return l
}

// Merge adds what c1 says.
func (c *Clause) Merge(c1 *Clause) {
	for name, l1 := range c1.Libs {
		l := c.lib(name)
		union(l.Aliases, l1.Aliases)
		union(l.Refers, l1.Refers)
		union(l.Macros, l1.Macros)
		l.All = l.All || l1.All
		l.Bare = l.Bare || l1.Bare
		l.Plain = l.Plain || l1.Plain
		l.Empty = l.Empty || l1.Empty
		l.Comments = append(l.Comments, l1.Comments...)
		l.Items += l1.Items
	}
	c.Extra = append(c.Extra, c1.Extra...)
	c.Comments = append(c.Comments, c1.Comments...)
	c.Below = append(c.Below, c1.Below...)
	c.ByExtra = append(c.ByExtra, c1.ByExtra...)
}

func union(a, b map[string]bool) {
	for k := range b {
		a[k] = true
	}
}

// NewClause returns a clause that says nothing.
func NewClause(name string) *Clause { return &Clause{Name: name, Libs: map[string]*Lib{}} }

// ReadClause reads a clause. styled says that items in other shapes are
// compared after restyling.
func ReadClause(n *Node, styled bool) *Clause {
	c := NewClause(n.Kids[0].Text)
	Walk([]*Node{n}, func(n *Node) {
		if n.Kind == Comment {
			c.Comments = append(c.Comments, n.Text)
		}
	})
	items, below, head := Items(n.Kids[1:])
	switch {
	case head != nil && len(items) > 0 && !items[0].Dangling:
		items[0].Above = append([]*Node{head}, items[0].Above...)
	case head != nil:
		below = append(below, head)
	}
	for _, b := range below {
		c.Below = append(c.Below, b.Text)
	}
	for _, it := range items {
		var comments []string
		for _, k := range it.Above {
			comments = append(comments, k.Text)
		}
		if it.Beside != nil {
			comments = append(comments, it.Beside.Text)
		}
		Walk([]*Node{it.Node}, func(n *Node) {
			if n.Kind == Comment {
				comments = append(comments, n.Text)
			}
		})
		if len(it.Prefix) == 0 && c.read(it.Node, comments) {
			continue
		}
		c.ByExtra = append(c.ByExtra, comments...)
		nodes := append(clone(it.Prefix), it.Node)
		if styled && c.Name != ":use" {
			for i := range nodes {
				nodes[i] = requireStyle(nodes[i])
			}
		}
		c.Extra = append(c.Extra, Program(nodes, Norm{Comments: true}))
	}
	return c
}

// read notes what an item says. It returns false if the item has a shape that
// says something else than which aliases and names of a lib there are.
func (c *Clause) read(n *Node, comments []string) bool {
	use := c.Name == ":use"
	switch n.Kind {
	case Symbol:
		l := c.lib(n.Text)
		l.All = l.All || use
		l.Plain = l.Plain || !use
		l.Comments = append(l.Comments, comments...)
		l.Items++
		return true
	case List, Vector:
	default:
		return false
	}
	var els []*Node
	for _, k := range n.Kids {
		switch k.Kind {
		case Newline:
		case Comment, Meta, Tag, Discard:
			return false
		default:
			els = append(els, k)
		}
	}
	if len(els)%2 != 1 || els[0].Kind != Symbol || use && len(els) > 3 {
		return false
	}
	alias, all, empty := "", use && len(els) == 1, false
	names := map[string]map[string]bool{}
	for i := 1; i < len(els); i += 2 {
		k, v := els[i], els[i+1]
		if k.Kind != Keyword {
			return false
		}
		key := k.Text
		switch {
		case key == ":as":
			if v.Kind != Symbol {
				return false
			}
			alias = v.Text
			continue
		case key == ":refer" && !use && v.Kind == Keyword && v.Text == ":all":
			all = true
			continue
		case (key == ":refer" || key == ":refer-macros") && !use, key == ":only" && use:
		default:
			return false
		}
		if v.Kind != List && v.Kind != Vector {
			return false
		}
		set := map[string]bool{}
		for _, k := range v.Kids {
			switch k.Kind {
			case Symbol:
				set[k.Text] = true
			case Newline, Comment:
			default:
				return false
			}
		}
		empty = empty || len(set) == 0
		names[key] = set
	}
	l := c.lib(els[0].Text)
	if alias != "" {
		l.Aliases[alias] = true
	}
	l.All = l.All || all
	l.Empty = l.Empty || empty
	union(l.Refers, names[":refer"])
	union(l.Refers, names[":only"])
	union(l.Macros, names[":refer-macros"])
	if len(els) == 1 && !use {
		l.Bare = l.Bare || n.Kind == Vector
		l.Plain = l.Plain || n.Kind == List
	}
	l.Comments = append(l.Comments, comments...)
	l.Items++
	return true
}

// Facts lists what a clause says, apart from comments.
func (c *Clause) Facts() []string {
	facts := append([]string{}, c.Extra...)
	for name, l := range c.Libs {
		facts = append(facts, "lib "+name)
		for a := range l.Aliases {
			facts = append(facts, "alias "+a+" of "+name)
		}
		if l.All {
			facts = append(facts, "all of "+name)
		} else {
			for a := range l.Refers {
				facts = append(facts, "name "+a+" of "+name)
			}
		}
		for a := range l.Macros {
			facts = append(facts, "macro "+a+" of "+name)
		}
	}
	sort.Strings(facts)
	return facts
}

// Usage is what the code outside of ns forms uses.
type Usage struct {
	Names, Spaces map[string]bool
	Packages      map[string]bool // those of imported classes
}

// alternatives returns nodes with what reader conditionals may stand for
// instead of them.
func alternatives(nodes []*Node) (out []*Node) {
	for _, n := range nodes {
		switch n.Kind {
		case ReaderCond:
			out = append(out, alternatives(n.Kids)...)
		case ReaderCondSplice:
			for _, k := range n.Kids {
				out = append(out, alternatives(k.Kids)...)
			}
		default:
			out = append(out, n)
		}
	}
	return out
}

// FindUsage finds what a text uses.
func FindUsage(roots []*Node) *Usage {
	u := &Usage{map[string]bool{}, map[string]bool{}, map[string]bool{}}
	var code []*Node
	for _, root := range roots {
		if !IsForm(root, "ns") {
			code = append(code, root)
			continue
		}
		for _, clause := range alternatives(root.Kids[1:]) {
			if ClauseName(clause) != "import" {
				continue
			}
			for _, item := range alternatives(clause.Kids[1:]) {
				switch item.Kind {
				case Symbol:
					if i := strings.LastIndex(item.Text, "."); i >= 0 {
						u.Packages[item.Text[:i]] = true
					}
				case List, Vector:
					kids := item.Kids
					for len(kids) > 0 && (!Semantic(kids[0]) || kids[0].Kind == Discard) {
						kids = kids[1:]
					}
					if len(kids) > 0 && kids[0].Kind == Symbol {
						u.Packages[kids[0].Text] = true
					}
				}
			}
		}
	}
	space := func(text string) bool {
		i := strings.Index(text, "/")
		if i >= 0 {
			u.Spaces[text[:i]] = true
		}
		return i >= 0
	}
	Walk(code, func(n *Node) {
		switch n.Kind {
		case Symbol, VarQuote:
			if n.Text == "/" || !space(n.Text) {
				u.Names[n.Text] = true
			}
		case Keyword:
			if strings.HasPrefix(n.Text, "::") {
				space(n.Text[2:])
			}
		case Map:
			if len(n.Text) > 2 && strings.HasPrefix(n.Text, "::") {
				u.Spaces[n.Text[2:]] = true
			}
		}
	})
	return u
}

// Prune removes what isn't used from a clause. keep says whether to keep a lib
// that is otherwise unused.
func (c *Clause) Prune(u *Usage, keep func(name string, l *Lib) bool) {
	for name, l := range c.Libs {
		for a := range l.Aliases {
			if !u.Spaces[a] {
				delete(l.Aliases, a)
			}
		}
		for _, set := range []map[string]bool{l.Refers, l.Macros} {
			for a := range set {
				if !u.Names[a] {
					delete(set, a)
				}
			}
		}
		if len(l.Aliases)+len(l.Refers)+len(l.Macros) == 0 && !l.All && !keep(name, l) && !u.Spaces[name] &&
			!u.Packages[strings.ReplaceAll(name, "-", "_")] {
			delete(c.Libs, name)
		}
	}
}

// Empty reports whether a clause has nothing but its keyword.
func (c *Clause) Empty() bool {
	return len(c.Libs)+len(c.Extra) == 0
}

// KeywordClauses returns an ns form with the clauses that are subject to
// restyling as lists that start with a keyword.
func KeywordClauses(ns *Node) *Node {
	kids := clone(ns.Kids)
	for i, k := range kids {
		if name := ClauseName(k); i > 0 && name != "" {
			c := with(k, clone(k.Kids))
			c.Kind = List
			c.Kids[0] = &Node{Kind: Keyword, Text: ":" + name}
			kids[i] = c
		}
	}
	return with(ns, kids)
}
