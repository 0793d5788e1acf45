package ref

import (
	"sort"
	"strings"
	"unicode"
)

// Docstring returns the docstring of a top-level form, or nil.
func Docstring(root *Node) *Node {
	if !IsForm(root, "ns", "def", "defn", "defmacro", "defmulti") {
		return nil
	}
	kids := root.Kids
	if len(kids) < 3 || kids[1].Kind != Symbol {
		return nil
	}
	i := 2
	for i < len(kids) && kids[i].Kind == Newline {
		i++
	}
	if i == len(kids) || kids[i].Kind != String {
		return nil
	}
	for _, k := range kids[i+1:] {
		switch k.Kind {
		case Newline, Comment, Discard:
		default:
			return kids[i]
		}
	}
	return nil
}

// Docstrings returns the docstrings of a text.
func Docstrings(roots []*Node) map[*Node]bool {
	m := map[*Node]bool{}
	for _, n := range roots {
		if d := Docstring(n); d != nil {
			m[d] = true
		}
	}
	return m
}

// LooseDoc is a docstring without what realigning may change.
func LooseDoc(s string) string {
	lines := strings.Split(s, "\n")
	for i := 1; i < len(lines); i++ {
		lines[i] = strings.TrimSpace(lines[i])
	}
	return strings.Join(lines, "\n")
}

// Missing reports how many of the forms that follow n belong to n, as the
// Clojure reader reads it.
func Missing(n *Node) int {
	switch n.Kind {
	case Tag:
		return 1
	case Meta, Quote, Deref, SyntaxQuote, Unquote, UnquoteSplice, Eval, Discard:
		m := Missing(n.Kids[0])
		if n.Kind == Meta {
			m++
		}
		if n.Kids[0].Kind == Discard {
			m++
		}
		return m
	}
	return 0
}

// Norm says what Program leaves out.
type Norm struct {
	Comments bool // keep comments
	Newlines bool // keep line breaks
	// Ns treats clauses of ns forms as what the documented restyling and
	// sorting make of them: their items are an unordered collection.
	Ns bool
}

// Program is a canonical text of what a source text says.
func Program(roots []*Node, norm Norm) string {
	p := &program{norm: norm, docs: Docstrings(roots)}
	for _, n := range roots {
		if norm.Ns && IsForm(n, "ns") {
			p.ns(n)
		} else {
			p.node(n)
		}
	}
	return p.b.String()
}

type program struct {
	norm Norm
	docs map[*Node]bool
	b    strings.Builder
}

func (p *program) drop(n *Node) bool {
	return n.Kind == Newline && !p.norm.Newlines || n.Kind == Comment && !p.norm.Comments
}

func (p *program) node(n *Node) {
	if p.drop(n) {
		return
	}
	text := n.Text
	if p.docs[n] {
		text = LooseDoc(text)
	}
	p.emit(n.Kind, text, func() {
		for _, k := range n.Kids {
			p.node(k)
		}
	})
}

func (p *program) emit(k Kind, text string, kids func()) {
	p.b.WriteString(k.String())
	if text != "" {
		p.b.WriteByte(':')
		p.b.WriteString(text)
	}
	p.b.WriteByte('\x01')
	kids()
	p.b.WriteByte('\x02')
}

var styledClauses = map[string]bool{"refer-clojure": true, "require": true, "require-macros": true, "use": true, "import": true, "load": true, "gen-class": true}

// ClauseName returns the name of an ns clause that is subject to restyling.
func ClauseName(n *Node) string {
	if n.Kind != List && n.Kind != Vector || len(n.Kids) == 0 {
		return ""
	}
	name := n.Kids[0].Text
	switch n.Kids[0].Kind {
	case Symbol:
	case Keyword:
		name = strings.TrimPrefix(name, ":")
	default:
		return ""
	}
	if !styledClauses[name] {
		return ""
	}
	return name
}

func (p *program) ns(n *Node) {
	p.emit(List, "", func() {
		for i, k := range n.Kids {
			if name := ClauseName(k); i > 0 && name != "" {
				p.clause(name, k)
			} else {
				p.node(k)
			}
		}
	})
}

func (p *program) clause(name string, n *Node) {
	p.emit(List, ":"+name, func() {
		var item func(n *Node)
		switch name {
		case "require", "require-macros":
			item = p.requireItem
		case "import":
			item = p.importItem
		default:
			for _, k := range n.Kids[1:] {
				p.node(k)
			}
			return
		}
		saved := p.b
		var items []string
		p.b = strings.Builder{}
		missing := 0
		for _, k := range n.Kids[1:] {
			switch {
			case k.Kind == Newline:
				continue
			case k.Kind == Comment:
				if p.norm.Comments {
					items = append(items, k.Text)
				}
				continue
			case missing > 0 && k.Kind != Discard:
				missing--
			}
			missing += Missing(k)
			item(k)
			if missing == 0 {
				items = append(items, p.b.String())
				p.b = strings.Builder{}
			}
		}
		rest := p.b.String()
		p.b = saved
		sort.Strings(items)
		for _, it := range items {
			p.b.WriteString(it)
			p.b.WriteByte('\x03')
		}
		p.b.WriteString(rest)
	})
}

func (p *program) requireItem(n *Node) {
	switch n.Kind {
	case Symbol:
		p.emit(Vector, "", func() { p.node(n) })
	case List, Vector:
		p.emit(Vector, "", func() {
			for _, k := range n.Kids {
				if k.Kind == List {
					p.emit(Vector, "", func() {
						for _, k := range k.Kids {
							p.node(k)
						}
					})
				} else {
					p.node(k)
				}
			}
		})
	default:
		p.node(n)
	}
}

// SplitClass splits a class symbol into package and class.
func SplitClass(s string) (pkg, class string, ok bool) {
	i := strings.LastIndex(s, ".")
	if i < 0 || !isName(s[:i]) || !isName(s[i+1:]) {
		return "", "", false
	}
	return s[:i], s[i+1:], true
}

// isName reports whether a part of a symbol can be a symbol of its own.
func isName(s string) bool {
	roots, err := Parse(s)
	if err != nil || len(roots) != 1 || roots[0].Kind != Symbol {
		return false
	}
	r := []rune(s)[0]
	return unicode.IsLetter(r) || r == '_' || r == '$'
}

func (p *program) importItem(n *Node) {
	if pkg, class, ok := SplitClass(n.Text); ok && n.Kind == Symbol {
		p.emit(List, "", func() {
			p.emit(Symbol, pkg, func() {})
			p.emit(Symbol, class, func() {})
		})
		return
	}
	if n.Kind == Vector {
		p.emit(List, "", func() {
			for _, k := range n.Kids {
				p.node(k)
			}
		})
		return
	}
	p.node(n)
}

// AlignDoc realigns a docstring whose opening quote is at a column.
func AlignDoc(s string, col int) string {
	lines := strings.Split(s, "\n")
	for i, line := range lines {
		if i == 0 {
			continue
		}
		indent := 0
		for indent < len(line) && line[indent] == ' ' {
			indent++
		}
		if indent < col || indent == len(line) {
			indent = col
		}
		text := strings.TrimSpace(line)
		// A backslash keeps the blank it escapes.
		bs := 0
		for strings.HasSuffix(text[:len(text)-bs], `\`) {
			bs++
		}
		if bs%2 == 1 {
			after := line[strings.Index(line, text)+len(text):]
			for _, r := range after {
				text += string(r)
				break
			}
		}
		if text != "" {
			text = strings.Repeat(" ", indent) + text
		}
		lines[i] = text
	}
	return strings.Join(lines, "\n")
}
