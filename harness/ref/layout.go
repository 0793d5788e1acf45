package ref

import (
	"fmt"
	"strings"
	"unicode/utf8"
)

// Style is an indentation style.
type Style int

const (
	Normal Style = iota
	ListStyle
	ListBody
	Let
	For
	Letfn
	Deftype
	Cond0
	Cond1
	Cond2
	Cond4
	bindings // pairs: maps, reader conditionals, binding vectors
)

// Threading is the variety of a thread-first macro.
type Threading int

const (
	ThreadAll Threading = iota
	ThreadCond
)

// BuiltinIndents is the built-in style table.
var BuiltinIndents = map[string]Style{}

// BuiltinThreading is the built-in table of thread-first macros.
var BuiltinThreading = map[string]Threading{"->": ThreadAll, "some->": ThreadAll, "cond->": ThreadCond}

func init() {
	for style, names := range map[Style]string{
		ListBody: `as-> bound-fn catch def definline defmacro defmethod defmulti defn defn- defonce defstruct deftest deftest-
			doto extend fn if if-not locking ns send-off set-test testing update update-in when when-not while with-bindings
			with-in-str with-precision with-redefs-fn with-test`,
		Let:     `binding dotimes if-let if-some let loop when-first when-let when-some with-local-vars with-open with-redefs`,
		For:     `doseq for`,
		Letfn:   `letfn`,
		Deftype: `definterface defprotocol defrecord deftype extend-protocol extend-type proxy reify`,
		Cond0:   `cond`,
		Cond1:   `assoc case cond-> cond->>`,
		Cond2:   `condp defproject`,
	} {
		for _, name := range strings.Fields(names) {
			BuiltinIndents[name] = style
		}
	}
}

// Settings are what the layout depends on besides the tokens and line breaks.
type Settings struct {
	Indents   map[string]Style     // user overrides
	Threading map[string]Threading // user overrides
}

// Semantic reports whether n counts as an element.
func Semantic(n *Node) bool {
	switch n.Kind {
	case Newline, Comment, Meta, Tag:
		return false
	}
	return true
}

// IsForm reports whether n is a list headed by one of the given symbols.
func IsForm(n *Node, heads ...string) bool {
	if n.Kind != List || len(n.Kids) == 0 || n.Kids[0].Kind != Symbol {
		return false
	}
	for _, h := range heads {
		if n.Kids[0].Text == h {
			return true
		}
	}
	return len(heads) == 0
}

// IsClause reports whether n is a list headed by one of the given keywords.
func IsClause(n *Node, heads ...string) bool {
	if n.Kind != List || len(n.Kids) == 0 || n.Kids[0].Kind != Keyword {
		return false
	}
	for _, h := range heads {
		if n.Kids[0].Text == h {
			return true
		}
	}
	return len(heads) == 0
}

type layout struct {
	set      Settings
	cols     []int // column of every byte offset, in characters
	aliases  map[string]string
	referred map[string]string
	threaded map[*Node]bool
	special  map[*Node]Style
	problem  string
	checked  int
}

// Columns returns the column, in characters, of every byte offset of src.
func Columns(src string) []int {
	cols := make([]int, len(src)+1)
	col := 0
	for i := 0; i < len(src); {
		r, w := utf8.DecodeRuneInString(src[i:])
		for j := 0; j < w; j++ {
			cols[i+j] = col
		}
		col++
		if r == '\n' {
			col = 0
		}
		i += w
	}
	cols[len(src)] = col
	return cols
}

// CheckLayout checks the indentation of a formatted text. It returns the
// first problem, if any, and the number of lines whose indentation was judged.
func CheckLayout(src string, roots []*Node, set Settings) (problem string, checked int) {
	l := &layout{set: set, cols: Columns(src), aliases: map[string]string{}, referred: map[string]string{},
		threaded: map[*Node]bool{}, special: map[*Node]Style{}}
	for _, n := range roots {
		l.bind(n)
		l.thread(n)
	}
	l.seq(roots, 0, Normal)
	return l.problem, l.checked
}

// bind notes what the requires of an ns form bind.
func (l *layout) bind(ns *Node) {
	if !IsForm(ns, "ns") {
		return
	}
	for _, clause := range ns.Kids {
		if !IsClause(clause, ":require", ":require-macros") {
			continue
		}
		for _, item := range clause.Kids {
			if item.Kind != List && item.Kind != Vector {
				continue
			}
			var els []*Node
			for _, k := range item.Kids {
				if Semantic(k) {
					els = append(els, k)
				}
			}
			if len(els)%2 != 1 || els[0].Kind != Symbol {
				continue
			}
			alias := ""
			for i := 1; i < len(els); i += 2 {
				k, v := els[i], els[i+1]
				if k.Kind != Keyword {
					continue
				}
				switch k.Text {
				case ":as":
					if v.Kind == Symbol {
						alias = v.Text
					}
				case ":refer", ":refer-macros":
					for _, name := range v.Kids {
						if name.Kind == Symbol {
							l.referred[name.Text] = els[0].Text
						}
					}
				}
			}
			if alias != "" {
				l.aliases[alias] = els[0].Text
			}
		}
	}
}

// thread marks the lists that get an argument threaded into them.
func (l *layout) thread(n *Node) {
	if (n.Kind == List || n.Kind == FnLit) && len(n.Kids) > 0 && n.Kids[0].Kind == Symbol {
		how, ok := l.set.Threading[n.Kids[0].Text]
		if !ok {
			how, ok = BuiltinThreading[n.Kids[0].Text]
		}
		if ok {
			first := 2 // after the macro's name and its first argument
			if l.threaded[n] {
				first = 1
			}
			i := -1
			for _, k := range n.Kids {
				if !Semantic(k) {
					continue
				}
				i++
				if k.Kind == List && i >= first && (how == ThreadAll || (i-first)%2 == 1) {
					l.threaded[k] = true
				}
			}
		}
	}
	for _, k := range n.Kids {
		l.thread(k)
	}
}

// lookup finds the style given for a symbol by the tables.
func (l *layout) lookup(sym string) (Style, bool) {
	find := func(name string) (Style, bool) {
		if s, ok := l.set.Indents[name]; ok {
			return s, true
		}
		s, ok := BuiltinIndents[name]
		return s, ok
	}
	if i := slash(sym); i >= 0 {
		if lib, ok := l.aliases[sym[:i]]; ok {
			if s, ok := find(lib + sym[i:]); ok {
				return s, true
			}
		}
		if s, ok := find(sym); ok {
			return s, true
		}
		return find(sym[i+1:])
	}
	if lib, ok := l.referred[sym]; ok {
		if s, ok := find(lib + "/" + sym); ok {
			return s, true
		}
	}
	return find(sym)
}

// slash finds the slash between the namespace of a symbol and its name, which
// can be / itself. It is -1 if there is none.
func slash(sym string) int {
	for i := len(sym) - 2; i >= 0; i-- {
		if sym[i] == '/' {
			return i
		}
	}
	return -1
}

// style chooses the style of a list or function literal.
func (l *layout) style(kids []*Node) Style {
	if len(kids) == 0 {
		return Normal
	}
	switch kids[0].Kind {
	case Keyword:
		return ListStyle
	case Symbol:
		name := kids[0].Text
		if s, ok := l.lookup(name); ok {
			return s
		}
		name = name[slash(name)+1:]
		for _, prefix := range []string{"def", "let", "with-", "when-"} {
			if strings.HasPrefix(name, prefix) {
				return ListBody
			}
		}
		return ListStyle
	}
	return Normal
}

// specials notes the styles of those parts of a form that its style says
// something about.
func (l *layout) specials(kids []*Node) {
	if len(kids) == 0 || kids[0].Kind != Symbol {
		return
	}
	style, ok := l.lookup(kids[0].Text)
	if !ok {
		return
	}
	var first *Node // the first argument
	for _, k := range kids[1:] {
		if Semantic(k) {
			first = k
			break
		}
	}
	switch style {
	case Let, For:
		if first == nil || first.Kind != Vector {
			return
		}
		l.special[first] = bindings
		if style == Let {
			return
		}
		i, afterLet := 0, false
		for _, k := range first.Kids {
			if !Semantic(k) {
				continue
			}
			if afterLet && k.Kind == Vector {
				l.special[k] = bindings
			}
			afterLet = i%2 == 0 && k.Kind == Keyword && k.Text == ":let"
			i++
		}
	case Letfn:
		if first == nil || first.Kind != Vector {
			return
		}
		for _, k := range first.Kids {
			if k.Kind == List {
				l.special[k] = ListBody
			}
		}
	case Deftype:
		for _, k := range kids[1:] {
			if k.Kind == List {
				l.special[k] = ListBody
			}
		}
	}
}

func (l *layout) node(n *Node) {
	style := Normal
	switch n.Kind {
	case List:
		l.specials(n.Kids)
		var ok bool
		if style, ok = l.special[n]; !ok {
			style = l.style(n.Kids)
		}
		if l.threaded[n] {
			switch style {
			case Cond1:
				style = Cond0
			case Cond2:
				style = Cond1
			}
		}
	case FnLit:
		l.specials(n.Kids)
		style = l.style(n.Kids)
	case Vector:
		if s, ok := l.special[n]; ok {
			style = s
		}
	case Map, ReaderCond, ReaderCondSplice:
		style = bindings
	case Set:
	default:
		for _, k := range n.Kids {
			l.node(k)
		}
		return
	}
	l.seq(n.Kids, l.cols[n.Off]+OpenerLen(n), style)
}

// OpenerLen is the length of a formatted sequence's opening delimiter, in
// characters.
func OpenerLen(n *Node) int {
	switch n.Kind {
	case Set, FnLit:
		return 2
	case ReaderCond:
		return 3
	case ReaderCondSplice:
		return 4
	case Map:
		if n.Text != "" {
			return 2 + utf8.RuneCountInString(n.Text)
		}
	}
	return 1
}

// maxAlign is the longest head that arguments are aligned after when a
// comment follows it.
const maxAlign = 12

// seq checks the indentation of a sequence's members. open is the column
// after the opening delimiter.
func (l *layout) seq(kids []*Node, open int, style Style) {
	// Where members other than the first go when they start a line.
	rest := open
	switch style {
	case Normal, bindings:
	case ListStyle, Cond0:
		rest = open + 1
		if len(kids) > 1 && kids[1].Kind != Newline {
			end := l.cols[kids[0].End]
			if Semantic(kids[1]) || end-open <= maxAlign {
				rest = end + 1
			}
		}
	default:
		rest = open + 1
	}
	lone, paired := 0, true // leading elements that aren't paired
	switch style {
	case bindings:
	case Cond0:
		lone = 1
	case Cond1:
		lone = 2
	case Cond2:
		lone = 3
	case Cond4:
		lone = 5
	default:
		paired = false
	}
	elements := 0 // so far
	group := 0    // members of the current pair so far
	newline := false
	for i, k := range kids {
		if k.Kind == Newline {
			newline = true
			continue
		}
		if newline {
			want := rest
			if i == 0 {
				want = open
			}
			if paired && elements >= lone && group > 0 {
				want += 2
			}
			l.checked++
			if got := l.cols[k.Off]; got != want && l.problem == "" {
				l.problem = fmt.Sprintf("%s %q on line %d is at column %d, want %d", k.Kind, k.Text, k.Line, got+1, want+1)
			}
		}
		newline = false
		if Semantic(k) {
			elements++
			if elements > lone {
				group++
				if group == 2 && !(k.Kind == Keyword && k.Text == ":>>") || group == 3 {
					group = 0
				}
			}
		}
		l.node(k)
	}
}
