// Package impl observes goclj through its public API.
package impl

import (
	"bytes"
	"fmt"
	"io"
	"reflect"
	"strings"

	"github.com/cespare/goclj/format"
	"github.com/cespare/goclj/parse"
	"verif/ref"
)

// Full is the option set the formatter uses.
const Full = parse.IncludeNonSemantic

// Name is the source name texts are parsed under.
const Name = "src"

// Parse parses src, turning a panic into an error that starts with "PANIC".
func Parse(src string, opts parse.ParseOpts) (t *parse.Tree, err error) {
	return ParseFrom(strings.NewReader(src), Name, opts)
}

// ParseFrom parses what a reader delivers. A panic becomes an error.
func ParseFrom(r io.Reader, name string, opts parse.ParseOpts) (t *parse.Tree, err error) {
	defer func() {
		if e := recover(); e != nil {
			t, err = nil, fmt.Errorf("PANIC: %v", e)
		}
	}()
	return parse.Reader(r, name, opts)
}

// Cfg is a printer configuration.
type Cfg struct {
	Transforms  map[format.Transform]bool
	Indents     map[string]format.IndentStyle
	ThreadFirst map[string]format.ThreadFirstStyle
	IndentChar  rune
}

// AllOff disables every transform.
var AllOff = map[format.Transform]bool{}

// NumTransforms is the number of transforms.
const NumTransforms = 9

func init() {
	for i := 0; i < NumTransforms; i++ {
		AllOff[format.Transform(i)] = false
	}
}

// Only returns settings with exactly the given transforms on.
func Only(ts ...format.Transform) map[format.Transform]bool {
	m := map[format.Transform]bool{}
	for i := 0; i < NumTransforms; i++ {
		m[format.Transform(i)] = false
	}
	for _, t := range ts {
		m[t] = true
	}
	return m
}

// Mask returns settings from a bit mask over the transforms.
func Mask(mask int) map[format.Transform]bool {
	m := map[format.Transform]bool{}
	for i := 0; i < NumTransforms; i++ {
		m[format.Transform(i)] = mask>>i&1 == 1
	}
	return m
}

// Print prints t.
func Print(t *parse.Tree, cfg *Cfg) (out string, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("PANIC: %v", e)
		}
	}()
	var buf bytes.Buffer
	if err := PrintTo(t, &buf, cfg); err != nil {
		return "", err
	}
	return buf.String(), nil
}

// PrintTo prints t to w.
func PrintTo(t *parse.Tree, w io.Writer, cfg *Cfg) error {
	p := format.NewPrinter(w)
	if cfg != nil {
		p.Transforms = cfg.Transforms
		p.IndentOverrides = cfg.Indents
		p.ThreadFirstStyleOverrides = cfg.ThreadFirst
		if cfg.IndentChar != 0 {
			p.IndentChar = cfg.IndentChar
		}
	}
	return p.PrintTree(t)
}

// Format parses and prints src. ok is false if src is rejected.
func Format(src string, cfg *Cfg) (out string, ok bool, err error) {
	t, perr := Parse(src, Full)
	if perr != nil {
		if strings.HasPrefix(perr.Error(), "PANIC") {
			return "", false, perr
		}
		return "", false, nil
	}
	out, err = Print(t, cfg)
	return out, true, err
}

// Convert turns nodes into reference nodes. Node types it doesn't know are an
// error.
func Convert(nodes []parse.Node) ([]*ref.Node, error) {
	if len(nodes) == 0 {
		return nil, nil
	}
	out := make([]*ref.Node, 0, len(nodes))
	for _, n := range nodes {
		rn, err := convert(n)
		if err != nil {
			return nil, err
		}
		out = append(out, rn)
	}
	return out, nil
}

// IsNil reports whether n is nil or a typed nil.
func IsNil(n parse.Node) bool {
	if n == nil {
		return true
	}
	v := reflect.ValueOf(n)
	return v.Kind() == reflect.Ptr && v.IsNil()
}

func convert(n parse.Node) (*ref.Node, error) {
	if IsNil(n) {
		return nil, fmt.Errorf("nil node in tree")
	}
	r := &ref.Node{}
	pos := n.Position()
	if pos != nil {
		r.Off, r.Line, r.Col = pos.Offset, pos.Line, pos.Col
	}
	switch n := n.(type) {
	case *parse.NilNode:
		r.Kind, r.Text = ref.Nil, "nil"
	case *parse.BoolNode:
		r.Kind, r.Text = ref.Bool, fmt.Sprint(n.Val)
	case *parse.CharacterNode:
		r.Kind, r.Text, r.Rune = ref.Char, n.Text, n.Val
	case *parse.CommentNode:
		r.Kind, r.Text = ref.Comment, n.Text
	case *parse.DerefNode:
		r.Kind = ref.Deref
	case *parse.KeywordNode:
		r.Kind, r.Text = ref.Keyword, n.Val
	case *parse.ListNode:
		r.Kind = ref.List
	case *parse.MapNode:
		r.Kind, r.Text = ref.Map, n.Namespace
	case *parse.MetadataNode:
		r.Kind = ref.Meta
	case *parse.NewlineNode:
		r.Kind = ref.Newline
	case *parse.NumberNode:
		r.Kind, r.Text = ref.Number, n.Val
	case *parse.SymbolNode:
		r.Kind, r.Text = ref.Symbol, n.Val
	case *parse.QuoteNode:
		r.Kind = ref.Quote
	case *parse.StringNode:
		r.Kind, r.Text = ref.String, n.Val
	case *parse.SyntaxQuoteNode:
		r.Kind = ref.SyntaxQuote
	case *parse.UnquoteNode:
		r.Kind = ref.Unquote
	case *parse.UnquoteSpliceNode:
		r.Kind = ref.UnquoteSplice
	case *parse.VectorNode:
		r.Kind = ref.Vector
	case *parse.FnLiteralNode:
		r.Kind = ref.FnLit
	case *parse.ReaderCondNode:
		r.Kind = ref.ReaderCond
	case *parse.ReaderCondSpliceNode:
		r.Kind = ref.ReaderCondSplice
	case *parse.ReaderDiscardNode:
		r.Kind = ref.Discard
	case *parse.ReaderEvalNode:
		r.Kind = ref.Eval
	case *parse.RegexNode:
		r.Kind, r.Text = ref.Regex, n.Val
	case *parse.SetNode:
		r.Kind = ref.Set
	case *parse.VarQuoteNode:
		r.Kind, r.Text = ref.VarQuote, n.Val
	case *parse.TagNode:
		r.Kind, r.Text = ref.Tag, n.Val
	default:
		return nil, fmt.Errorf("unknown node type %T", n)
	}
	kids, err := Convert(n.Children())
	if err != nil {
		return nil, err
	}
	r.Kids = kids
	return r, nil
}

// SameTree reports the first difference between two trees, ignoring positions.
func SameTree(a, b []*ref.Node) string { return sameTree(a, b, false) }

// SameTreePos is SameTree including positions.
func SameTreePos(a, b []*ref.Node) string { return sameTree(a, b, true) }

// sameTree describes the first difference, with the way to it in front.
func sameTree(a, b []*ref.Node, pos bool) string {
	if len(a) != len(b) {
		return fmt.Sprintf(": %d nodes, want %d", len(a), len(b))
	}
	for i := range a {
		x, y := a[i], b[i]
		if x.Kind != y.Kind || x.Text != y.Text || x.Rune != y.Rune {
			return fmt.Sprintf("[%d]: %s %q, want %s %q", i, x.Kind, x.Text, y.Kind, y.Text)
		}
		if pos && (x.Off != y.Off || x.Line != y.Line || x.Col != y.Col) {
			return fmt.Sprintf("[%d] %s %q: at offset %d, %d:%d, want offset %d, %d:%d", i, x.Kind, x.Text,
				x.Off, x.Line, x.Col, y.Off, y.Line, y.Col)
		}
		if len(x.Kids) > 0 || len(y.Kids) > 0 {
			if d := sameTree(x.Kids, y.Kids, pos); d != "" {
				if len(d) > 1000 {
					return d
				}
				return "/" + x.Kind.String() + d
			}
		}
	}
	return ""
}

// String describes a configuration.
func (c *Cfg) String() string {
	if c == nil {
		return "default settings"
	}
	if c.Transforms == nil {
		return "default transforms"
	}
	mask := 0
	for i := 0; i < NumTransforms; i++ {
		if c.Transforms[format.Transform(i)] {
			mask |= 1 << i
		}
	}
	return fmt.Sprintf("transforms %09b", mask)
}
