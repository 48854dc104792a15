package props

import (
	"bytes"
	"fmt"
	"reflect"
	"runtime"
	"strings"
	"time"

	"github.com/KSpaceer/yamly/engines/yayamls/ast"
	"github.com/KSpaceer/yamly/engines/yayamls/ast/astcmp"
	"github.com/KSpaceer/yamly/engines/yayamls/ast/astprint"
	"github.com/KSpaceer/yamly/engines/yayamls/parser"

	"verifharness/core"
)

// tn is a tree of the harness' own: what an AST holds, except for the quoting of texts.
type tn struct {
	t   ast.NodeType
	s   string
	sub []*tn
	q   ast.QuotingType
}

func genTN(r *core.Rand, depth int) *tn {
	word := func() string {
		if r.P(5) {
			return strings.Repeat(core.Pick(r, []string{"x", "ab", "é", "word "}), core.Pick(r, []int{20, 40, 64, 130, 300, 1100, 5000})) + core.Pick(r, []string{"", "a", "b"})
		}
		return core.Pick(r, []string{"", "a", "b", "ab", "a\nb", "null", "~", "1", "é", "[x]", "├── "})
	}
	switch k := r.Intn(9); {
	case depth <= 0 || k < 3:
		switch r.Intn(6) {
		case 0:
			return &tn{t: ast.NullType}
		case 1:
			return &tn{t: ast.AliasType, s: word()}
		default:
			return &tn{t: ast.TextType, s: word(), q: ast.QuotingType(r.Intn(4))}
		}
	case k < 5:
		n := &tn{t: ast.SequenceType}
		if r.Intn(500) == 0 { // long ones
			for j := r.Range(50, 1500); j > 0; j-- {
				n.sub = append(n.sub, genTN(r, 0))
			}
			return n
		}
		for j := r.Intn(4); j > 0; j-- {
			n.sub = append(n.sub, genTN(r, depth-1))
		}
		return n
	case k < 7:
		n := &tn{t: ast.MappingType}
		for j := r.Intn(4); j > 0; j-- {
			n.sub = append(n.sub, &tn{t: ast.MappingEntryType, sub: []*tn{genTN(r, depth-2), genTN(r, depth-1)}})
		}
		return n
	default:
		p := &tn{t: ast.PropertiesType, sub: []*tn{nil, nil}}
		w := r.Intn(3)
		if w != 0 {
			p.sub[0] = &tn{t: ast.TagType, s: word()}
		}
		if w != 1 {
			p.sub[1] = &tn{t: ast.AnchorType, s: word()}
		}
		return &tn{t: ast.ContentType, sub: []*tn{p, genTN(r, depth-1)}}
	}
}

func (n *tn) node() ast.Node {
	if n == nil {
		return nil
	}
	var sub []ast.Node
	for _, s := range n.sub {
		sub = append(sub, s.node())
	}
	switch n.t {
	case ast.NullType:
		return ast.NewNullNode()
	case ast.AliasType:
		return ast.NewAliasNode(n.s)
	case ast.TextType:
		return ast.NewTextNode(n.s, ast.WithQuotingType(n.q))
	case ast.TagType:
		return ast.NewTagNode(n.s)
	case ast.AnchorType:
		return ast.NewAnchorNode(n.s)
	case ast.SequenceType:
		return ast.NewSequenceNode(sub)
	case ast.MappingType:
		return ast.NewMappingNode(sub)
	case ast.MappingEntryType:
		return ast.NewMappingEntryNode(sub[0], sub[1])
	case ast.PropertiesType:
		return ast.NewPropertiesNode(sub[0], sub[1])
	case ast.ContentType:
		return ast.NewContentNode(sub[0], sub[1])
	case ast.StreamType:
		return ast.NewStreamNode(sub)
	}
	panic(fmt.Sprint("node type ", n.t))
}

func (n *tn) clone() *tn {
	if n == nil {
		return nil
	}
	x := *n
	x.sub = nil
	for _, s := range n.sub {
		x.sub = append(x.sub, s.clone())
	}
	return &x
}

func (n *tn) all() []*tn {
	if n == nil {
		return nil
	}
	out := []*tn{n}
	for _, s := range n.sub {
		out = append(out, s.all()...)
	}
	return out
}

func (n *tn) key() string {
	if n == nil {
		return "-"
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "(%d %q", n.t, n.s)
	for _, s := range n.sub {
		sb.WriteString(s.key())
	}
	sb.WriteString(")")
	return sb.String()
}

func tnOf(n ast.Node) *tn {
	if n == nil || reflect.ValueOf(n).Kind() == reflect.Pointer && reflect.ValueOf(n).IsNil() {
		return nil
	}
	out := &tn{t: n.Type()}
	add := func(ns ...ast.Node) {
		for _, s := range ns {
			out.sub = append(out.sub, tnOf(s))
		}
	}
	switch x := n.(type) {
	case *ast.StreamNode:
		add(x.Documents()...)
	case *ast.SequenceNode:
		add(x.Entries()...)
	case *ast.MappingNode:
		add(x.Entries()...)
	case *ast.MappingEntryNode:
		add(x.Key(), x.Value())
	case *ast.ContentNode:
		add(x.Properties(), x.Content())
	case *ast.PropertiesNode:
		add(x.Tag(), x.Anchor())
	case ast.Texter:
		out.s = x.Text()
	}
	return out
}

// mutateTN changes something small; it returns what.
func mutateTN(r *core.Rand, n *tn) string {
	ns := n.all()
	for try := 0; try < 20; try++ {
		x := core.Pick(r, ns)
		switch r.Intn(7) {
		case 0:
			if x.t == ast.TextType || x.t == ast.AliasType || x.t == ast.TagType || x.t == ast.AnchorType {
				if len(x.s) == 0 || r.P(40) {
					x.s += core.Pick(r, []string{"x", " ", "\n", "\x00"})
					return "text"
				}
				// one byte of it, the length being the same
				k := r.Intn(len(x.s))
				if r.P(30) {
					k = len(x.s) - 1
				}
				bs := []byte(x.s)
				if bs[k] >= 'a' && bs[k] <= 'z' && r.Bool() {
					bs[k] -= 'a' - 'A'
				} else {
					bs[k] = bs[k]&^1 | ^bs[k]&1
				}
				x.s = string(bs)
				return "text-byte"
			}
		case 1:
			if x.t == ast.TextType {
				x.t = core.Pick(r, []ast.NodeType{ast.AliasType, ast.NullType})
				if x.t == ast.NullType {
					x.s = ""
				}
				return "kind"
			}
		case 2:
			if (x.t == ast.SequenceType || x.t == ast.StreamType || x.t == ast.MappingType) && len(x.sub) > 0 {
				k := r.Intn(len(x.sub))
				x.sub = append(append([]*tn{}, x.sub[:k]...), x.sub[k+1:]...)
				return "entry-removed"
			}
		case 3:
			if (x.t == ast.SequenceType || x.t == ast.StreamType || x.t == ast.MappingType) && len(x.sub) > 1 {
				k := r.Intn(len(x.sub) - 1)
				x.sub[k], x.sub[k+1] = x.sub[k+1], x.sub[k]
				return "entries-swapped"
			}
		case 4:
			if x.t == ast.SequenceType {
				// the last entries move into a sequence of their own: the walk of the leaves stays the same
				k := r.Intn(len(x.sub) + 1)
				x.sub = append(append([]*tn{}, x.sub[:k]...), &tn{t: ast.SequenceType, sub: append([]*tn{}, x.sub[k:]...)})
				return "nesting"
			}
		case 5:
			if x.t == ast.MappingEntryType {
				x.sub[0], x.sub[1] = x.sub[1], x.sub[0]
				return "key-and-value-swapped"
			}
		case 6:
			if x.t == ast.PropertiesType {
				k := r.Intn(2)
				if x.sub[k] == nil {
					x.sub[k] = &tn{t: []ast.NodeType{ast.TagType, ast.AnchorType}[k], s: "p"}
					return "property-added"
				} else if x.sub[1-k] != nil {
					x.sub[k] = nil
					return "property-removed"
				}
			}
		}
	}
	// move an entry between neighbouring collections
	for _, x := range ns {
		if x.t == ast.SequenceType {
			for k := 0; k+1 < len(x.sub); k++ {
				a, b := x.sub[k], x.sub[k+1]
				if a.t == ast.SequenceType && b.t == ast.SequenceType && len(b.sub) > 0 {
					a.sub = append(a.sub, b.sub[0])
					b.sub = b.sub[1:]
					return "entry-moved"
				}
			}
		}
	}
	return "none"
}

// printed is what the printer has to print: depth, kind and text of each node in order.
func (n *tn) printed(depth int, out *[]string) {
	if n == nil {
		return
	}
	text := n.s
	if depth > 0 {
		text = strings.ReplaceAll(text, "\n", `\n`)
	}
	*out = append(*out, fmt.Sprintf("%d [%s] %s", depth, n.t, text))
	for _, s := range n.sub {
		s.printed(depth+1, out)
	}
}

func trees(c *core.Ctx, i int) {
	r := c.R
	var a *tn
	if r.P(40) {
		v := GenRoot(r, GenOpts{MaxDepth: 3, NoNaN: true})
		src := NewPres(r, func(string) {}).Document(&v)
		t, err := parser.ParseString(src)
		if err != nil {
			return
		}
		a = tnOf(t)
		c.Ev("tree-parsed")
		if !astcmp.NewComparator().Equal(t, a.cloneInvalid().node()) {
			c.Fail("equal-trees-differ", "the tree of %q differs from one built of the same nodes", src)
		}
		a = a.cloneInvalid()
	} else {
		a = genTN(r, 3)
		if r.P(30) {
			a = &tn{t: ast.StreamType, sub: []*tn{a}}
			for k := r.Intn(3); k > 0; k-- {
				a.sub = append(a.sub, genTN(r, 2))
			}
		}
		c.Ev("tree-built")
	}
	b := a.clone()
	what := "none"
	if r.P(75) {
		what = mutateTN(r, b)
	}
	for _, x := range b.all() {
		if x.t == ast.TextType && r.P(30) {
			x.q = ast.QuotingType(r.Intn(4))
		}
	}
	c.Input(a.key() + " / " + b.key())
	if len(a.all()) > 3 {
		c.NonTrivial()
	}
	na, nb := a.node(), b.node()
	cmp := astcmp.NewComparator()
	before := runtime.NumGoroutine()
	want := a.key() == b.key()
	for k := 0; k < 2; k++ {
		if got := cmp.Equal(na, nb); got != want {
			c.Fail("equal", "Equal = %v for\n%s\n%s", got, a.key(), b.key())
		}
		if got := cmp.Equal(nb, na); got != want {
			c.Fail("equal", "Equal = %v for\n%s\n%s", got, b.key(), a.key())
		}
	}
	if !cmp.Equal(na, na) || !cmp.Equal(nb, b.clone().node()) {
		c.Fail("equal", "a tree does not equal itself or its copy: %s", a.key())
	}
	c.EvN("comparisons", 6)
	if want {
		c.Ev("equal")
	} else {
		c.Ev("different:" + what)
	}
	if a.t != b.t || r.P(5) {
		if cmp.Equal(na, nil) || cmp.Equal(nil, na) || !cmp.Equal(nil, nil) {
			c.Fail("equal", "comparison with no tree")
		}
	}
	// nothing keeps running
	for k := 0; runtime.NumGoroutine() > before; k++ {
		runtime.Gosched()
		if k > 1000 {
			time.Sleep(time.Millisecond)
		}
		if k > 20000 {
			c.Fail("goroutine-leak", "%d goroutines are left of the comparison of\n%s\n%s", runtime.NumGoroutine()-before, a.key(), b.key())
			break
		}
	}
	// printing
	var buf bytes.Buffer
	p := astprint.NewPrinter()
	if err := p.Print(na, &buf); err != nil {
		c.Fail("print", "Print: %v", err)
		return
	}
	var lines []string
	a.printed(0, &lines)
	text := buf.String()
	for k, l := range lines {
		// indentation: four columns for each level, the last one the edge
		var depth int
		rest := text
		for depth = 0; ; depth++ {
			if x, ok := strings.CutPrefix(rest, "│   "); ok {
				rest = x
			} else if x, ok := strings.CutPrefix(rest, "    "); ok {
				rest = x
			} else {
				break
			}
		}
		if x, ok := strings.CutPrefix(rest, "├── "); ok {
			rest, depth = x, depth+1
		} else if x, ok := strings.CutPrefix(rest, "└── "); ok {
			rest, depth = x, depth+1
		}
		_, bare, _ := strings.Cut(l, " ")
		got, ok := strings.CutPrefix(rest, bare+"\n")
		if !ok || fmt.Sprint(depth) != l[:strings.Index(l, " ")] {
			c.Fail("print", "line %d of\n%s\nis not %q", k, buf.String(), l)
			return
		}
		text = got
	}
	if text != "" {
		c.Fail("print", "%q is printed after the tree %s", text, a.key())
	}
	c.EvN("lines-printed", int64(len(lines)))
	var again bytes.Buffer
	if err := p.Print(nb, &again); err != nil {
		c.Fail("print", "Print: %v", err)
	}
	again.Reset()
	if err := p.Print(na, &again); err != nil || again.String() != buf.String() {
		c.Fail("print", "the tree %s is printed differently after another one", a.key())
	}
}

// cloneInvalid copies a tree of the parser: its placeholders stand for nothing.
func (n *tn) cloneInvalid() *tn {
	if n == nil || n.t == ast.InvalidType {
		return nil
	}
	x := *n
	x.sub = nil
	for _, s := range n.sub {
		x.sub = append(x.sub, s.cloneInvalid())
	}
	return &x
}

func init() {
	core.Register(&core.Prop{ID: "C24", Quick: 60000, Thorough: 3000000, Run: trees,
		MinEvents: []string{"tree-parsed", "tree-built", "equal", "different:text", "different:kind", "different:entry-removed", "different:entries-swapped", "different:nesting", "different:key-and-value-swapped", "different:property-added", "different:property-removed", "lines-printed"},
		Rule:      "random trees, parsed and built, and copies with one small change (or only other quoting); Equal must be true exactly for trees of the same nodes, symmetrically and repeatedly, without leaving goroutines; the printed lines must be the nodes in order with their depth; non-trivial: more than three nodes; distinct: by the pair"})
}
