package props

import (
	"bytes"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/KSpaceer/yamly/engines/yayamls/ast"
	"github.com/KSpaceer/yamly/engines/yayamls/ast/astcmp"
	yaenc "github.com/KSpaceer/yamly/engines/yayamls/encode"
	"github.com/KSpaceer/yamly/engines/yayamls/parser"

	"verifharness/core"
)

// builtGen makes up trees a program may put together by hand.
type builtGen struct {
	r       *core.Rand
	ev      func(string)
	anchors []string
	// plainNames: no anchor that is not made of letters, digits and dashes, which is all yaml.v3 takes
	plainNames bool
	bare       bool     // neither anchors nor aliases
	outer      []string // anchors outside of the tree, which the writer has to replace
}

func (g *builtGen) text() *tn {
	r := g.r
	n := &tn{t: ast.TextType, q: ast.QuotingType(r.Intn(4))}
	switch r.Intn(6) {
	case 0:
		n.s = genScalarText(r).s
	case 1: // lines
		var ls []string
		for j := r.Range(2, 5); j > 0; j-- {
			ls = append(ls, strings.Repeat(" ", core.Pick(r, []int{0, 0, 0, 1, 2, 5}))+core.Pick(r, []string{"", "a", "x: y", "- z", "# no", "'", "\"", "é\t", "...", "---", "end "}))
		}
		n.s = strings.Join(ls, "\n") + core.Pick(r, []string{"", "", "\n", "\n\n"})
		g.ev("text-of-several-lines")
	default:
		n.s = GenString(r)
	}
	if r.P(3) || g.bare && r.P(10) { // the longest texts implicit keys can have and longer ones
		n.s = strings.Repeat(core.Pick(r, []string{"\x01", "\"", "\u0085", "\u2028", "\U000e0001", "é", "a ", "w"}), core.Pick(r, []int{1, 2, 4, 10})*r.Range(20, 110))
		g.ev("long-text")
	}
	if n.s == "" && g.bare {
		n.q = ast.DoubleQuotingType
	}
	if !utf8.ValidString(n.s) {
		n.s = strings.ToValidUTF8(n.s, "?")
	}
	return n
}

func (g *builtGen) node(depth int) *tn {
	r := g.r
	var p *tn
	if r.P(25) {
		p = &tn{t: ast.PropertiesType, sub: []*tn{nil, nil}}
		w := r.Intn(3)
		if g.bare {
			w = 1
		}
		if w != 0 {
			p.sub[0] = &tn{t: ast.TagType, s: core.Pick(r, []string{"str", "int", "x", "a-b", "x/y", "tag:yaml.org,2002:str", "tag:example.com,2000:a/b", "!local", "", "e%21x"})}
			g.ev("tag")
		}
		if w != 1 {
			name := core.Pick(r, []string{"a", "b", "c1", "x-y", "-", "1"})
			if r.P(15) {
				name = core.Pick(r, []string{"a:b", "é", "a.b", "a#b", "a*b", "a&b"})
				g.plainNames = false
			}
			p.sub[1] = &tn{t: ast.AnchorType, s: name}
			defer func() { g.anchors = append(g.anchors, name) }()
			g.ev("anchor")
		}
	}
	var n *tn
	switch k := r.Intn(9); {
	case depth <= 0 || k < 4:
		switch {
		case p == nil && len(g.anchors) > 0 && r.P(15):
			g.ev("alias")
			return &tn{t: ast.AliasType, s: core.Pick(r, g.anchors)}
		case p == nil && len(g.outer) > 0 && r.P(30):
			return &tn{t: ast.AliasType, s: core.Pick(r, g.outer)}
		case r.P(12):
			n = &tn{t: ast.NullType}
		default:
			n = g.text()
		}
	case k < 6:
		n = &tn{t: ast.SequenceType}
		for j := r.Intn(4); j > 0; j-- {
			if r.P(8) {
				n.sub = append(n.sub, g.entry(depth))
				g.ev("entry-in-sequence")
			} else {
				n.sub = append(n.sub, g.node(depth-1))
			}
		}
	default:
		n = &tn{t: ast.MappingType}
		for j := r.Intn(4); j > 0; j-- {
			n.sub = append(n.sub, g.entry(depth))
		}
	}
	if p == nil {
		return n
	}
	return &tn{t: ast.ContentType, sub: []*tn{p, n}}
}

func (g *builtGen) entry(depth int) *tn {
	kd := 0
	if g.r.P(12) {
		kd = depth - 1
		g.ev("collection-as-key")
	}
	return &tn{t: ast.MappingEntryType, sub: []*tn{g.node(kd), g.node(depth - 1)}}
}

// keeper resolves the aliases to anchors outside of what is written.
type keeper struct {
	nodes map[string]ast.Node
	last  string
}

func (k *keeper) StoreAnchor(name string) { k.last = name }
func (k *keeper) BindToLatestAnchor(n ast.Node) {
	if k.last != "" {
		k.nodes[k.last] = n
		k.last = ""
	}
}
func (k *keeper) DereferenceAlias(name string) (ast.Node, error) {
	if n, ok := k.nodes[name]; ok {
		return n, nil
	}
	return nil, errCustom1
}

// expand puts the outside nodes in place of the aliases to anchors which were not met yet.
func (n *tn) expand(outside map[string]*tn, met map[string]bool, ev func(string)) *tn {
	if n == nil {
		return nil
	}
	if n.t == ast.AliasType && !met[n.s] {
		ev("alias-replaced")
		return outside[n.s]
	}
	if n.t == ast.AnchorType {
		met[n.s] = true
	}
	if n.t == ast.AliasType {
		ev("alias-kept")
	}
	x := *n
	x.sub = nil
	for _, s := range n.sub {
		x.sub = append(x.sub, s.expand(outside, met, ev))
	}
	return &x
}

// embedded: a writer with a keeper of anchors writes trees which stand alone, one after the other.
func embedded(c *core.Ctx) {
	r := c.R
	outside := map[string]*tn{}
	k := &keeper{nodes: map[string]ast.Node{}}
	var names []string
	for _, name := range []string{"a", "b", "c1", "x-y"} {
		if !r.P(70) {
			continue
		}
		g := &builtGen{r: r, ev: func(string) {}, plainNames: true, bare: true}
		outside[name] = g.node(r.Intn(3))
		names = append(names, name)
	}
	var in string
	w := yaenc.NewASTWriter(yaenc.WithAnchorsKeeper(k))
	for j := r.Range(1, 3); j > 0; j-- {
		for name, n := range outside {
			k.nodes[name] = n.node() // the anchors of the previous tree are out of scope
		}
		g := &builtGen{r: r, plainNames: true, outer: names, ev: func(s string) { c.Ev(s) }}
		root := &tn{t: ast.SequenceType, sub: []*tn{g.node(r.Range(0, 3)), g.node(2)}}
		for name := range k.nodes {
			if outside[name] == nil {
				delete(k.nodes, name)
			}
		}
		in += root.key() + "\n"
		c.Input(in)
		met := map[string]bool{}
		var want, got []string
		facesOfAST(root.expand(outside, met, func(s string) { c.Ev(s) }).node(), "", "", &want)
		s, err := w.WriteString(root.node())
		if err != nil {
			c.Fail("write", "tree %d: %v", j, err)
			return
		}
		back, err := parser.ParseString(s, parser.WithUnescapedText())
		if err != nil {
			c.Fail("written-unreadable", "%v\n--- written ---\n%s", err, s)
			return
		}
		if st, ok := back.(*ast.StreamNode); ok && len(st.Documents()) == 1 {
			back = st.Documents()[0]
		}
		facesOfAST(back, "", "", &got)
		if d := sameFaces(got, want); d != "" {
			c.Fail("written-differs", "with aliases replaced: %s\n--- written ---\n%s", d, s)
			return
		}
		if !byReference(c, s, want, g.plainNames) {
			return
		}
		c.Ev("written-with-keeper")
		c.NonTrivial()
	}
}

// plainStays matches texts that can be plain anywhere and mean something else in quotes.
var plainStays = regexp.MustCompile(` plain "([-+]?[0-9]+(\.[0-9]+)?|true|false|null)"$`)

// sameFaces compares what was written with what is to be read; the quoting may change as long as the kind of scalar does not.
func sameFaces(got, want []string) string {
	g, w := make([]string, len(got)), make([]string, len(want))
	copy(g, got)
	copy(w, want)
	for i := range w {
		if i >= len(g) {
			break
		}
		if plainStays.MatchString(w[i]) || plainStays.MatchString(g[i]) {
			if strings.Contains(w[i], " plain ") != strings.Contains(g[i], " plain ") {
				continue
			}
		}
		g[i], w[i] = strings.Join(loose(g[i:i+1]), ""), strings.Join(loose(w[i:i+1]), "")
	}
	return diffFaces(g, w)
}

func quotings(n *tn) (out string) {
	for _, x := range n.all() {
		if x.t == ast.TextType {
			out += " " + strconv.Itoa(int(x.q))
		}
	}
	return out
}

// byReference compares what yaml.v3 makes of the text with what was written.
func byReference(c *core.Ctx, s string, want []string, plainNames bool) bool {
	if !plainNames {
		c.Ev("not-for-reference(names yaml.v3 does not know)")
		return true
	}
	ref, err := refFaces(s)
	switch {
	case err == nil:
	case strings.Contains(err.Error(), "could not find expected ':'"), strings.Contains(err.Error(), "mapping values are not allowed"):
		c.Fail("written-unreadable", "for yaml.v3: %v\n--- written ---\n%s", err, s)
		return false
	default:
		c.Ev("reference-refused")
		return true
	}
	core := make([]string, len(want)) // yaml.v3 shortens the tags of the core schema
	for j := range want {
		core[j] = strings.Replace(want[j], `tag="!tag:yaml.org,2002:`, `tag="!`, 1)
	}
	if d := sameFaces(ref, core); d != "" {
		c.Fail("written-differs", "for yaml.v3 %s\n--- written ---\n%s", d, s)
		return false
	}
	c.Ev("written-read-by-reference")
	return true
}

func built(c *core.Ctx, i int) {
	r := c.R
	if r.P(15) {
		embedded(c)
		return
	}
	g := &builtGen{r: r, plainNames: true, ev: func(s string) { c.Ev(s) }}
	root := g.node(r.Range(0, 4))
	if root.t == ast.TextType && root.s == "" {
		root.q = ast.DoubleQuotingType // nothing at all is no document
	}
	stream := r.P(20)
	docs := []*tn{root}
	if stream {
		for j := r.Intn(3); j > 0; j-- {
			g.anchors = nil // anchors end with their document
			docs = append(docs, g.node(r.Range(0, 3)))
		}
		root = &tn{t: ast.StreamType, sub: docs}
		c.Ev("stream")
	}
	tree := root.node()
	before := root.key()
	c.Input(before + quotings(root))
	w := yaenc.NewASTWriter()
	s, err := w.WriteString(tree)
	if err != nil {
		c.Fail("write", "WriteString: %v", err)
		return
	}
	var want, got []string
	facesOfAST(tree, "", "", &want)
	back, err := parser.ParseString(s, parser.WithUnescapedText())
	if err != nil {
		c.Fail("written-unreadable", "%v\n--- written ---\n%s", err, s)
		return
	}
	if st, ok := back.(*ast.StreamNode); !ok || len(st.Documents()) != len(docs) {
		c.Fail("written-differs", "%T, want %d documents\n--- written ---\n%s", back, len(docs), s)
		return
	}
	facesOfAST(back, "", "", &got)
	if d := sameFaces(got, want); d != "" {
		c.Fail("written-differs", "%s\n--- written ---\n%s", d, s)
		return
	}
	c.EvN("nodes-compared", int64(len(got)))
	if len(got) > 2 {
		c.NonTrivial()
	}
	if strings.Contains(s, "|-\n") || strings.Contains(s, "|+\n") {
		c.Ev("literal-written")
	}
	if !byReference(c, s, want, g.plainNames) {
		return
	}
	// writing left the tree alone, and what is written does not depend on who writes it
	if !astcmp.NewComparator().Equal(tree, root.node()) || tnOf(tree).key() != before {
		c.Fail("tree-changed", "the tree is another one after it was written\n%s", s)
	}
	var buf bytes.Buffer
	if err := w.WriteTo(&buf, tree); err != nil || buf.String() != s {
		c.Fail("write", "written again: %q, %v, before %q", buf.String(), err, s)
	}
	if b, err := yaenc.NewASTWriter().WriteBytes(back); err == nil {
		again, err := parser.ParseBytes(b, parser.WithUnescapedText())
		if err != nil {
			c.Fail("written-unreadable", "second time: %v\n--- written ---\n%s", err, b)
			return
		}
		var got2 []string
		facesOfAST(again, "", "", &got2)
		if d := sameFaces(got2, got); d != "" {
			c.Fail("written-differs", "second time: %s\n--- written ---\n%s", d, b)
		}
	}
}

func init() {
	core.Register(&core.Prop{ID: "C29", Quick: 200000, Thorough: 6000000, Run: built,
		MinEvents: []string{"nodes-compared", "tag", "anchor", "alias", "entry-in-sequence", "collection-as-key", "stream", "text-of-several-lines", "literal-written", "long-text", "alias-replaced", "alias-kept", "written-with-keeper", "written-read-by-reference"},
		Rule:      "random trees put together with the constructors of package ast (texts of every content and quoting, nulls, tags, anchors, aliases, collections and entries anywhere) are written, parsed and compared node by node, by the parser and by yaml.v3, and written and parsed again; one writer with a keeper of anchors writes several trees with aliases to outside anchors, which have to be replaced; non-trivial: more than two nodes; distinct: by tree"})
}
