package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net/url"
	"strings"

	"github.com/KSpaceer/yamly/engines/yayamls/ast"
	yaenc "github.com/KSpaceer/yamly/engines/yayamls/encode"
	"github.com/KSpaceer/yamly/engines/yayamls/parser"
	"gopkg.in/yaml.v3"

	"verifharness/core"
)

// face is what a document says about a node apart from its content.
func face(tag, anchor, kind, style, text string) string {
	return fmt.Sprintf("%s tag=%q anchor=%q %s %q", kind, tag, anchor, style, text)
}

// facesOfNode lists the nodes of a tree of yaml.v3 in order of the source.
func facesOfNode(n *yaml.Node, out *[]string) {
	tag := ""
	if n.Style&yaml.TaggedStyle != 0 {
		tag = strings.TrimLeft(n.Tag, "!")
		if !strings.HasPrefix(n.Tag, "!") {
			tag = n.Tag
		}
		tag = "!" + tag
	}
	switch n.Kind {
	case yaml.AliasNode:
		*out = append(*out, face("", "", "alias", "", n.Value))
		return
	case yaml.ScalarNode:
		style := "plain"
		switch {
		case n.Style&yaml.SingleQuotedStyle != 0:
			style = "single"
		case n.Style&(yaml.DoubleQuotedStyle|yaml.LiteralStyle|yaml.FoldedStyle) != 0:
			style = "double"
		}
		text := n.Value
		if style == "plain" && (text == "" || text == "~" || strings.EqualFold(text, "null")) {
			text = "null"
		}
		*out = append(*out, face(tag, n.Anchor, "scalar", style, text))
	case yaml.SequenceNode:
		*out = append(*out, face(tag, n.Anchor, "seq", "", fmt.Sprint(len(n.Content))))
	case yaml.MappingNode:
		*out = append(*out, face(tag, n.Anchor, "map", "", fmt.Sprint(len(n.Content)/2)))
	}
	for _, s := range n.Content {
		facesOfNode(s, out)
	}
}

func facesOfAST(n ast.Node, tag, anchor string, out *[]string) {
	switch x := n.(type) {
	case *ast.ContentNode:
		if p, ok := x.Properties().(*ast.PropertiesNode); ok {
			if t, ok := p.Tag().(*ast.TagNode); ok && t.Text() != "" { // yaml.v3 has no trace of the non-specific tag
				s, err := url.PathUnescape(t.Text())
				if err != nil {
					s = t.Text()
				}
				tag = "!" + strings.TrimLeft(s, "!")
			}
			if a, ok := p.Anchor().(*ast.AnchorNode); ok {
				anchor = a.Text()
			}
		}
		facesOfAST(x.Content(), tag, anchor, out)
	case *ast.AliasNode:
		*out = append(*out, face("", "", "alias", "", x.Text()))
	case *ast.NullNode:
		*out = append(*out, face(tag, anchor, "scalar", "plain", "null"))
	case *ast.TextNode:
		style, text := "plain", x.Text()
		switch x.QuotingType() {
		case ast.SingleQuotingType:
			style = "single"
		case ast.DoubleQuotingType:
			style = "double"
		default:
			if text == "" || text == "~" || strings.EqualFold(text, "null") {
				text = "null"
			}
		}
		*out = append(*out, face(tag, anchor, "scalar", style, text))
	case *ast.SequenceNode:
		*out = append(*out, face(tag, anchor, "seq", "", fmt.Sprint(len(x.Entries()))))
		for _, s := range x.Entries() {
			if _, ok := s.(*ast.MappingEntryNode); ok { // single pair
				*out = append(*out, face("", "", "map", "", "1"))
			}
			facesOfAST(s, "", "", out)
		}
	case *ast.MappingNode:
		*out = append(*out, face(tag, anchor, "map", "", fmt.Sprint(len(x.Entries()))))
		for _, s := range x.Entries() {
			facesOfAST(s, "", "", out)
		}
	case *ast.MappingEntryNode:
		facesOfAST(x.Key(), "", "", out)
		facesOfAST(x.Value(), "", "", out)
	case *ast.StreamNode:
		for _, s := range x.Documents() {
			facesOfAST(s, "", "", out)
		}
	default:
		*out = append(*out, fmt.Sprintf("%T", n))
	}
}

func refFaces(src string) ([]string, error) {
	var out []string
	dec := yaml.NewDecoder(strings.NewReader(src))
	for {
		var n yaml.Node
		err := dec.Decode(&n)
		if errors.Is(err, io.EOF) {
			return out, nil
		}
		if err != nil {
			return nil, err
		}
		facesOfNode(&n, &out)
	}
}

// loose leaves open how a scalar is quoted, except that a null is plain.
func loose(fs []string) []string {
	out := make([]string, len(fs))
	for i, f := range fs {
		for _, q := range []string{" single ", " double "} {
			f = strings.Replace(f, q, " quoted ", 1)
		}
		if !strings.HasSuffix(f, ` "null"`) {
			f = strings.Replace(f, " plain ", " quoted ", 1)
		}
		out[i] = f
	}
	return out
}

func diffFaces(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "nothing", "nothing"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return fmt.Sprintf("node %d: %s, want %s", i, x, y)
		}
	}
	return ""
}

// tightGen writes flow collections without any space that can be left out, along with the nodes they hold.
type tightGen struct {
	r       *core.Rand
	anchors []string
	want    []string
	ev      func(string)
}

// props gives properties and their face values; "" if there are none.
func (g *tightGen) props() (text, tag, anchor string) {
	r := g.r
	if r.P(35) {
		text = core.Pick(r, []string{"!!str", "!x", "!!a-b", "!<tag:x.org,2000:y>", "!e.f"})
		tag = "!" + strings.TrimLeft(strings.Trim(text, "<>"), "!<")
		if strings.HasPrefix(text, "!<") {
			tag = "!" + strings.Trim(text, "!<>")
		}
	}
	if r.P(25) {
		anchor = fmt.Sprintf("n%d", len(g.anchors))
		switch {
		case text == "":
			text = "&" + anchor
		case r.Bool():
			text = text + " &" + anchor
		default:
			text = "&" + anchor + " " + text
		}
	}
	return
}

// node writes a node; key: it stands before a colon.
func (g *tightGen) node(depth int, key, mayBeEmpty bool) string {
	r := g.r
	if len(g.anchors) > 0 && r.P(15) {
		a := core.Pick(r, g.anchors)
		g.want = append(g.want, face("", "", "alias", "", a))
		g.ev("tight:alias")
		if key {
			return "*" + a + " "
		}
		return "*" + a
	}
	ps, tag, anchor := g.props()
	sp := ""
	if ps != "" {
		sp = " "
	}
	if anchor != "" {
		defer func() { g.anchors = append(g.anchors, anchor) }()
	}
	k := r.Intn(8)
	if key && k >= 6 || depth <= 0 && k >= 6 {
		k = r.Intn(6)
	}
	if k < 2 && (key || ps == "" && !mayBeEmpty) {
		k = 2
	}
	switch k {
	case 0, 1:
		g.want = append(g.want, face(tag, anchor, "scalar", "plain", "null"))
		if ps != "" {
			g.ev("tight:properties-of-nothing")
		}
		return ps
	case 2, 3:
		w := core.Pick(r, []string{"a", "b-c", "x:y", "1", "http://z", "d#e", "f g"})
		g.want = append(g.want, face(tag, anchor, "scalar", "plain", w))
		return ps + sp + w
	case 4:
		g.want = append(g.want, face(tag, anchor, "scalar", "double", "q,]}"))
		return ps + sp + "\"q,]}\""
	case 5:
		g.want = append(g.want, face(tag, anchor, "scalar", "single", "s: {["))
		return ps + sp + "'s: {['"
	}
	at := len(g.want)
	g.want = append(g.want, "")
	n := r.Intn(4)
	kind, text := "seq", ""
	if k == 6 {
		for j := 0; j < n; j++ {
			if j > 0 {
				text += ","
			}
			text += g.node(depth-1, false, false)
		}
		text = "[" + text + "]"
	} else {
		kind = "map"
		for j := 0; j < n; j++ {
			if j > 0 {
				text += ","
			}
			kt := g.node(depth-1, true, false)
			vt := g.node(depth-1, false, true)
			sep := " "
			switch {
			case vt == "":
				sep = ""
				g.ev("tight:key-without-value")
			case strings.HasSuffix(kt, "\"") || strings.HasSuffix(kt, "'"):
				sep = ""
			}
			text += kt + ":" + sep + vt
		}
		text = "{" + text + "}"
	}
	g.want[at] = face(tag, anchor, kind, "", fmt.Sprint(n))
	return ps + sp + text
}

func tight(c *core.Ctx) {
	g := &tightGen{r: c.R, ev: func(s string) { c.Ev(s) }}
	var src string
	for src == "" || !strings.HasSuffix(src, "]") && !strings.HasSuffix(src, "}") {
		g.anchors, g.want = nil, nil
		src = g.node(4, false, false)
	}
	if c.R.Bool() {
		src += "\n"
	}
	c.Input(src)
	t, err := parser.ParseString(src, parser.WithUnescapedText())
	if err != nil {
		c.Fail("rejected", "%v", err)
		return
	}
	var got []string
	facesOfAST(t, "", "", &got)
	if d := diffFaces(got, g.want); d != "" {
		c.Fail("tree", "%s", d)
		return
	}
	c.EvN("nodes-compared", int64(len(got)))
	c.Ev("tight-flow-compared")
	if len(got) > 2 {
		c.NonTrivial()
	}
}

func faces(c *core.Ctx, i int) {
	r := c.R
	if r.P(10) {
		tight(c)
		return
	}
	v := GenRoot(r, GenOpts{TypedKeys: true, ComplexKeys: true, MaxDepth: r.Range(1, 4), NoNaN: true})
	p := NewPres(r, func(s string) { c.Ev(s) })
	p.PropPct = r.Range(5, 40)
	src := p.Document(&v)
	c.Input(src)
	want, err := refFaces(src)
	if err != nil {
		c.Ev("reference-refused")
		return
	}
	if v3Agrees(src, v) != nil {
		c.Ev("not-judged(yaml.v3 disagrees with the model)")
		return
	}
	t, err := parser.ParseString(src, parser.WithUnescapedText())
	if err != nil {
		c.Fail("rejected", "%v", err)
		return
	}
	var got []string
	facesOfAST(t, "", "", &got)
	if d := diffFaces(got, want); d != "" {
		c.Fail("tree", "%s", d)
		return
	}
	c.EvN("nodes-compared", int64(len(got)))
	if len(got) > 2 {
		c.NonTrivial()
	}
	for _, f := range got {
		if !strings.Contains(f, `tag=""`) {
			c.Ev("tags-compared")
		}
		if !strings.Contains(f, `anchor=""`) {
			c.Ev("anchors-compared")
		}
		if strings.HasPrefix(f, "alias") {
			c.Ev("aliases-compared")
		}
	}
	// written and parsed again, the tree keeps its anchors, aliases and nodes
	w := yaenc.NewASTWriter()
	s, err := w.WriteString(t)
	if err != nil {
		c.Fail("write", "WriteString: %v", err)
		return
	}
	var buf bytes.Buffer
	if err := w.WriteTo(&buf, t); err != nil || buf.String() != s {
		c.Fail("write", "WriteTo gives %q, %v; WriteString %q", buf.String(), err, s)
	}
	back, err := parser.ParseString(s, parser.WithUnescapedText())
	if err != nil {
		c.Fail("written-unreadable", "%v\n--- written ---\n%s", err, s)
		return
	}
	var again []string
	facesOfAST(back, "", "", &again)
	if d := diffFaces(loose(again), loose(got)); d != "" {
		c.Fail("written-differs", "%s\n--- written ---\n%s", d, s)
		return
	}
	c.Ev("written-and-read-back")
	if ref, err := refFaces(s); err == nil {
		if d := diffFaces(loose(ref), loose(want)); d != "" {
			c.Fail("written-differs", "for yaml.v3 %s\n--- written ---\n%s", d, s)
		}
		c.Ev("written-read-by-reference")
	}
}

func init() {
	core.Register(&core.Prop{ID: "C28", Quick: 150000, Thorough: 6000000, Run: faces,
		MinEvents: []string{"nodes-compared", "tags-compared", "anchors-compared", "aliases-compared", "written-and-read-back", "written-read-by-reference", "tight-flow-compared", "tight:properties-of-nothing", "tight:alias"},
		Rule:      "random presentations dense in tags, anchors and aliases; the tree is compared node by node with the one yaml.v3 makes of the same source (kinds, sizes, texts, quoting, tags, anchors, aliases), then written and compared again; a document is judged only when yaml.v3 accepts it; flow collections without a single space that can be left out (properties of empty nodes and aliases right before an indicator) are compared with the model they were written from; non-trivial: more than two nodes; distinct: by source"})
}
