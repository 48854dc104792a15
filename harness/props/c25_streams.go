package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/KSpaceer/yamly"
	"github.com/KSpaceer/yamly/engines/yayamls/ast"
	yadec "github.com/KSpaceer/yamly/engines/yayamls/decode"
	yaenc "github.com/KSpaceer/yamly/engines/yayamls/encode"
	"github.com/KSpaceer/yamly/engines/yayamls/parser"
	"gopkg.in/yaml.v3"

	"verifharness/core"
)

// v3Docs gives the documents as yaml.v3 sees them.
func v3Docs(src []byte) ([]*yaml.Node, error) {
	d := yaml.NewDecoder(bytes.NewReader(src))
	var out []*yaml.Node
	for {
		var n yaml.Node
		err := d.Decode(&n)
		if errors.Is(err, io.EOF) {
			return out, nil
		}
		if err != nil {
			return nil, err
		}
		out = append(out, &n)
		if len(out) > 50 {
			return nil, errors.New("too many documents")
		}
	}
}

func v3DocsMatch(src []byte, vals []V) error {
	docs, err := v3Docs(src)
	if err != nil {
		return err
	}
	if len(docs) != len(vals) {
		return fmt.Errorf("%d documents, want %d", len(docs), len(vals))
	}
	for i, n := range docs {
		if len(n.Content) != 1 {
			return fmt.Errorf("document %d is empty", i)
		}
		if err := v3Matches(n.Content[0], vals[i], false, fmt.Sprintf("doc%d", i)); err != nil {
			return err
		}
	}
	return nil
}

func streams(c *core.Ctx, i int) {
	r := c.R
	n := r.Range(2, 5)
	if r.P(3) {
		n = r.Range(6, 15)
	}
	if r.Intn(500) == 0 {
		n = r.Range(16, 300)
		c.Ev("many-documents")
	}
	var sb, ref strings.Builder // ref: the same documents with the boundaries yaml.v3 knows
	var vals []V
	open := false // the previous document ended in a block scalar, which would take comments and blank lines in
	ended := true // the previous document was ended with "..." (or there is none)
	for k := 0; k < n; k++ {
		o := GenOpts{MaxDepth: 2, MaxWidth: 3, TypedKeys: true, ComplexKeys: r.P(20)}
		if r.P(40) {
			o.Str = GenTameString
		}
		v := GenRoot(r, o)
		p := NewPres(r, nil)
		if r.P(30) {
			p.NoTags = true
		}
		body := &p.sb
		if k > 0 && r.P(15) && (ended || !open) {
			c.Ev("between:comment-or-blank")
			bt := core.Pick(r, []string{"# between\n", "\n", "# a\n\n# b\n", "  # c\n"})
			sb.WriteString(bt)
			ref.WriteString(bt)
		}
		if ended && r.P(20) {
			dir := core.Pick(r, []string{"%YAML 1.2\n", "%TAG !e! tag:example.com,2000:\n", "%YAML 1.2\n%TAG ! tag:x.org,2002:\n", "%FOO bar\n"})
			sb.WriteString(dir)
			sb.WriteString("---")
			c.Ev("boundary:directive")
			p.after(&v, -1, false)
			if strings.Contains(dir, "%TAG") {
				ref.WriteString(strings.TrimPrefix(dir, "%YAML 1.2\n"))
			}
			ref.WriteString("---" + body.String())
		} else if ended && r.P(40) {
			if k > 0 {
				c.Ev("boundary:bare-after-end")
			}
			p.rootValue(&v, false)
			ref.WriteString("---\n" + body.String())
		} else {
			c.Ev("boundary:explicit")
			if v.K == KNull && r.P(40) {
				sb.WriteString("---\n")
				ref.WriteString("---\n")
				c.Ev("empty-document")
			} else {
				sb.WriteString("---")
				p.after(&v, -1, false)
				ref.WriteString("---" + body.String())
			}
		}
		if x := ref.String(); !strings.HasSuffix(x, "\n") {
			ref.WriteString("\n")
		}
		sb.WriteString(body.String())
		vals = append(vals, v)
		if s := sb.String(); s != "" && !strings.HasSuffix(s, "\n") {
			sb.WriteString("\n")
		}
		ended, open = false, p.afterBlock > 0
		if open && p.afterBlock == 1 {
			c.Ev("block-scalar-as-document")
		}
		if r.P(35) {
			ended = true
			sb.WriteString("..." + core.Pick(r, []string{"\n", "\n", " # end\n", "\n...\n"}))
			ref.WriteString("...\n")
			c.Ev("boundary:end-marker")
		}
	}
	src := sb.String()
	c.Input(src)
	if err := v3DocsMatch([]byte(ref.String()), vals); err != nil {
		// forms yaml.v3 does not know: the values are the generator's word only
		c.Ev("judged-by-the-model-alone")
	}
	c.NonTrivial()
	tree, err := parser.ParseString(src, parser.WithUnescapedText())
	if err != nil {
		c.Fail("rejected", "%v", err)
		return
	}
	st, ok := tree.(*ast.StreamNode)
	if !ok || len(st.Documents()) != n {
		c.Fail("documents-lost", "the parser finds %s, want %d documents", astText(tree), n)
		return
	}
	// each document on its own
	for k, d := range st.Documents() {
		rd := yadec.NewASTReader(d)
		if err := ReadExpect(rd, vals[k], r, fmt.Sprintf("doc%d", k)); err != nil {
			c.Fail("reads-differently", "document %d of the stream, read alone: %v", k, err)
			return
		}
	}
	// one reader through all of them
	for mode := 0; mode < 2; mode++ {
		rd, err := yadec.NewASTReaderFromBytes([]byte(src))
		if err != nil {
			c.Fail("rejected", "%v", err)
			return
		}
		for k := range vals {
			if w, ok := anyOfV(vals[k]); ok && mode == 1 && r.P(60) {
				got := rd.Any()
				if rd.Error() != nil {
					c.Fail("reads-differently", "Any() of document %d: %v", k, rd.Error())
					return
				}
				if !sameAny(got, w) {
					c.Fail("reads-differently", "Any() of document %d = %v, want %v", k, got, w)
					return
				}
				c.Ev("document-any")
				continue
			}
			if err := ReadExpect(rd, vals[k], r, fmt.Sprintf("doc%d", k)); err != nil {
				c.Fail("reads-differently", "document %d of %d: %v", k, n, err)
				return
			}
			c.Ev("document-typed")
		}
		_ = rd.String()
		if !errors.Is(rd.Error(), yamly.ErrEndOfStream) {
			c.Fail("no-end", "after %d documents the reader reports %v", n, rd.Error())
			return
		}
		c.Ev("end-of-stream-reported")
	}
	// written again
	out, err := yaenc.NewASTWriter().WriteBytes(tree)
	if err != nil {
		c.Fail("write-error", "%v", err)
		return
	}
	if strings.Contains(src, "%TAG") || strings.Contains(src, "!") {
		c.Ev("rewrite-not-judged(tags)")
		return
	}
	if err := v3DocsMatch(out, vals); err != nil {
		c.Fail("rewritten-differs", "yaml.v3 reads the rewritten stream as: %v\n--- written ---\n%s", err, out)
		return
	}
	t2, err := parser.ParseBytes(out, parser.WithUnescapedText())
	if err != nil {
		c.Fail("rewritten-differs", "the rewritten stream is rejected: %v\n--- written ---\n%s", err, out)
		return
	}
	st2, ok := t2.(*ast.StreamNode)
	if !ok || len(st2.Documents()) != n {
		c.Fail("rewritten-differs", "the rewritten stream holds %s\n--- written ---\n%s", astText(t2), out)
		return
	}
	for k, d := range st2.Documents() {
		if err := ReadExpect(yadec.NewASTReader(d), vals[k], r, fmt.Sprintf("doc%d", k)); err != nil {
			c.Fail("rewritten-differs", "document %d of the rewritten stream: %v\n--- written ---\n%s", k, err, out)
			return
		}
	}
	c.Ev("stream-rewritten")
}

// anyOfV is what Any gives for v, when that does not depend on how a scalar was written.
func anyOfV(v V) (any, bool) {
	switch v.K {
	case KNull:
		return nil, true
	case KBool:
		return v.B, true
	case KUint:
		return v.U, true
	case KInt:
		return v.I, true
	case KStr:
		if c := v.S; c != "" && (c[0] >= 'g' && c[0] <= 'm' || c[0] >= 'p' && c[0] <= 's' || c[0] >= 'u' && c[0] <= 'x') {
			return v.S, true
		}
	case KSeq:
		out := make([]any, 0, len(v.Seq))
		for _, e := range v.Seq {
			x, ok := anyOfV(e)
			if !ok {
				return nil, false
			}
			out = append(out, x)
		}
		return out, true
	case KMap:
		out := map[string]any{}
		for i, e := range v.Seq {
			if v.Keys[i].K != KStr || v.Keys[i].S == "<<" {
				return nil, false
			}
			x, ok := anyOfV(e)
			if !ok {
				return nil, false
			}
			out[v.Keys[i].S] = x
		}
		return out, true
	}
	return nil, false
}

func init() {
	core.Register(&core.Prop{ID: "C25", Quick: 100000, Thorough: 4000000, Run: streams,
		MinEvents: []string{"boundary:directive", "boundary:bare-after-end", "boundary:explicit", "boundary:end-marker", "empty-document", "between:comment-or-blank", "document-any", "document-typed", "end-of-stream-reported", "block-scalar-as-document", "judged-by-the-model-alone", "stream-rewritten"},
		Rule:      "streams of 2..15 random documents in random presentations with every kind of boundary (bare, explicit, directives, end markers, comments and blank lines between, empty documents), block scalars at the margin among them; the generator's values are the oracle, confirmed by yaml.v3 wherever that knows the form; each document must hold its value read alone, by one reader across the stream (then the end of stream), and after the stream was written again; distinct: by source"})
}
