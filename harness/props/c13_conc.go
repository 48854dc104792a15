package props

import (
	"bytes"
	"fmt"
	"math/big"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/KSpaceer/yamly"
	"github.com/KSpaceer/yamly/engines/goyaml"
	godec "github.com/KSpaceer/yamly/engines/goyaml/decode"
	"github.com/KSpaceer/yamly/engines/yayamls"
	"github.com/KSpaceer/yamly/engines/yayamls/ast"
	"github.com/KSpaceer/yamly/engines/yayamls/ast/astcmp"
	yadec "github.com/KSpaceer/yamly/engines/yayamls/decode"
	yaenc "github.com/KSpaceer/yamly/engines/yayamls/encode"
	"github.com/KSpaceer/yamly/engines/yayamls/lexer"
	"github.com/KSpaceer/yamly/engines/yayamls/parser"
	"github.com/KSpaceer/yamly/engines/yayamls/token"
	"github.com/KSpaceer/yamly/generator"
	"gopkg.in/yaml.v3"

	"verifharness/core"
)

// op is one self-contained use of the library; its result is a pure function of its data.
type op struct {
	name string
	run  func() string
}

func result1(v any, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	return fmt.Sprintf("%v", v)
}

func writeTree(t ast.Node, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	s, err := yaenc.NewASTWriter().WriteString(t)
	return result1(s, err)
}

func lexAll(src string) []token.Token {
	t := lexer.NewTokenizer(src)
	var out []token.Token
	for i := 0; i < 2*len(src)+100; i++ {
		k := t.Next()
		out = append(out, k)
		if k.Type == token.EOFType {
			break
		}
	}
	return out
}

func anyOf(d yamly.Decoder) string {
	v := d.Any()
	return result1(v, d.Error())
}

func makeOp(r *core.Rand, docs []string, trees []ast.Node, toks [][]token.Token) op {
	k := r.Intn(len(docs))
	src := docs[k]
	if r.P(6) {
		return generateOp(r)
	}
	if r.P(12) {
		return textOp(r)
	}
	switch r.Intn(14) {
	case 0:
		e := core.Pick(r, []Engine{YA, YAUnquoted, GO})
		v := GenRoot(r, GenOpts{TypedKeys: true, MaxDepth: 3})
		return op{"encode:" + e.Name, func() string {
			enc := e.NewEncoder()
			Insert(enc, v)
			return result1(enc.EncodeToString())
		}}
	case 1:
		e := core.Pick(r, []Engine{YA, GO})
		v := GenRoot(r, GenOpts{TypedKeys: true, MaxDepth: 3})
		return op{"encode-raw:" + e.Name, func() string {
			enc := e.NewEncoder()
			enc.StartSequence()
			for i := 0; i < 2; i++ {
				in := e.NewEncoder()
				Insert(in, v)
				enc.InsertRaw(in.EncodeToBytes())
			}
			enc.EndSequence()
			return result1(enc.EncodeToString())
		}}
	case 2, 3:
		e := core.Pick(r, Engines)
		return op{"decode:" + e.Name, func() string {
			d, err := e.NewDecoder([]byte(src))
			if err != nil {
				return "error: " + err.Error()
			}
			return anyOf(d)
		}}
	case 4:
		e := core.Pick(r, Engines)
		return op{"raw:" + e.Name, func() string {
			d, err := e.NewDecoder([]byte(src))
			if err != nil {
				return "error: " + err.Error()
			}
			b := d.Raw()
			return result1(string(b), d.Error())
		}}
	case 5:
		return op{"parse-string", func() string { return writeTree(parser.ParseString(src)) }}
	case 6:
		return op{"parse-bytes", func() string {
			return writeTree(parser.ParseBytes([]byte(src), parser.WithOmitStream(), parser.WithUnescapedText()))
		}}
	case 7:
		return op{"parse-tokens", func() string { return writeTree(parser.ParseTokens(toks[k])) }}
	case 8:
		return op{"parse-stream", func() string { return writeTree(parser.ParseTokenStream(lexer.NewTokenizer(src))) }}
	case 9:
		return op{"parse", func() string { return writeTree(parser.Parse(lexer.NewTokenizer(src, lexer.WithUnsafe()))) }}
	case 10:
		if trees[k] == nil {
			return op{"lex", func() string { return fmt.Sprint(len(lexAll(src))) }}
		}
		return op{"shared-tree-any", func() string { return anyOf(yadec.NewASTReader(trees[k])) }}
	case 11:
		if trees[k] == nil {
			return op{"lex", func() string { return fmt.Sprint(len(lexAll(src))) }}
		}
		return op{"shared-tree-write", func() string { return writeTree(trees[k], nil) }}
	case 12:
		if trees[k] == nil {
			return op{"lex", func() string { return fmt.Sprint(len(lexAll(src))) }}
		}
		return op{"shared-tree-compare", func() string {
			t, err := parser.ParseString(src)
			return result1(astcmp.NewComparator().Equal(t, trees[k]), err)
		}}
	default:
		if trees[k] == nil {
			return op{"lex", func() string { return fmt.Sprint(len(lexAll(src))) }}
		}
		return op{"shared-tree-raw", func() string {
			d := yadec.NewASTReader(trees[k])
			b := d.Raw()
			return result1(string(b), d.Error())
		}}
	}
}

// textOp writes and reads unusual texts: every conversion of scalars is among what it uses.
func textOp(r *core.Rand) op {
	var vs []V
	for k := r.Range(2, 6); k > 0; k-- {
		switch r.Intn(5) {
		case 0:
			vs = append(vs, V{K: KFloat, F: GenFloat(r)})
		case 1:
			vs = append(vs, V{K: KTime, T: GenTime(r)})
		case 2:
			vs = append(vs, Str(GenString(r)))
		default: // characters that are written as escapes
			var rs []rune
			for n := r.Range(1, 5); n > 0; n-- {
				rs = append(rs, core.Pick(r, []rune{rune(r.Intn(32)), rune(0x7f + r.Intn(34)), rune(0x2000 + r.Intn(112)), rune(0xe000 + r.Intn(16)), 0xfeff, rune(0xfff0 + r.Intn(12)), rune(0xe0000 + r.Intn(256)), rune(0x10fff0 + r.Intn(16)), 'x', '"'}))
			}
			vs = append(vs, Str(string(rs)))
		}
	}
	v := V{K: KSeq, Seq: vs}
	e := core.Pick(r, []Engine{YA, YA, GO})
	return op{"texts:" + e.Name, func() string {
		enc := e.NewEncoder()
		Insert(enc, v)
		b, err := enc.EncodeToBytes()
		if err != nil {
			return "error: " + err.Error()
		}
		d, err := e.NewDecoder(b)
		if err != nil {
			return "error: " + err.Error()
		}
		var sb strings.Builder
		sb.Write(b)
		st := d.Sequence()
		for k := 0; st.HasUnprocessedItems(); k++ {
			switch vs[k].K {
			case KFloat:
				fmt.Fprint(&sb, d.Float(64), ";")
			case KTime:
				fmt.Fprint(&sb, d.Timestamp(), ";")
			default:
				fmt.Fprintf(&sb, "%q;", d.String())
			}
		}
		return result1(sb.String(), d.Error())
	}}
}

// ConcLeaf, ConcTree and ConcMix are the types code is generated for.
type ConcLeaf struct {
	N int8 `yaml:"n,omitempty"`
	S *string
}

type ConcTree struct {
	ConcLeaf
	Kids []ConcTree          `yaml:",omitempty"`
	By   map[string]ConcLeaf `yaml:"by"`
	T    time.Time
	In   ConcMix `yaml:",inline"`
}

type ConcMix struct {
	A [3]float64
	F func() `yaml:"-"`
	X struct {
		Y map[uint8][]*big.Int
		Z any
	}
}

// generateOp runs the code generator; its output does not depend on others that run.
func generateOp(r *core.Rand) op {
	ts := []any{(*ConcLeaf)(nil), (*ConcTree)(nil), (*ConcMix)(nil)}
	core.Shuffle(r, ts)
	ts = ts[:r.Range(1, 3)]
	eng := r.Bool()
	var f [4]bool
	for i := range f {
		f[i] = r.Bool()
	}
	return op{"generate", func() string {
		g := generator.New("conc_yamly.go")
		g.SetPkgName("props")
		g.SetPkgPath("verifharness/props")
		if eng {
			g.SetEngineGenerator(goyaml.Generator)
		} else {
			g.SetEngineGenerator(yayamls.Generator)
		}
		g.SetOmitempty(f[0])
		g.SetDisallowUnknownFields(f[1])
		g.SetEncodePointerReceiver(f[2])
		g.SetInlineEmbedded(f[3])
		for _, t := range ts {
			g.AddType(t)
		}
		var b bytes.Buffer
		if err := g.Generate(&b); err != nil {
			return "error: " + err.Error()
		}
		return b.String()
	}}
}

func concDocs(r *core.Rand, n int) (docs []string, trees []ast.Node, toks [][]token.Token) {
	for i := 0; i < n; i++ {
		v := GenRoot(r, GenOpts{MaxDepth: 3, NoNaN: true})
		src := NewPres(r, func(string) {}).Document(&v)
		if r.P(25) && len(src) > 0 { // damage
			b := []byte(src)
			switch r.Intn(3) {
			case 0:
				b = b[:r.Intn(len(b))]
			case 1:
				b[r.Intn(len(b))] = core.Pick(r, []byte("[]{}:,-\"'\n #&*"))
			default:
				b = append(b, core.Pick(r, []string{"]", "}", "\"", "{", "[", " - x", "&a"})...)
			}
			src = string(b)
		}
		docs = append(docs, src)
		toks = append(toks, lexAll(src))
		t, err := parser.ParseString(src)
		if err != nil {
			t = nil
		}
		trees = append(trees, t)
	}
	return
}

func concurrent(c *core.Ctx, i int) {
	r := c.R
	docs, trees, toks := concDocs(r, r.Range(2, 4))
	c.Input(strings.Join(docs, "\n=====\n"))
	G := r.Range(3, 8)
	per := r.Range(4, 10)
	ops := make([][]op, G)
	want := make([][]string, G)
	for g := range ops {
		for k := 0; k < per; k++ {
			ops[g] = append(ops[g], makeOp(r, docs, trees, toks))
		}
		if r.P(25) && g > 0 { // the same operations as another goroutine
			ops[g] = ops[g-1]
		}
	}
	// what each gives alone is asked before or after; whatever the library keeps is filled by then, or not
	alone := func() {
		for g := range ops {
			for _, o := range ops[g] {
				want[g] = append(want[g], o.run())
			}
		}
	}
	first := r.Bool()
	if first {
		alone()
	} else {
		c.Ev("concurrent-before-alone")
	}
	yields := r.Intn(3)
	var active, overlapped atomic.Int64
	got := make([][]string, G)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for g := 0; g < G; g++ {
		wg.Add(1)
		got[g] = make([]string, 0, per)
		go func(g int) {
			defer wg.Done()
			<-start
			for k, o := range ops[g] {
				for y := (g + k) % (yields + 1); y > 0; y-- {
					runtime.Gosched()
				}
				if active.Add(1) > 1 {
					overlapped.Add(1)
				}
				s := o.run()
				active.Add(-1)
				got[g] = append(got[g], s)
			}
		}(g)
	}
	close(start)
	wg.Wait()
	if !first {
		alone()
	}
	c.EvN("operations-run-concurrently", int64(G*per))
	c.EvN("operations-overlapping-another", overlapped.Load())
	for g := range ops {
		for k, o := range ops[g] {
			c.Ev("op:" + o.name)
			if strings.HasPrefix(want[g][k], "error: ") {
				c.Ev("op-failing-by-design")
			}
			if got[g][k] != want[g][k] {
				c.Fail("concurrent-differs", "%s: alone it gives %q, among others %q", o.name, clipS2([]byte(want[g][k])), clipS2([]byte(got[g][k])))
				return
			}
		}
	}
	if overlapped.Load() > 0 {
		c.NonTrivial()
	}
}

// ---- C14 ----

func cloneNode(n *yaml.Node, memo map[*yaml.Node]*yaml.Node) *yaml.Node {
	if n == nil {
		return nil
	}
	if x, ok := memo[n]; ok {
		return x
	}
	x := *n
	memo[n] = &x
	x.Alias = cloneNode(n.Alias, memo)
	x.Content = nil
	for _, s := range n.Content {
		x.Content = append(x.Content, cloneNode(s, memo))
	}
	return &x
}

func dumpNode(sb *strings.Builder, n *yaml.Node) { dumpNodeIn(sb, n, map[*yaml.Node]bool{}) }

func dumpNodeIn(sb *strings.Builder, n *yaml.Node, within map[*yaml.Node]bool) {
	if within[n] {
		sb.WriteString("(cycle)")
		return
	}
	within[n] = true
	defer delete(within, n)
	fmt.Fprintf(sb, "(%d %d %q %q %q %q %q %q %d:%d", n.Kind, n.Style, n.Tag, n.Value, n.Anchor, n.HeadComment, n.LineComment, n.FootComment, n.Line, n.Column)
	if n.Alias != nil {
		fmt.Fprintf(sb, " *%s", n.Alias.Anchor)
	}
	for _, s := range n.Content {
		dumpNodeIn(sb, s, within)
	}
	sb.WriteString(")")
}

func dumpAST(sb *strings.Builder, n ast.Node) {
	if n == nil || reflect.ValueOf(n).Kind() == reflect.Pointer && reflect.ValueOf(n).IsNil() {
		sb.WriteString("nil")
		return
	}
	fmt.Fprintf(sb, "(%s", n.Type())
	switch x := n.(type) {
	case *ast.StreamNode:
		for _, s := range x.Documents() {
			dumpAST(sb, s)
		}
	case *ast.SequenceNode:
		for _, s := range x.Entries() {
			dumpAST(sb, s)
		}
	case *ast.MappingNode:
		for _, s := range x.Entries() {
			dumpAST(sb, s)
		}
	case *ast.MappingEntryNode:
		dumpAST(sb, x.Key())
		dumpAST(sb, x.Value())
	case *ast.ContentNode:
		dumpAST(sb, x.Properties())
		dumpAST(sb, x.Content())
	case *ast.PropertiesNode:
		dumpAST(sb, x.Tag())
		dumpAST(sb, x.Anchor())
	case *ast.TextNode:
		fmt.Fprintf(sb, " %d %q", x.QuotingType(), x.Text())
	case ast.Texter:
		fmt.Fprintf(sb, " %q", x.Text())
	}
	sb.WriteString(")")
}

func astText(n ast.Node) string {
	var sb strings.Builder
	dumpAST(&sb, n)
	return sb.String()
}

func nodeText(n *yaml.Node) string {
	var sb strings.Builder
	dumpNode(&sb, n)
	return sb.String()
}

// aliasTrees: a tree with anchors, aliases and faults of both is the same after each reader, whether it fails or not.
func aliasTrees(c *core.Ctx) {
	r := c.R
	_, root, src := aliasDoc(r, func(string) {}, 50)
	c.Input(src)
	if root.size(map[string]int{}) > 2000 {
		c.Ev("not-judged(expands too much)")
		return
	}
	bind(root, map[string]*aNode{})
	var dump func() string
	var reader func() yamly.Decoder
	e := core.Pick(r, Engines)
	if e.Name == YA.Name {
		t, err := parser.ParseString(src, parser.WithUnescapedText())
		if err != nil {
			c.Ev("malformed")
			return
		}
		dump, reader = func() string { return astText(t) }, func() yamly.Decoder { return yadec.NewASTReader(t) }
	} else {
		var n yaml.Node
		if yaml.Unmarshal([]byte(src), &n) != nil {
			c.Ev("malformed")
			return
		}
		dump, reader = func() string { return nodeText(&n) }, func() yamly.Decoder { return godec.NewASTReader(&n) }
	}
	c.NonTrivial()
	before := dump()
	for k := 0; k < 4; k++ {
		d, steps := reader(), 0
		var calls []string
		wander(d, root, r, &steps, func(s string) { calls = append(calls, s) })
		if after := dump(); after != before {
			c.Fail("tree-modified", "%s: %s (error %v) changed the tree from %s to %s", e.Name, strings.Join(calls, ", "), d.Error(), before, after)
			return
		}
		if d.Error() != nil {
			c.Ev("alias-tree-kept-by-failed-reader:" + e.Name)
		} else {
			c.Ev("alias-tree-kept:" + e.Name)
		}
	}
}

func isolation(c *core.Ctx, i int) {
	r := c.R
	if r.P(12) {
		aliasTrees(c)
		return
	}
	if r.P(14) {
		heldValues(c)
		return
	}
	if r.P(14) {
		heldTrees(c)
		return
	}
	v := GenRoot(r, GenOpts{MaxDepth: 3, NoNaN: true})
	src := NewPres(r, func(string) {}).Document(&v)
	if r.P(15) && len(src) > 0 {
		src = src[:r.Intn(len(src))]
	}
	c.Input(src)
	e := core.Pick(r, Engines)
	// reference: everything from pristine data
	d, err := e.NewDecoder([]byte(src))
	if err != nil {
		c.Ev("malformed")
		buf := []byte(src)
		_, _ = e.NewDecoder(buf)
		if string(buf) != src {
			c.Fail("input-modified", "%s changed the input bytes", e.Name)
		}
		return
	}
	wantAny := d.Any()
	if d.Error() != nil {
		c.Ev("not-readable-as-any")
		return
	}
	if v.Count() > 1 {
		c.NonTrivial()
	}
	// 0. no two parts of a value are one Go value: a change of one part leaves the others
	if msg := partsShared(r, wantAny); msg != "" {
		c.Fail("parts-shared", "%s: %s", e.Name, msg)
		return
	} else if strings.Contains(src, "*") {
		c.Ev("any-with-aliases-changed-in-part")
	}
	d, _ = e.NewDecoder([]byte(src))
	wantAny = d.Any()
	// 1. the input is not modified and is not needed after the decoder was made
	buf := append(make([]byte, 0, len(src)+16), src...)
	spare := buf[len(buf):cap(buf)]
	for k := range spare {
		spare[k] = '~'
	}
	d, _ = e.NewDecoder(buf)
	if string(buf) != src || strings.Trim(string(spare), "~") != "" {
		c.Fail("input-modified", "%s changed the input bytes", e.Name)
		return
	}
	if r.Bool() {
		scribble(buf)
		c.Ev("input-overwritten-before-reading")
	}
	got := d.Any()
	if d.Error() != nil || !reflect.DeepEqual(normNaN(got), normNaN(wantAny)) {
		c.Fail("input-retained", "%s: after the input was overwritten Any() = %v, %v, want %v", e.Name, got, d.Error(), wantAny)
		return
	}
	scribble(buf)
	if !reflect.DeepEqual(normNaN(got), normNaN(wantAny)) {
		c.Fail("input-retained", "%s: the value read earlier changed to %v when the input was overwritten, want %v", e.Name, got, wantAny)
		return
	}
	c.Ev("input-overwritten-after-reading")
	// typed reads and raw bytes after the input is gone
	buf = []byte(src)
	d, _ = e.NewDecoder(buf)
	if rd, err := rawTwice(e, src); err != nil {
		c.Fail("raw-shared", "%s: %v", e.Name, err)
		return
	} else if rd {
		c.Ev("raw-bytes-overwritten")
	}
	scribble(buf)
	collected := collectStrings(d, &v)
	_ = collected
	if d.Error() == nil {
		c.Ev("typed-reads-after-overwrite")
		if s := strings.Join(collected, "\x00"); strings.Contains(s, "####") && !strings.Contains(src, "####") {
			c.Fail("input-retained", "%s: typed reads returned text of the overwritten input: %q", e.Name, s)
			return
		}
	}
	// 2. the tree is not modified by readers and writers
	if e.Name == YA.Name {
		t, err := parser.ParseString(src, parser.WithUnescapedText())
		if err != nil {
			return
		}
		before := astText(t)
		for n := 0; n < 3; n++ {
			d := yadec.NewASTReader(t)
			what := useReader(r, d, &v)
			if after := astText(t); after != before {
				c.Fail("tree-modified", "%s: %s changed the tree from %s to %s", e.Name, what, before, after)
				return
			}
			c.Ev("tree-reader:" + what)
		}
		w := yaenc.NewASTWriter()
		b1, e1 := w.WriteBytes(t)
		keep := bytes.Clone(b1)
		if e1 == nil && r.Bool() { // another tree with the same writer
			v2 := GenRoot(r, GenOpts{MaxDepth: 2, NoNaN: true})
			in := yaenc.NewASTBuilder()
			Insert(in, v2)
			if t2, err := in.Result(); err == nil {
				_, _ = w.WriteBytes(t2)
				if !bytes.Equal(keep, b1) {
					c.Fail("returned-bytes-changed", "%s: bytes of WriteBytes became %q when another tree was written, want %q", e.Name, b1, keep)
					return
				}
				c.Ev("other-tree-written")
			}
		}
		b2, e2 := w.WriteBytes(t)
		if (e1 == nil) != (e2 == nil) || !bytes.Equal(keep, b2) || !bytes.Equal(keep, b1) {
			c.Fail("tree-modified", "%s: writing a tree twice gives %q and %q", e.Name, keep, b2)
			return
		}
		scribble(b1)
		b3, _ := w.WriteBytes(t)
		if !bytes.Equal(b3, keep) || astText(t) != before {
			c.Fail("tree-modified", "%s: the tree changed after writing: %q, want %q", e.Name, b3, keep)
		}
		return
	}
	var n yaml.Node
	if yaml.Unmarshal([]byte(src), &n) != nil {
		return
	}
	before := nodeText(&n)
	for k := 0; k < 3; k++ {
		d := godec.NewASTReader(&n)
		what := useReader(r, d, &v)
		if after := nodeText(&n); after != before {
			c.Fail("tree-modified", "%s: %s changed the tree from %s to %s", e.Name, what, before, after)
			return
		}
		c.Ev("tree-reader:" + what)
	}
}

// useReader reads all of the document one way.
func useReader(r *core.Rand, d yamly.Decoder, v *V) string {
	switch r.Intn(4) {
	case 0:
		x := d.Any()
		mutate(x)
		return "any"
	case 1:
		b := d.Raw()
		scribble(b)
		return "raw"
	case 2:
		d.Skip()
		return "skip"
	default:
		collectStrings(d, v)
		return "typed"
	}
}

// partsShared changes the collections within v one by one and sees to it that nothing else of v changes with them.
// v is spoilt afterwards.
func partsShared(r *core.Rand, v any) string {
	var all []any
	var walk func(v any)
	walk = func(v any) {
		switch x := v.(type) {
		case []any:
			if len(x) > 0 {
				all = append(all, x)
			}
			for _, s := range x {
				walk(s)
			}
		case map[string]any:
			all = append(all, x)
			keys := make([]string, 0, len(x))
			for k := range x {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				walk(x[k])
			}
		}
	}
	walk(v)
	if len(all) > 40 {
		core.Shuffle(r, all)
		all = all[:40]
	}
	marked := func(v any) bool {
		switch x := v.(type) {
		case []any:
			_, ok := x[0].(mark)
			return ok
		case map[string]any:
			_, ok := x["mark of the harness"]
			return ok
		}
		return false
	}
	for k, x := range all {
		if marked(x) {
			return fmt.Sprintf("the value of Any holds one and the same collection twice: %v", x)
		}
		switch x := x.(type) {
		case []any:
			x[0] = mark(k)
		case map[string]any:
			x["mark of the harness"] = mark(k)
		}
	}
	return ""
}

type mark int

// mutate changes everything reachable from a value of Any.
func mutate(v any) {
	switch x := v.(type) {
	case []any:
		for i := range x {
			mutate(x[i])
			x[i] = "changed"
		}
	case map[string]any:
		for k := range x {
			mutate(x[k])
			x[k] = "changed"
		}
	}
}

func rawTwice(e Engine, src string) (bool, error) {
	d1, err := e.NewDecoder([]byte(src))
	if err != nil {
		return false, nil
	}
	b1 := d1.Raw()
	if d1.Error() != nil {
		return false, nil
	}
	keep := bytes.Clone(b1)
	d2, _ := e.NewDecoder([]byte(src))
	b2 := d2.Raw()
	if !bytes.Equal(b1, keep) || !bytes.Equal(b2, keep) {
		return false, fmt.Errorf("Raw() of two readers: %q, then %q; the first became %q", keep, b2, b1)
	}
	scribble(b1)
	if !bytes.Equal(b2, keep) {
		return false, fmt.Errorf("overwriting the bytes of Raw() changed those of another reader to %q", b2)
	}
	return true, nil
}

// collectStrings reads the document along the model's shape with String/Any/Raw.
func collectStrings(d yamly.Decoder, v *V) (out []string) {
	if d.Error() != nil {
		return
	}
	switch v.K {
	case KNull:
		d.TryNull()
	case KSeq, KMap:
		var st yamly.CollectionState
		if v.K == KSeq {
			st = d.Sequence()
		} else {
			st = d.Mapping()
		}
		for i := 0; st.HasUnprocessedItems() && d.Error() == nil && i < len(v.Seq); i++ {
			if v.K == KMap {
				out = append(out, collectStrings(d, &v.Keys[i])...)
			}
			out = append(out, collectStrings(d, &v.Seq[i])...)
		}
	default:
		out = append(out, d.String())
	}
	return
}

func normNaN(v any) any {
	switch x := v.(type) {
	case float64:
		return fmt.Sprint(x)
	case []any:
		o := make([]any, len(x))
		for i := range x {
			o[i] = normNaN(x[i])
		}
		return o
	case map[string]any:
		o := map[string]any{}
		for k, e := range x {
			o[k] = normNaN(e)
		}
		return o
	}
	return v
}

func init() {
	core.Register(&core.Prop{ID: "C13", Quick: 6000, Thorough: 60000, Run: concurrent, Race: true, Workers: 4, CPUBudget: 240,
		MinEvents: []string{"operations-overlapping-another", "op:encode:yayamls", "op:encode:goyaml", "op:decode:yayamls", "op:decode:goyaml", "op:raw:yayamls", "op:parse", "op:parse-tokens", "op:parse-stream", "op:parse-string", "op:parse-bytes", "op:shared-tree-any", "op:shared-tree-write", "op:shared-tree-compare", "op:shared-tree-raw", "op-failing-by-design", "op:generate", "op:texts:yayamls", "op:texts:goyaml", "concurrent-before-alone"},
		Rule:      "race-instrumented build: several goroutines run random operations (encoding, decoding, raw, every parser entry point, code generation, failing inputs included) on their own objects and on shared read-only yayamls trees and token slices; oracle: no race report, and each operation gives what it gave alone; non-trivial: at least two operations overlapped in time; distinct: by the documents"})
	core.Register(&core.Prop{ID: "C14", Quick: 150000, Thorough: 5000000, Run: isolation,
		MinEvents: []string{"alias-tree-kept:yayamls", "alias-tree-kept:goyaml", "alias-tree-kept-by-failed-reader:yayamls", "alias-tree-kept-by-failed-reader:goyaml", "input-overwritten-before-reading", "input-overwritten-after-reading", "raw-bytes-overwritten", "typed-reads-after-overwrite", "tree-reader:any", "tree-reader:raw", "tree-reader:skip", "tree-reader:typed", "malformed", "any-with-aliases-changed-in-part", "other-tree-written", "held:Raw", "held:Any", "held:Node", "held:String", "inserted-raw-overwritten:yayamls", "inserted-raw-overwritten:goyaml", "inserted-text-overwritten:yayamls", "inserted-text-overwritten:goyaml", "builder-used-again:yayamls", "builder-used-again:goyaml", "parsed-trees-changed"},
		Rule:      "random presentations of random values; the input buffer is overwritten before or after reading, bytes of Raw are overwritten, values of Any are changed in place, and complete dumps of trees are compared before and after each reader and writer; every value one reader returned (Raw, Any, Node, String) is held and compared at the end, or changed by its holder while the reader goes on; bytes given to builders and parsers are overwritten at once and builders used again; oracle: nothing a caller holds or shares changes; non-trivial: more than one node; distinct: by document"})
}
