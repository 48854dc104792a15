package props

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/KSpaceer/yamly"
	"github.com/KSpaceer/yamly/engines/yayamls/ast"
	yaenc "github.com/KSpaceer/yamly/engines/yayamls/encode"
	"github.com/KSpaceer/yamly/engines/yayamls/parser"
	"gopkg.in/yaml.v3"

	goenc "github.com/KSpaceer/yamly/engines/goyaml/encode"

	"verifharness/core"
)

// held is a value a reader returned earlier and what it looked like then.
type held struct {
	call string
	x    any
	then string
}

func heldText(x any) string {
	switch x := x.(type) {
	case []byte:
		return string(x)
	case string:
		return strings.Clone(x)
	case ast.Node:
		return astText(x)
	case *yaml.Node:
		return nodeText(x)
	}
	return fmt.Sprintf("%T %v", x, x)
}

// holder reads a document call by call and keeps what it gets.
type holder struct {
	d       yamly.Decoder
	choices []int
	n       int
	held    []held
	spoil   bool // change what was returned as soon as it was noted
}

func (h *holder) pick(n int) int {
	h.n++
	return h.choices[h.n%len(h.choices)] % n
}

func (h *holder) keep(call string, x any) {
	h.held = append(h.held, held{call, x, heldText(x)})
	if h.spoil {
		switch x := x.(type) {
		case []byte:
			scribble(x[:cap(x)])
		default:
			mutate(x)
		}
	}
}

func (h *holder) read(v *V, key bool) {
	if h.d.Error() != nil {
		return
	}
	k := h.pick(8)
	if !key {
		switch k {
		case 0, 1:
			h.keep("Raw", h.d.Raw())
			return
		case 2:
			h.keep("Any", h.d.Any())
			return
		case 3:
			switch d := h.d.(type) {
			case yamly.ExtendedDecoder[ast.Node]:
				h.keep("Node", d.Node())
				return
			case yamly.ExtendedDecoder[*yaml.Node]:
				h.keep("Node", d.Node())
				return
			}
		case 4:
			h.d.Skip()
			return
		}
	}
	switch v.K {
	case KNull:
		h.keep("TryNull", h.d.TryNull())
	case KSeq, KMap:
		var st yamly.CollectionState
		if v.K == KSeq {
			st = h.d.Sequence()
		} else {
			st = h.d.Mapping()
		}
		for i := 0; st.HasUnprocessedItems() && h.d.Error() == nil && i < len(v.Seq); i++ {
			if v.K == KMap {
				h.read(&v.Keys[i], true)
			}
			h.read(&v.Seq[i], false)
		}
	default:
		h.keep("String", h.d.String())
	}
}

// heldValues: what one reader returned stays as it was while the reader goes on, and what a caller does to it
// has no effect on what the reader returns later.
func heldValues(c *core.Ctx) {
	r := c.R
	v := V{K: KSeq}
	for k := r.Range(2, 5); k > 0; k-- {
		v.Seq = append(v.Seq, GenRoot(r, GenOpts{MaxDepth: 3, NoNaN: true}))
	}
	src := NewPres(r, func(string) {}).Document(&v)
	c.Input(src)
	e := core.Pick(r, Engines)
	choices := make([]int, 64)
	for i := range choices {
		choices[i] = r.Intn(1 << 20)
	}
	var hs [2]*holder
	for i := range hs {
		d, err := e.NewDecoder([]byte(src))
		if err != nil {
			c.Ev("malformed")
			return
		}
		hs[i] = &holder{d: d, choices: choices, spoil: i == 1}
		hs[i].read(&v, true)
	}
	for k, x := range hs[0].held {
		if now := heldText(x.x); now != x.then {
			c.Fail("returned-value-changed", "%s: what %s (call %d of %d) returned was %q and became %q while the reader went on", e.Name, x.call, k, len(hs[0].held), x.then, now)
			return
		}
		if k >= len(hs[1].held) || hs[1].held[k].then != x.then {
			got := "nothing"
			if k < len(hs[1].held) {
				got = hs[1].held[k].then
			}
			c.Fail("returned-value-shared", "%s: when the values returned before were changed by their holder, %s (call %d) returned %q, want %q", e.Name, x.call, k, got, x.then)
			return
		}
		c.Ev("held:" + x.call)
	}
	if len(hs[0].held) > 1 {
		c.NonTrivial()
	}
}

// insertFrom inserts v, part of it as raw fragments and raw texts, which the caller overwrites right away if spoil is set.
func insertFrom(in yamly.Inserter, e Engine, v V, r *core.Rand, spoil bool, ev func(string)) {
	give := func(b []byte) []byte { return append(make([]byte, 0, len(b)+8), b...) }
	k := r.Intn(10)
	if k < 2 {
		sub := e.NewEncoder()
		Insert(sub, v)
		raw, err := sub.EncodeToBytes()
		raw = give(raw)
		in.InsertRaw(raw, err)
		ev("inserted-raw-overwritten:" + e.Name)
		if spoil {
			scribble(raw[:cap(raw)])
		}
		return
	}
	switch v.K {
	case KStr:
		if k < 6 {
			b := give([]byte(v.S))
			in.InsertRawText(b, nil)
			ev("inserted-text-overwritten:" + e.Name)
			if spoil {
				scribble(b[:cap(b)])
			}
			return
		}
		in.InsertString(v.S)
	case KSeq:
		in.StartSequence()
		for _, x := range v.Seq {
			insertFrom(in, e, x, r, spoil, ev)
		}
		in.EndSequence()
	case KMap:
		in.StartMapping()
		for i := range v.Keys {
			Insert(in, v.Keys[i])
			insertFrom(in, e, v.Seq[i], r, spoil, ev)
		}
		in.EndMapping()
	default:
		Insert(in, v)
	}
}

// heldTrees: what a builder or a parser was given may be overwritten, and a tree stays while its maker is used again.
func heldTrees(c *core.Ctx) {
	r := c.R
	v := GenRoot(r, GenOpts{MaxDepth: 3, NoNaN: true})
	c.Input(v.String())
	seed := r.U64()
	if v.Count() > 1 {
		c.NonTrivial()
	}
	noev := func(string) {}
	again := GenRoot(r, GenOpts{MaxDepth: 2, NoNaN: true})
	switch r.Intn(3) {
	case 0: // yayamls builder
		var opts []yaenc.ASTBuilderOption
		e := YA
		if r.Bool() {
			opts = append(opts, yaenc.WithUnquotedOneLineStrings())
		}
		ref := yaenc.NewASTBuilder(opts...)
		insertFrom(ref, e, v, core.NewRand(seed), false, noev)
		want, err := ref.Result()
		b := yaenc.NewASTBuilder(opts...)
		insertFrom(b, e, v, core.NewRand(seed), true, c.Ev)
		got, err2 := b.Result()
		if err != nil || err2 != nil {
			c.Ev("not-built")
			return
		}
		if w, g := astText(want), astText(got); w != g {
			c.Fail("input-retained", "%s builder: after the inserted bytes were overwritten the tree is %s, want %s", e.Name, g, w)
			return
		}
		before := astText(got)
		insertFrom(b, e, again, r, true, noev)
		if x, err := b.Result(); err == nil {
			mangle(x)
		}
		if after := astText(got); after != before {
			c.Fail("tree-modified", "%s builder: the tree built first was %s and became %s when the builder was used again", e.Name, before, after)
			return
		}
		c.Ev("builder-used-again:" + e.Name)
	case 1: // goyaml builder
		ref := goenc.NewASTBuilder()
		insertFrom(ref, GO, v, core.NewRand(seed), false, noev)
		want, err := ref.Result()
		b := goenc.NewASTBuilder()
		insertFrom(b, GO, v, core.NewRand(seed), true, c.Ev)
		got, err2 := b.Result()
		if err != nil || err2 != nil {
			c.Ev("not-built")
			return
		}
		if w, g := nodeText(want), nodeText(got); w != g {
			c.Fail("input-retained", "goyaml builder: after the inserted bytes were overwritten the tree is %s, want %s", g, w)
			return
		}
		before := nodeText(got)
		insertFrom(b, GO, again, r, true, noev)
		if x, err := b.Result(); err == nil {
			mangleYAML(x)
		}
		if after := nodeText(got); after != before {
			c.Fail("tree-modified", "goyaml builder: the tree built first was %s and became %s when the builder was used again", before, after)
			return
		}
		c.Ev("builder-used-again:goyaml")
	default: // parser
		src := NewPres(r, func(string) {}).Document(&v)
		var opts []parser.ParseOption
		if r.Bool() {
			opts = append(opts, parser.WithOmitStream())
		}
		if r.Bool() {
			opts = append(opts, parser.WithUnescapedText())
		}
		toks := lexAll(src)
		var trees []ast.Node
		var wants []string
		for k := 0; k < 3; k++ {
			buf := append(make([]byte, 0, len(src)+16), src...)
			var t ast.Node
			var err error
			switch k {
			case 0:
				t, err = parser.ParseBytes(buf, opts...)
			case 1:
				own := append(toks[:0:0], toks...)
				t, err = parser.ParseTokens(own)
				for i := range own {
					if own[i] != toks[i] {
						c.Fail("input-modified", "ParseTokens changed token %d of its input from %v to %v", i, toks[i], own[i])
						return
					}
					own[i].Origin, own[i].Type = "####", 0
				}
			default:
				t, err = parser.ParseString(src, opts...)
			}
			if err != nil {
				c.Ev("malformed")
				return
			}
			if !bytes.Equal(buf, []byte(src)) {
				c.Fail("input-modified", "ParseBytes changed the input bytes")
				return
			}
			before := astText(t)
			scribble(buf[:cap(buf)])
			if after := astText(t); after != before {
				c.Fail("input-retained", "parser: the tree was %s and became %s when the input was overwritten", before, after)
				return
			}
			trees, wants = append(trees, t), append(wants, before)
		}
		// the trees have nothing in common
		mangle(trees[0])
		if after := astText(trees[2]); after != wants[2] {
			c.Fail("tree-shared", "parser: a tree was %s and became %s when another tree of the source was changed", wants[2], after)
			return
		}
		t, err := parser.ParseString(src, opts...)
		if err != nil || astText(t) != wants[2] {
			c.Fail("tree-shared", "parser: after a tree of the source was changed the source gives %s, %v, want %s", astText(t), err, wants[2])
			return
		}
		c.Ev("parsed-trees-changed")
	}
}

// mangle changes every node of a tree that offers a way to.
func mangle(n ast.Node) {
	if !ast.ValidNode(n) {
		return
	}
	extra := ast.NewTextNode("mark of the harness")
	switch n := n.(type) {
	case *ast.StreamNode:
		for _, x := range n.Documents() {
			mangle(x)
		}
	case *ast.ContentNode:
		mangle(n.Content())
	case *ast.SequenceNode:
		for _, x := range n.Entries() {
			mangle(x)
		}
		n.AppendEntry(extra)
	case *ast.MappingNode:
		for _, x := range n.Entries() {
			mangle(x)
		}
		n.AppendEntry(ast.NewMappingEntryNode(extra, extra))
	case *ast.MappingEntryNode:
		mangle(n.Key())
		mangle(n.Value())
		n.SetValue(extra)
	}
}

func mangleYAML(n *yaml.Node) {
	for _, x := range n.Content {
		mangleYAML(x)
	}
	n.Value, n.Content = "mark of the harness", nil
}
