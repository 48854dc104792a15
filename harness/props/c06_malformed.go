package props

import (
	"fmt"
	"regexp"
	"strings"

	"gopkg.in/yaml.v3"

	"github.com/KSpaceer/yamly/engines/yayamls/ast"
	"github.com/KSpaceer/yamly/engines/yayamls/parser"

	"verifharness/core"
)

// astTexts collects the texts of all scalars of a tree in document order.
func astTexts(n ast.Node, out *[]string) {
	switch x := n.(type) {
	case *ast.StreamNode:
		for _, d := range x.Documents() {
			astTexts(d, out)
		}
	case *ast.ContentNode:
		astTexts(x.Content(), out)
	case *ast.SequenceNode:
		for _, d := range x.Entries() {
			astTexts(d, out)
		}
	case *ast.MappingNode:
		for _, d := range x.Entries() {
			astTexts(d, out)
		}
	case *ast.MappingEntryNode:
		astTexts(x.Key(), out)
		astTexts(x.Value(), out)
	case *ast.TextNode:
		*out = append(*out, x.Text())
	}
}

var sentinelRE = regexp.MustCompile(`q[0-9]+z`)

func sentinels(s string) string { return strings.Join(sentinelRE.FindAllString(s, -1), " ") }

// conservation: scalars carry unique marks; after arbitrary structural damage the parser either reports an error or
// delivers every mark exactly once and in order.
func conservation(c *core.Ctx) {
	r := c.R
	id := 0
	o := GenOpts{OnlyStr: true, ComplexKeys: true, MaxWidth: 3, Str: func(r *core.Rand) string {
		id++
		s := fmt.Sprintf("q%dz", id)
		if r.P(20) {
			id++
			s += core.Pick(r, []string{" ", "\n", "\n\n", ", ", "  ", "\n  ", ": "}) + fmt.Sprintf("q%dz", id)
		}
		return s
	}}
	v := GenRoot(r, o)
	p := NewPres(r, nil)
	p.NoComments, p.NoTags, p.NoAlias, p.NoEscape = true, true, true, true
	if r.P(30) {
		p.NoBlock = true
	}
	src := p.Document(&v)
	pieces := []string{"[", "]", "{", "}", ",", ":", ": ", "- ", "? ", "'", "\"", "\n", "\n ", "\n  ", " ", "  ", "-", "?", "\n- ", "\n---\n", "\n...\n", "\\", "\t", "|", ">", "x: ", "\r\n", ", ", " [", "{q0z: "}
	for k := r.Intn(4); k > 0; k-- {
		i := r.Intn(len(src) + 1)
		// the marks themselves stay intact
		for i > 0 && i < len(src) && (isMark(src[i-1]) && isMark(src[i])) {
			i--
		}
		switch r.Intn(3) {
		case 0:
			src = src[:i] + core.Pick(r, pieces) + src[i:]
		case 1: // delete structure up to the next mark
			j := i
			for j < len(src) && j < i+3 && src[j] != 'q' && !isMark(src[j]) {
				j++
			}
			src = src[:i] + src[j:]
		case 2: // duplicate a slice
			j := min(len(src), i+r.Intn(15))
			for j < len(src) && j > 0 && isMark(src[j-1]) && isMark(src[j]) {
				j++
			}
			src = src[:j] + src[i:j] + src[j:]
		}
	}
	if strings.ContainsAny(src, "#&*!%") {
		c.Ev("not-judged(comment or property)")
		return
	}
	c.Input(src)
	tree, err := parser.ParseString(src, parser.WithUnescapedText())
	if err != nil {
		c.Ev("damaged:rejected")
		return
	}
	c.NonTrivial()
	c.Ev("damaged:accepted")
	var texts []string
	astTexts(tree, &texts)
	want, got := sentinels(src), sentinels(strings.Join(texts, " "))
	c.EvN("marks-conserved", int64(strings.Count(want, "q")))
	if want != got {
		c.Fail("content-lost", "accepted without an error, but the scalars are\n got:  %s\n want: %s", got, want)
	}
}

func isMark(b byte) bool { return b == 'q' || b == 'z' || b >= '0' && b <= '9' || b == '\\' }

// brokenFragment returns a fragment which is no YAML wherever it is used as a block value at indentation n.
func brokenFragment(r *core.Rand, n int) (string, string) {
	sp := pad(n)
	w := func() string { return core.Pick(r, words[:12]) }
	j := func() string {
		return core.Pick(r, []string{"'" + w() + "'", "\"" + w() + "\"", "[" + w() + "]", "{" + w() + ": " + w() + "}", "[]", "{}"})
	}
	q := func() string {
		return core.Pick(r, []string{w(), "'" + w() + "'", "\"" + w() + "\"", "[" + w() + "]", "{" + w() + ": " + w() + "}"})
	}
	switch r.Intn(25) {
	case 0:
		return "unclosed-flow", strings.Repeat("[", r.Range(1, 4)) + q() + core.Pick(r, []string{"", ",", ", " + w(), "}"}) + "\n"
	case 1:
		return "unclosed-flow", strings.Repeat("{"+w()+": ", r.Range(1, 4)) + q() + core.Pick(r, []string{"", ",", ", " + w(), "]"}) + "\n"
	case 2:
		return "extra-closer", "[" + q() + "]" + core.Pick(r, []string{"]", "}", " ]", ", " + w(), " ,"}) + "\n"
	case 3:
		return "extra-closer", "{" + w() + ": " + q() + "}" + core.Pick(r, []string{"}", "]", " }", " ,"}) + "\n"
	case 4:
		return "mismatched", core.Pick(r, []string{"[" + q() + "}", "{" + w() + ": " + q() + "]", "[{" + w() + ": " + w() + "]}", "{" + w() + ": [" + w() + "}]"}) + "\n"
	case 5:
		return "bad-escape", "\"" + w() + core.Pick(r, []string{`\q`, `\x4`, `\xgg`, `\u12`, `\u123g`, `\U0010`, `\'`, `\1`, `\c`}) + core.Pick(r, []string{"", " ", "z"}) + "\"\n"
	case 6:
		return "unclosed-quote", core.Pick(r, []string{"\"" + w(), "'" + w(), "\"" + w() + "\\\"", "'" + w() + "''", "[\"" + w() + "]", "{'" + w() + ": " + w() + "}"}) + "\n"
	case 7:
		return "trailing-content", core.Pick(r, []string{"\"" + w() + "\" ", "'" + w() + "' ", "[" + w() + "] ", "{" + w() + ": x} "}) + core.Pick(r, []string{w(), "\"" + w() + "\"", "[" + w() + "]", "'x'"}) + "\n"
	case 8:
		return "two-mapping-values", w() + ": " + w() + ": " + w() + "\n"
	case 9:
		return "bad-dedent", "\n" + sp + "   k1: " + q() + "\n" + sp + " k2: " + q() + "\n"
	case 10:
		return "bad-dedent", "\n" + sp + "   - " + q() + "\n" + sp + " - " + q() + "\n"
	case 11:
		return "mixed-collection", "\n" + sp + "  - " + q() + "\n" + sp + "  k: " + q() + "\n"
	case 12:
		return "mixed-collection", "\n" + sp + "  k: " + q() + "\n" + sp + "  - " + q() + "\n"
	case 13:
		return "bad-header", core.Pick(r, []string{"|x", ">0", "|10", "|--", ">+2-", "|a b", "> " + w()}) + "\n" + sp + "     " + w() + "\n"
	case 14:
		return "double-property", core.Pick(r, []string{"&a1 &a2 ", "!!str !local ", "&a1 !t &a2 "}) + core.Pick(r, []string{w(), "\"" + w() + "\"", "[" + w() + "]"}) + "\n"
	case 15:
		return "missing-comma", "[" + core.Pick(r, []string{"", w() + ", ", "[], "}) + j() + core.Pick(r, []string{" ", "\n" + sp + "   "}) + q() + core.Pick(r, []string{"", ",", ", " + w()}) + "]\n"
	case 16:
		return "missing-comma", "{" + core.Pick(r, []string{"", "k0: 0, "}) + "k1: " + j() + core.Pick(r, []string{" ", "\n" + sp + "   "}) + "k2: " + q() + core.Pick(r, []string{"", ",", ", k3: " + w()}) + "}\n"
	case 17:
		return "stray-comma", core.Pick(r, []string{"[, " + q() + "]", "[" + q() + ",, " + q() + "]", "[" + q() + ", ,]", "{, k: " + q() + "}", "{k: " + q() + ",, k2: " + q() + "}", "[,]", "{,}", "[[,]]", "[{k: v,,}]"}) + "\n"
	case 18:
		return "no-colon", "\n" + sp + "  k1: " + q() + "\n" + sp + "  " + core.Pick(r, []string{w(), "'" + w() + "'", "[" + w() + "]"}) + "\n" + sp + "  k2: " + q() + "\n"
	case 19:
		return "no-dash", "\n" + sp + "  - " + j() + "\n" + sp + "  " + j() + "\n" + sp + "  - " + q() + "\n"
	case 20:
		return "tab-indentation", "\n" + sp + "\tk1: " + q() + "\n" + sp + "\tk2: " + q() + "\n"
	case 21:
		return "nameless-property", core.Pick(r, []string{"& ", "[&]", "{k: *}", "[& x]", "* "}) + core.Pick(r, []string{"", w()}) + "\n"
	case 22:
		return "block-in-flow", core.Pick(r, []string{"[" + w() + ": " + w() + ": " + w() + "]", "{" + w() + ": " + w() + ": " + w() + "}"}) + "\n"
	case 23:
		return "document-marker-inside", core.Pick(r, []string{"[" + w() + ",\n---\n" + w() + "]", "\"" + w() + "\n...\n" + w() + "\"", "{" + w() + ": '" + w() + "\n---\n" + w() + "'}"}) + "\n"
	default:
		return "scalar-then-entry", core.Pick(r, []string{"'" + w() + "'", "\"" + w() + "\"", "[" + w() + "]"}) + "\n" + sp + "  k: " + w() + "\n"
	}
}

// badDirective puts a directive which is none, or one without its document start, before the text of a document.
func badDirective(r *core.Rand, doc string) string {
	if r.P(25) { // a directive needs an explicit document
		return core.Pick(r, []string{"%YAML 1.2\n", "%TAG !e! tag:x.org,2024:\n", "%YAML 1.2 # c\n"}) + core.Pick(r, []string{"", "...\n", doc})
	}
	before := core.Pick(r, []string{"", "", "# c\n", "\n", "a: b\n...\n", "--- [x]\n...\n"})
	return before + core.Pick(r, []string{"%YAML foo", "%YAML", "%YAML 1.2 1.2", "%YAML 1", "%YAML 1.", "%YAML 1.2.3", "%YAML x.2", "%YAML -1.2", "%YAML 1.2 a", "%YAML 1.2---", "%YAML 1.x", "%YAML 1.1x", "%YAML .2",
		"%TAG", "%TAG !e!", "%TAG e tag:x", "%TAG !e! tag:x y", "%TAG !e tag:x:", "%TAG !e! ", "% YAML 1.2", "%"}) + core.Pick(r, []string{"", " ", " # c"}) + "\n---\n" + doc
}

// malformed: documents broken by construction must be reported.
func malformed(c *core.Ctx) {
	r := c.R
	depth := r.Intn(4)
	var sb strings.Builder
	n := 0
	filler := func() {
		for k := r.Intn(3); k > 0; k-- {
			v := GenValue(r, GenOpts{Str: GenTameString, MaxWidth: 2}, r.Intn(2))
			p := NewPres(r, nil)
			p.NoBlock, p.NoAlias, p.NoComments = true, true, true
			sb.WriteString(pad(n) + fmt.Sprintf("f%d_%d: ", n, k+10*len(sb.String())) + p.flowOneLine(&v) + "\n")
		}
	}
	if r.P(30) {
		sb.WriteString("---\n")
	}
	for d := 0; d < depth; d++ {
		filler()
		sb.WriteString(pad(n) + fmt.Sprintf("level%d:\n", d))
		n += r.Range(1, 3)
	}
	filler()
	kind, frag := brokenFragment(r, n)
	if r.P(5) {
		kind, frag = "bad-directive", core.Pick(r, words[:12])+"\n"
	}
	sb.WriteString(pad(n) + "broken: " + frag)
	filler()
	src := sb.String()
	if kind == "bad-directive" {
		src = badDirective(r, strings.TrimPrefix(src, "---\n"))
	}
	c.Input(src)
	var node yaml.Node
	if err := yaml.Unmarshal([]byte(src), &node); err == nil {
		c.Ev("not-judged(yaml.v3 accepts):" + kind)
		return
	}
	c.NonTrivial()
	d, err := YA.NewDecoder([]byte(src))
	if err == nil {
		a := d.Any()
		if d.Error() == nil {
			c.Fail("malformed-accepted", "%s: yayamls accepts the document as %#v", kind, a)
			return
		}
	}
	c.Ev("malformed:" + kind)
}

func rejects(name string, srcs ...string) core.FixedCase {
	return core.FixedCase{Name: name, Run: func(c *core.Ctx) {
		for _, src := range srcs {
			c.Input(src)
			d, err := YA.NewDecoder([]byte(src))
			if err == nil {
				a := d.Any()
				if d.Error() == nil {
					c.Fail("malformed-accepted", "%s: accepted as %#v", name, a)
					return
				}
			}
		}
	}}
}

func init() {
	core.Register(&core.Prop{ID: "C06", Quick: 400000, Thorough: 10000000, Run: func(c *core.Ctx, i int) {
		if i%2 == 0 {
			conservation(c)
		} else {
			malformed(c)
		}
	},
		Fixed:     []core.FixedCase{rejects("reserved-indicator", "a: @x\n", "a: `x\n"), rejects("indicator-in-flow", "[- x]\n", "[| x]\n")},
		MinEvents: []string{"damaged:accepted", "damaged:rejected", "marks-conserved", "malformed:unclosed-flow", "malformed:extra-closer", "malformed:mismatched", "malformed:bad-escape", "malformed:unclosed-quote", "malformed:trailing-content", "malformed:two-mapping-values", "malformed:bad-dedent", "malformed:mixed-collection", "malformed:bad-header", "malformed:double-property", "malformed:scalar-then-entry", "malformed:missing-comma", "malformed:stray-comma", "malformed:no-colon", "malformed:no-dash", "malformed:tab-indentation", "malformed:nameless-property", "malformed:block-in-flow", "malformed:document-marker-inside", "malformed:bad-directive"},
		Rule:      "half: documents whose scalars carry unique marks, damaged by random structural edits - if the parser reports no error, every mark of the source must be delivered exactly once and in order; half: documents broken by construction (16 kinds of damage at random nesting, confirmed by yaml.v3) must be reported; non-trivial: damaged source accepted, or malformed document judged"})
}
