package props

import (
	"fmt"
	"reflect"
	"strings"
	"unicode/utf8"

	"github.com/KSpaceer/yamly/engines/yayamls/ast"
	"github.com/KSpaceer/yamly/engines/yayamls/lexer"
	"github.com/KSpaceer/yamly/engines/yayamls/parser"
	"github.com/KSpaceer/yamly/engines/yayamls/token"

	"verifharness/core"
)

var tokenText = map[token.Type][]string{
	token.SequenceEntryType: {"-"}, token.MappingKeyType: {"?"}, token.MappingValueType: {":"}, token.CollectEntryType: {","},
	token.SequenceStartType: {"["}, token.SequenceEndType: {"]"}, token.MappingStartType: {"{"}, token.MappingEndType: {"}"},
	token.CommentType: {"#"}, token.AnchorType: {"&"}, token.AliasType: {"*"}, token.TagType: {"!"}, token.LiteralType: {"|"},
	token.FoldedType: {">"}, token.SingleQuoteType: {"'"}, token.DoubleQuoteType: {"\""}, token.DirectiveType: {"%"},
	token.LineBreakType: {"\n", "\r", "\r\n"}, token.SpaceType: {" "}, token.TabType: {"\t"}, token.BOMType: {"\ufeff"},
	token.DocumentEndType: {"..."}, token.DirectiveEndType: {"---"}, token.StripChompingType: {"-"}, token.KeepChompingType: {"+"},
}

// checkTokens: the tokens are the source, cut in order, with true positions.
func checkTokens(toks []token.Token, src string) error {
	row, col := 1, 1
	rest := src
	for i, t := range toks {
		if t.Type == token.EOFType {
			if rest != "" {
				return fmt.Errorf("token %d is the end of file, but %q is left of the source", i, rest)
			}
			if i != len(toks)-1 {
				return fmt.Errorf("end of file is token %d of %d", i, len(toks))
			}
			if t.Start.Row != row || t.Start.Column != col {
				return fmt.Errorf("end of file at %d:%d, want %d:%d", t.Start.Row, t.Start.Column, row, col)
			}
			continue
		}
		if t.Origin == "" || !strings.HasPrefix(rest, t.Origin) {
			return fmt.Errorf("token %d (%s) has the text %q where the source goes on with %q", i, t.Type, t.Origin, clipS(rest))
		}
		if t.Type == token.StringType {
			if strings.ContainsAny(t.Origin, "\n\r") {
				return fmt.Errorf("token %d (%s) has a line break: %q", i, t.Type, t.Origin)
			}
		} else {
			ok := false
			for _, x := range tokenText[t.Type] {
				ok = ok || x == t.Origin
			}
			if !ok {
				return fmt.Errorf("token %d (%s) has the text %q", i, t.Type, t.Origin)
			}
		}
		if t.Type == token.LineBreakType && t.Origin == "\r" && strings.HasPrefix(rest, "\r\n") {
			return fmt.Errorf("token %d: the line break \\r\\n is cut in two", i)
		}
		if t.Start.Row != row || t.Start.Column != col {
			return fmt.Errorf("token %d (%s %q) starts at %d:%d, want %d:%d", i, t.Type, t.Origin, t.Start.Row, t.Start.Column, row, col)
		}
		n := utf8.RuneCountInString(t.Origin)
		if t.End.Row != row || t.End.Column != col+n-1 {
			return fmt.Errorf("token %d (%s %q) ends at %d:%d, want %d:%d", i, t.Type, t.Origin, t.End.Row, t.End.Column, row, col+n-1)
		}
		rest = rest[len(t.Origin):]
		col += n
		if t.Type == token.LineBreakType {
			row, col = row+1, 1
		}
	}
	if len(toks) == 0 || toks[len(toks)-1].Type != token.EOFType {
		return fmt.Errorf("the end of file is never reached (%d tokens)", len(toks))
	}
	return nil
}

// recorder notes the tokens a parser takes and switches of the raw mode.
type recorder struct {
	*lexer.Tokenizer
	toks  []token.Token
	modes int
}

func (r *recorder) Next() token.Token {
	t := r.Tokenizer.Next()
	r.toks = append(r.toks, t)
	return t
}
func (r *recorder) SetRawMode()   { r.modes++; r.Tokenizer.SetRawMode() }
func (r *recorder) UnsetRawMode() { r.modes++; r.Tokenizer.UnsetRawMode() }

func genSource(c *core.Ctx) string {
	r := c.R
	v := GenRoot(r, GenOpts{MaxDepth: 3, NoNaN: true})
	src := NewPres(r, func(string) {}).Document(&v)
	switch r.Intn(6) {
	case 0: // several documents
		for k := r.Intn(3); k > 0; k-- {
			w := GenRoot(r, GenOpts{MaxDepth: 2, NoNaN: true})
			d := NewPres(r, func(string) {}).Document(&w)
			if !strings.HasSuffix(src, "\n") {
				src += "\n"
			}
			src += core.Pick(r, []string{"...\n", "---\n", "...\n---\n"}) + strings.TrimPrefix(d, "\ufeff")
		}
	case 1, 2: // damage
		src = damage(r, src)
	case 3: // soup
		var sb strings.Builder
		for k := r.Range(0, 30); k > 0; k-- {
			switch r.Intn(3) {
			case 0:
				sb.WriteRune(core.Pick(r, atomRunes))
			case 1:
				sb.WriteString(core.Pick(r, []string{"a", "key", ": ", "- ", "? ", "[", "]", "{", "}", ", ", "\n", "\n  ", " #", "&a ", "*a", "!t ", "|\n", ">-\n", "'", "\"", "---", "...", "%YAML 1.2\n", "\r\n", "\r", "\t", "\ufeff", "|2", ">+1"}))
			default:
				sb.WriteString(core.Pick(r, hostileStrings))
			}
		}
		src = sb.String()
	}
	return src
}

func damage(r *core.Rand, src string) string {
	b := []rune(src)
	for k := r.Range(1, 3); k > 0 && len(b) > 0; k-- {
		i := r.Intn(len(b))
		switch r.Intn(4) {
		case 0:
			b = append(b[:i:i], b[i+1:]...)
		case 1:
			b[i] = core.Pick(r, atomRunes)
		case 2:
			b = append(b[:i:i], append([]rune{core.Pick(r, atomRunes)}, b[i:]...)...)
		default:
			b = b[:i]
		}
	}
	return string(b)
}

func tokens(c *core.Ctx, i int) {
	r := c.R
	src := genSource(c)
	c.Input(src)
	if !utf8.ValidString(src) {
		return
	}
	var toks []token.Token
	var opts []lexer.TokenizerOption
	if r.Bool() {
		opts = append(opts, lexer.WithUnsafe())
		c.Ev("unsafe-tokenizer")
	}
	t := lexer.NewTokenizer(src, opts...)
	toggle := r.P(35)
	limit := 2*len(src) + 100
	for len(toks) < limit {
		if toggle && r.P(10) {
			if r.Bool() {
				t.SetRawMode()
			} else {
				t.UnsetRawMode()
			}
			c.Ev("raw-mode-switched")
		}
		k := t.Next()
		toks = append(toks, k)
		c.Ev("token:" + k.Type.String())
		if k.Type == token.EOFType {
			break
		}
	}
	if err := checkTokens(toks, src); err != nil {
		c.Fail("tokens-differ", "%v", err)
		return
	}
	for k := 0; k < 3; k++ {
		if x := t.Next(); x.Type != token.EOFType {
			c.Fail("after-end", "after the end of file the tokenizer emits %s %q", x.Type, x.Origin)
			return
		}
	}
	if len(toks) > 2 {
		c.NonTrivial()
	}
	if !toggle {
		again := lexAll(src)
		if !reflect.DeepEqual(again, toks) {
			c.Fail("tokens-differ", "tokenizing again gives other tokens")
			return
		}
	}
	// the tokens a parser takes are the source, too
	rec := &recorder{}
	_, err := parser.ParseString(src, parser.WithTokenStreamConstructor(func(s string) parser.ConfigurableTokenStream {
		rec.Tokenizer = lexer.NewTokenizer(s)
		return rec
	}))
	if err == nil {
		n := len(rec.toks)
		for n > 1 && rec.toks[n-2].Type == token.EOFType {
			n--
		}
		if err := checkTokens(rec.toks[:n], src); err != nil {
			c.Fail("tokens-differ", "as taken by the parser: %v", err)
			return
		}
		c.Ev("parsed-to-the-last-token")
		if rec.modes > 0 {
			c.Ev("parser-switched-raw-mode")
		}
	}
}

func entryPoints(c *core.Ctx, i int) {
	r := c.R
	src := genSource(c)
	c.Input(src)
	show := func(t ast.Node, err error) string {
		if err != nil {
			return "error: " + err.Error()
		}
		return astText(t)
	}
	want := show(parser.ParseString(src))
	if strings.HasPrefix(want, "error") {
		c.Ev("malformed")
	} else {
		c.Ev("parsed")
		c.NonTrivial()
	}
	rec := &recorder{}
	type way struct {
		name string
		run  func() (ast.Node, error)
	}
	ways := []way{
		{"ParseBytes", func() (ast.Node, error) { return parser.ParseBytes([]byte(src)) }},
		{"Parse", func() (ast.Node, error) { return parser.Parse(lexer.NewTokenizer(src)) }},
		{"Parse(unsafe)", func() (ast.Node, error) { return parser.Parse(lexer.NewTokenizer(src, lexer.WithUnsafe())) }},
		{"ParseTokenStream", func() (ast.Node, error) { return parser.ParseTokenStream(lexer.NewTokenizer(src)) }},
		{"ParseString", func() (ast.Node, error) { return parser.ParseString(src) }},
		{"ParseString(constructor)", func() (ast.Node, error) {
			return parser.ParseString(src, parser.WithTokenStreamConstructor(func(s string) parser.ConfigurableTokenStream {
				rec.Tokenizer = lexer.NewTokenizer(s)
				rec.toks = nil
				return rec
			}))
		}},
		{"ParseTokens(recorded)", func() (ast.Node, error) {
			rec.Tokenizer, rec.toks = lexer.NewTokenizer(src), nil
			_, _ = parser.Parse(rec)
			return parser.ParseTokens(rec.toks)
		}},
	}
	for n := r.Range(3, 8); n > 0; n-- {
		if r.P(25) { // something else in between
			other := genSource(c)
			_, _ = ways[r.Intn(2)].run()
			_, _ = parser.Parse(lexer.NewTokenizer(other))
			c.Ev("other-source-in-between")
		}
		w := core.Pick(r, ways)
		if got := show(w.run()); got != want {
			c.Fail("entry-points-differ", "%s gives %s\nParseString gives %s", w.name, clipS2([]byte(got)), clipS2([]byte(want)))
			return
		}
		c.Ev("way:" + w.name)
	}
	tree, err := parser.ParseString(src)
	if err != nil {
		for _, o := range [][]parser.ParseOption{{parser.WithOmitStream()}, {parser.WithUnescapedText()}, {parser.WithOmitStream(), parser.WithUnescapedText()}} {
			_, e2 := parser.ParseString(src, o...)
			if e2 == nil {
				c.Fail("options-differ", "with options the source is accepted, without: %v", err)
				return
			}
		}
		return
	}
	st, ok := tree.(*ast.StreamNode)
	if !ok {
		c.Fail("options-differ", "ParseString without options gives %s, not a stream", tree.Type())
		return
	}
	om, err := parser.ParseString(src, parser.WithOmitStream())
	wantOm := astText(st)
	if len(st.Documents()) == 1 {
		wantOm = astText(st.Documents()[0])
		c.Ev("omitted-stream")
	} else {
		c.Ev("kept-stream")
	}
	if err != nil || astText(om) != wantOm {
		c.Fail("options-differ", "WithOmitStream gives %s (%v), want %s", astText(om), err, wantOm)
		return
	}
	un, err := parser.ParseString(src, parser.WithUnescapedText())
	un2, err2 := parser.ParseString(src, parser.WithUnescapedText(), parser.WithOmitStream())
	if err != nil || err2 != nil {
		c.Ev("escape-refused")
		if !strings.Contains(src, "\\") {
			c.Fail("options-differ", "WithUnescapedText fails on a source without escapes: %v %v", err, err2)
		}
		return
	}
	us, ok := un.(*ast.StreamNode)
	if !ok {
		c.Fail("options-differ", "WithUnescapedText gives %s, not a stream", un.Type())
		return
	}
	if len(us.Documents()) == 1 && astText(us.Documents()[0]) != astText(un2) || len(us.Documents()) != 1 && astText(us) != astText(un2) {
		c.Fail("options-differ", "both options: %s, unescaped alone: %s", astText(un2), astText(us))
		return
	}
	if !strings.Contains(src, "\\") && !strings.Contains(src, "''") && astText(us) != astText(st) {
		c.Fail("options-differ", "without escapes in the source the unescaped tree is %s, the plain one %s", astText(us), astText(st))
	}
}

func init() {
	core.Register(&core.Prop{ID: "C23", Quick: 200000, Thorough: 6000000, Run: tokens,
		MinEvents: []string{"raw-mode-switched", "unsafe-tokenizer", "parsed-to-the-last-token", "parser-switched-raw-mode", "token:string", "token:directive", "token:byte-order-mark", "token:keep-chomping", "token:strip-chomping", "token:document-end"},
		Rule:      "presentations of random values, damaged ones, streams of several documents and token soup; every emitted token is matched against the source: texts concatenate to the source, each type has its own text, rows and columns are those of the text, the end of file comes once and stays; the same for the tokens an accepting parser takes, and with the raw mode switched at random; non-trivial: at least three tokens; distinct: by source"})
	core.Register(&core.Prop{ID: "C26", Quick: 120000, Thorough: 4000000, Run: entryPoints,
		MinEvents: []string{"malformed", "parsed", "other-source-in-between", "omitted-stream", "kept-stream", "way:ParseBytes", "way:Parse", "way:Parse(unsafe)", "way:ParseTokenStream", "way:ParseString(constructor)", "way:ParseTokens(recorded)"},
		Rule:      "sources as in C23 parsed through random entry points in random order with other sources parsed in between; oracle: one source has one tree or one error, whatever the entry point, option set and history; non-trivial: the source parses; distinct: by source"})
}
