package props

import (
	"errors"
	"fmt"
	"strings"
	"unicode/utf8"

	"gopkg.in/yaml.v3"

	"github.com/KSpaceer/yamly"
	"github.com/KSpaceer/yamly/engines/yayamls/lexer"
	"github.com/KSpaceer/yamly/engines/yayamls/parser"
	"github.com/KSpaceer/yamly/engines/yayamls/token"

	"verifharness/core"
)

var soup = []string{"- ", "? ", ": ", "-", "?", ":", ",", "[", "]", "{", "}", "#", " #", "&a", "*a", "&", "*", "!", "!!str", "!<x>", "|", ">", "|-", ">+2", "'", "\"", "\\", "%", "%YAML 1.2", "@", "`", "---", "...", "\n", "\n", "\n", "\n ", "\n  ", "\n    ", " ", "  ", "\t", "\r", "\r\n", "a", "key", "a: b", "- x", "<<", "null", "~", "1", "0x1", "true", "\ufeff", "\u0085", "é", "\x00", "\x1b", "\xff", "\xc3", "\xed\xa0\x80", "\"a\"", "'b'", "[a, b]", "{a: b}", "&b [*b]", "a: |\n  x\n y\n", "\\x4", "\"\\", "'''"}

// GenHostileSource makes arbitrary input bytes: token soup, mutated documents, truncated documents, raw bytes.
func GenHostileSource(r *core.Rand) ([]byte, string) {
	doc := func() []byte {
		o := GenOpts{TypedKeys: true, ComplexKeys: true, MaxWidth: 3}
		if r.Bool() {
			o.Str = GenTameString
		}
		v := GenRoot(r, o)
		p := NewPres(r, nil)
		return []byte(p.Document(&v))
	}
	switch r.Intn(10) {
	case 0, 1, 2:
		var sb strings.Builder
		n := r.Range(1, 25)
		for i := 0; i < n; i++ {
			sb.WriteString(core.Pick(r, soup))
		}
		return []byte(sb.String()), "token-soup"
	case 3:
		n := r.Intn(40)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(r.U64())
			if r.P(60) {
				b[i] &= 0x7f
			}
		}
		return b, "random-bytes"
	case 4:
		b := doc()
		return b[:r.Intn(len(b)+1)], "truncated"
	case 5:
		a, b := doc(), doc()
		i, j := r.Intn(len(a)+1), r.Intn(len(b)+1)
		return append(append([]byte{}, a[:i]...), b[j:]...), "spliced"
	case 6: // repeated opening/closing units
		u, cl := "", ""
		for k := r.Range(1, 3); k > 0; k-- {
			u += core.Pick(r, soup)
			cl += core.Pick(r, soup)
		}
		n := r.Range(2, 24)
		return []byte(strings.Repeat(u, n) + "x" + strings.Repeat(cl, r.Intn(n+1))), "repeated"
	default:
		b := doc()
		for k := r.Range(1, 6); k > 0; k-- {
			if len(b) == 0 {
				b = []byte("x")
			}
			i := r.Intn(len(b))
			switch r.Intn(6) {
			case 0:
				b[i] = byte(r.U64())
			case 1:
				b = append(b[:i:i], b[i+1:]...)
			case 2, 3:
				b = append(append(append([]byte{}, b[:i]...), core.Pick(r, soup)...), b[i:]...)
			case 4:
				j := i + r.Intn(min(12, len(b)-i)+1)
				b = append(append(append([]byte{}, b[:j]...), b[i:j]...), b[j:]...)
			case 5:
				b[i] = core.Pick(r, []byte(":-?[]{},#&*!|>'\"%@` \n\t\r"))
			}
		}
		return b, "mutated"
	}
}

// driver makes calls on a decoder the way generated code does and watches the contract of each call.
type driver struct {
	d     yamly.Decoder
	r     *core.Rand
	ops   int
	limit int
	bad   error
	calls map[string]int
}

func (w *driver) call(s string) { w.ops++; w.calls[s]++ }

// value reads one value of a random expected kind. Returns false when the walk has to stop.
func (w *driver) value(depth int) {
	if w.bad != nil || w.ops > w.limit {
		return
	}
	d, r := w.d, w.r
	pre := d.Error()
	switch r.Intn(14) {
	case 0:
		w.call("TryNull")
		null := d.TryNull()
		if pre == nil && errors.Is(d.Error(), yamly.ErrDenied) {
			w.bad = fmt.Errorf("TryNull stored a denial: %v", d.Error())
		}
		if !null {
			w.call("Skip")
			d.Skip()
		}
	case 1:
		w.call("Integer")
		d.Integer(64)
	case 2:
		w.call("Unsigned")
		d.Unsigned(64)
	case 3:
		w.call("Boolean")
		d.Boolean()
	case 4:
		w.call("Float")
		d.Float(64)
	case 5, 6:
		w.call("String")
		_ = d.String()
	case 7:
		w.call("Timestamp")
		d.Timestamp()
	case 8, 9:
		w.call("Sequence")
		st := d.Sequence()
		w.loop(st, depth, false)
	case 10, 11:
		w.call("Mapping")
		st := d.Mapping()
		w.loop(st, depth, true)
	case 12:
		switch r.Intn(3) {
		case 0:
			w.call("Any")
			d.Any()
		case 1:
			w.call("Raw")
			if b := d.Raw(); d.Error() != nil && b != nil {
				w.bad = fmt.Errorf("Raw returned data along with the error %v", d.Error())
			}
		case 2:
			w.call("Skip")
			d.Skip()
		}
	case 13:
		w.call("Skip")
		d.Skip()
	}
	if pre != nil && (d.Error() == nil || d.Error().Error() != pre.Error()) {
		w.bad = fmt.Errorf("stored error changed from %v to %v", pre, d.Error())
	}
}

func (w *driver) loop(st yamly.CollectionState, depth int, mapping bool) {
	if st == nil {
		w.bad = fmt.Errorf("nil collection state")
		return
	}
	size := st.Size()
	n := 0
	for st.HasUnprocessedItems() {
		n++
		if n > size {
			w.bad = fmt.Errorf("a loop over a collection of size %d makes iteration %d", size, n)
			return
		}
		if mapping {
			w.call("String")
			_ = w.d.String()
		}
		w.value(depth + 1)
		if w.bad != nil || w.ops > w.limit {
			return
		}
	}
	if w.d.Error() == nil && n != size {
		w.bad = fmt.Errorf("a loop over a collection of size %d made %d iterations without an error", size, n)
	}
}

// guided reads along the known shape, so that the walk gets deep; now and then it makes a wrong call.
// At the position of a key only typed calls and Any are made: in yayamls the subtree there is the whole entry.
func (w *driver) guided(s *shape, key bool) {
	if w.bad != nil || w.ops > w.limit {
		return
	}
	d, r := w.d, w.r
	if s.k != 'd' && !key && r.P(2) {
		w.value(0)
		return
	}
	if s.k != 'd' && r.P(20) {
		w.call("TryNull")
		null := d.TryNull()
		if null && s.k != 'n' && s.k != 'a' && s.k != 'd' {
			w.bad = fmt.Errorf("TryNull()=true on a node of kind %c", s.k)
		}
		if null {
			return
		}
	}
	switch s.k {
	case 'd':
		for _, x := range s.sub {
			w.guided(x, false)
		}
	case 's', 'm':
		var st yamly.CollectionState
		size := len(s.sub)
		if s.k == 's' {
			w.call("Sequence")
			st = d.Sequence()
		} else {
			w.call("Mapping")
			st = d.Mapping()
			size /= 2
		}
		if d.Error() == nil && st.Size() != size {
			w.bad = fmt.Errorf("Size()=%d of a collection with %d items", st.Size(), size)
			return
		}
		n := 0
		for st.HasUnprocessedItems() {
			if n >= size {
				w.bad = fmt.Errorf("a loop over a collection of size %d makes iteration %d", size, n+1)
				return
			}
			if s.k == 's' {
				w.guided(s.sub[n], false)
			} else {
				w.guided(s.sub[2*n], true)
				w.guided(s.sub[2*n+1], false)
			}
			if w.bad != nil || w.ops > w.limit {
				return
			}
			n++
		}
		if d.Error() == nil && n != size {
			w.bad = fmt.Errorf("a loop over a collection of size %d made %d iterations without an error", size, n)
		}
	case 'n':
		w.call("TryNull")
		if !d.TryNull() && d.Error() == nil {
			w.bad = fmt.Errorf("TryNull()=false on null")
		}
	case 'a':
		switch k := r.Intn(3); {
		case key || k == 0:
			w.call("Any")
			d.Any()
		case k == 1:
			w.call("Skip")
			d.Skip()
		default:
			w.call("Raw")
			d.Raw()
		}
	default:
		switch k := r.Intn(12); {
		case k == 0 && !key:
			w.call("Raw")
			d.Raw()
		case k == 1:
			w.call("Any")
			d.Any()
		default:
			w.call("String")
			_ = d.String()
		}
	}
}

func robust(c *core.Ctx, i int) {
	r := c.R
	src, kind := GenHostileSource(r)
	c.Input(fmt.Sprintf("%q", src))
	c.Ev("source:" + kind)
	if !utf8.Valid(src) {
		c.Ev("source-not-utf8")
	}
	// lexer: a finite token stream
	tk := lexer.NewTokenizer(string(src))
	n := 0
	for {
		t := tk.Next()
		if t.Type == token.EOFType {
			break
		}
		if n++; n > 2*len(src)+16 {
			c.Fail("no-termination", "the tokenizer made %d tokens of %d bytes", n, len(src))
			return
		}
	}
	c.EvN("tokens", int64(n))
	tree, err := parser.ParseString(string(src))
	if err != nil && tree != nil {
		c.Fail("both-results", "parser returned a tree along with the error %v", err)
		return
	}
	if err == nil && tree == nil {
		c.Fail("no-result", "parser returned neither a tree nor an error")
		return
	}
	for _, e := range Engines {
		var sh *shape
		if e.Name == YA.Name {
			if tree != nil {
				sh = shapeOfAST(tree)
			}
		} else {
			var n yaml.Node
			if yaml.Unmarshal(src, &n) == nil {
				sh = shapeOfNode(&n)
			}
		}
		rounds := 4
		for k := 0; k < rounds; k++ {
			keep := append([]byte{}, src...)
			d, err := e.NewDecoder(keep)
			if string(keep) != string(src) {
				c.Fail("input-changed", "%s changed its input to %q", e.Name, keep)
				return
			}
			if err != nil {
				if d != nil {
					c.Fail("both-results", "%s: decoder and error %v", e.Name, err)
				}
				c.Ev("rejected:" + e.Name)
				break
			}
			c.Ev("accepted:" + e.Name)
			c.NonTrivial()
			w := &driver{d: d, r: r, limit: 3000, calls: map[string]int{}}
			switch k {
			case 0: // the whole stream through Any
				d.Any()
				if err := d.Error(); err == nil {
					c.Ev("any-ok:" + e.Name)
				} else {
					c.Ev("any-error:" + e.Name)
				}
			case 3:
				w.guided(sh, false)
				if w.bad == nil && w.ops <= w.limit && d.Error() == nil {
					c.Ev("guided-walk-complete:" + e.Name)
					_ = d.String()
					if !errors.Is(d.Error(), yamly.ErrEndOfStream) {
						w.bad = fmt.Errorf("after the last node Error()=%v, not the end of stream", d.Error())
					}
				}
			default:
				for j := 0; j < 200 && d.Error() == nil; j++ {
					w.value(0)
				}
				if w.bad == nil && w.ops <= w.limit && d.Error() == nil && k == 2 {
					w.bad = fmt.Errorf("200 reads of the root never reached an error or the end of stream")
				}
			}
			for m, q := range w.calls {
				c.EvN("call:"+m, int64(q))
			}
			if w.bad != nil {
				c.Fail("contract", "%s: %v", e.Name, w.bad)
				return
			}
		}
	}
}

func init() {
	core.Register(&core.Prop{ID: "C05", Quick: 400000, Thorough: 12000000, Run: robust,
		MinEvents: []string{"source:token-soup", "source:random-bytes", "source:truncated", "source:spliced", "source:repeated", "source:mutated",
			"accepted:yayamls", "accepted:goyaml", "rejected:yayamls", "rejected:goyaml", "call:Sequence", "call:Mapping", "call:Skip", "any-ok:yayamls", "any-ok:goyaml", "guided-walk-complete:yayamls", "guided-walk-complete:goyaml"},
		Rule: "hostile byte sources (token soup, mutated, truncated and spliced documents, repeated nesting units, raw bytes incl. invalid UTF-8) pushed through lexer, parser and both decoders; each accepted source is read with Any and with random typed calls in generated-code style loops; monitored: panics, CPU and memory budgets, error xor result, loop iteration counts, sticky errors, input immutability; non-trivial: at least one engine accepted the source"})
}
