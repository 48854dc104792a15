package props

import (
	"errors"
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/KSpaceer/yamly"
	godec "github.com/KSpaceer/yamly/engines/goyaml/decode"
	yadec "github.com/KSpaceer/yamly/engines/yayamls/decode"
	"gopkg.in/yaml.v3"

	"verifharness/core"
)

// cursor is the reference model of a decoder over a known value: a stack of open collections.
type cursor struct {
	frames []frame
}

type frame struct {
	v      *V
	next   int // child to read next; in a mapping key and value count separately
	total  int
	state  yamly.CollectionState
	isRoot bool
}

func newCursor(v *V) *cursor {
	return &cursor{frames: []frame{{v: &V{K: KSeq, Seq: []V{*v}}, total: 1, isRoot: true}}}
}

func (f *frame) child(i int) *V {
	if f.v.K == KMap {
		if i%2 == 0 {
			return &f.v.Keys[i/2]
		}
		return &f.v.Seq[i/2]
	}
	return &f.v.Seq[i]
}

// settle leaves collections which were read completely; nil means the end of the stream.
func (cu *cursor) settle() (cur *V, atKey bool) {
	for len(cu.frames) > 0 {
		f := &cu.frames[len(cu.frames)-1]
		if f.next < f.total {
			return f.child(f.next), f.v.K == KMap && f.next%2 == 0
		}
		cu.frames = cu.frames[:len(cu.frames)-1]
	}
	return nil, false
}

func (cu *cursor) advance() { cu.frames[len(cu.frames)-1].next++ }

func (cu *cursor) enter(v *V, st yamly.CollectionState) {
	cu.advance()
	n := len(v.Seq)
	if v.K == KMap {
		n *= 2
	}
	cu.frames = append(cu.frames, frame{v: v, total: n, state: st})
}

// checkStates: the innermost open collection tells exactly whether there is an item left (between items).
func (cu *cursor) checkStates(seen []seenState) error {
	for _, s := range seen {
		if s.st.Size() != s.size {
			return fmt.Errorf("Size() of a collection of %d items changed to %d", s.size, s.st.Size())
		}
	}
	if len(cu.frames) == 0 {
		return nil
	}
	f := &cu.frames[len(cu.frames)-1]
	if f.state == nil || f.v.K == KMap && f.next%2 == 1 {
		return nil
	}
	if got, want := f.state.HasUnprocessedItems(), f.next < f.total; got != want {
		return fmt.Errorf("HasUnprocessedItems()=%v after %d of %d items", got, f.next, f.total)
	}
	return nil
}

type seenState struct {
	st   yamly.CollectionState
	size int
}

// anyAccept: got is a Go value that denotes v. Only string keys are supported.
func anyAccept(got any, v V, path string) error {
	bad := func(f string, a ...any) error { return &mismatch{path, fmt.Sprintf(f, a...)} }
	switch v.K {
	case KNull:
		if got != nil {
			return bad("%T %v want nil", got, got)
		}
	case KBool:
		if got != any(v.B) {
			return bad("%T %v want %v", got, got, v)
		}
	case KInt:
		switch g := got.(type) {
		case int64:
			if g == v.I {
				return nil
			}
		case uint64:
			if v.I >= 0 && g == uint64(v.I) {
				return nil
			}
		}
		return bad("%T %v want %v", got, got, v)
	case KUint:
		switch g := got.(type) {
		case int64:
			if g >= 0 && uint64(g) == v.U {
				return nil
			}
		case uint64:
			if g == v.U {
				return nil
			}
		}
		return bad("%T %v want %v", got, got, v)
	case KFloat:
		switch g := got.(type) {
		case float64:
			if floatSame(g, v.F) {
				return nil
			}
		case int64:
			if float64(g) == v.F {
				return nil
			}
		case uint64:
			if float64(g) == v.F {
				return nil
			}
		}
		return bad("%T %v want %v", got, got, v)
	case KTime:
		g, ok := got.(time.Time)
		if !ok || !sameScalar(g, v.T) {
			return bad("%T %v want %v", got, got, v)
		}
	case KStr:
		// the value of a text is decided by the text
		if n, ok := refInt(v.S); ok {
			switch g := got.(type) {
			case int64:
				if n.IsInt64() && n.Int64() == g {
					return nil
				}
			case uint64:
				if n.IsUint64() && n.Uint64() == g {
					return nil
				}
			case string:
				if g == v.S {
					return nil
				}
			}
			return bad("%T %v want the value of the text %q", got, got, v.S)
		}
		switch g := got.(type) {
		case string:
			if g == v.S {
				return nil
			}
		case bool:
			if b, ok := refBool(v.S); ok && b == g {
				return nil
			}
		case float64:
			if t, sp, k := refFloat(v.S); k == 2 && floatSame(sp, g) {
				return nil
			} else if k == 1 {
				if f, _, known := nearest(t, 64); !known || floatSame(f, g) {
					return nil
				}
			}
		case time.Time:
			if t, err := parseTimeRef(v.S); err == nil && t.Equal(g) {
				return nil
			}
			if strings.Count(v.S, "-") >= 2 && len(v.S) >= 8 && v.S[0] >= '0' && v.S[0] <= '9' {
				return nil // some form of a timestamp
			}
		}
		return bad("%T %v want %q", got, got, v.S)
	case KSeq:
		g, ok := got.([]any)
		if !ok || len(g) != len(v.Seq) {
			return bad("%T of %v want a list of %d", got, got, len(v.Seq))
		}
		for i := range g {
			if err := anyAccept(g[i], v.Seq[i], fmt.Sprintf("%s[%d]", path, i)); err != nil {
				return err
			}
		}
	case KMap:
		g, ok := got.(map[string]any)
		if !ok || len(g) != len(v.Keys) {
			return bad("%T of %v want a map of %d", got, got, len(v.Keys))
		}
		for i, k := range v.Keys {
			x, ok := g[k.S]
			if !ok {
				return bad("no key %q", k.S)
			}
			if err := anyAccept(x, v.Seq[i], path+"."+k.S); err != nil {
				return err
			}
		}
	}
	return nil
}

// anyable: all keys are unique strings other than the merge key, and no text is beyond what a number can hold.
func anyable(v V) bool {
	seen := map[string]bool{}
	for _, k := range v.Keys {
		if k.K != KStr || k.S == "<<" || seen[k.S] {
			return false
		}
		seen[k.S] = true
	}
	if v.K == KFloat && math.Abs(v.F) >= 1<<63 {
		return false // may be written as an integer
	}
	if v.K == KStr {
		if n, ok := refInt(v.S); ok && !n.IsInt64() && !n.IsUint64() {
			return false
		}
		if t, _, k := refFloat(v.S); k == 1 {
			if _, over, known := nearest(t, 64); over || !known {
				return false
			}
		}
		// a text that almost is a timestamp
		if strings.Count(v.S, "-") >= 2 && len(v.S) >= 8 && v.S[0] >= '0' && v.S[0] <= '9' {
			if _, err := parseTimeRef(v.S); err != nil {
				return false
			}
		}
	}
	for _, e := range v.Seq {
		if !anyable(e) {
			return false
		}
	}
	return true
}

// foreignRaw: the yaml.v3 emitter is known to write the value faithfully in all styles.
func foreignRaw(v V) bool {
	if v.K == KNull || v.K == KStr && (strings.Contains(v.S, "\n") || strings.ContainsAny(v.S[:min(1, len(v.S))], " \t\r")) {
		return false
	}
	for _, e := range v.Keys {
		if !foreignRaw(e) {
			return false
		}
	}
	for _, e := range v.Seq {
		if e.K != KNull && !foreignRaw(e) {
			return false
		}
	}
	return true
}

// tame: a string no other scalar type can take for its own.
func tame(s string) bool {
	if s == "" {
		return false
	}
	for _, c := range s {
		if !(c >= 'g' && c <= 'z' || c == ' ') {
			return false
		}
	}
	switch s {
	case "null", "true", "nil", "on", "no", "yes", "n", "y":
		return false
	}
	return true
}

func genHistStr(r *core.Rand) string {
	if r.P(70) {
		return core.Pick(r, []string{"point", "root", "omit", "z", "loop on", "sort", "history"}) + strings.Repeat("x", r.Intn(3))
	}
	return GenString(r)
}

var errCustom1 = errors.New("custom error one")
var errCustom2 = fmt.Errorf("custom error two: %w", errors.New("inner"))

// reader is a decoder whose Node call is available: it returns a decoder over the node.
type reader struct {
	yamly.Decoder
	node func() yamly.Decoder
}

func openReader(e Engine, src []byte, multi bool) (*reader, error) {
	if e.Name == YA.Name {
		var opts []yadec.ReaderOption
		if multi {
			opts = append(opts, yadec.WithMultipleDenyErrors())
		}
		rd, err := yadec.NewASTReaderFromBytes(src, opts...)
		if err != nil {
			return nil, err
		}
		return &reader{rd, func() yamly.Decoder {
			if n := rd.Node(); n != nil {
				return yadec.NewASTReader(n)
			}
			return nil
		}}, nil
	}
	var n yaml.Node
	if err := yaml.Unmarshal(src, &n); err != nil {
		return nil, err
	}
	var opts []godec.ReaderOption
	if multi {
		opts = append(opts, godec.WithMultipleDenyErrors())
	}
	rd := godec.NewASTReader(&n, opts...)
	return &reader{rd, func() yamly.Decoder {
		if n := rd.Node(); n != nil {
			return godec.NewASTReader(n)
		}
		return nil
	}}, nil
}

type histOpts struct {
	multi     bool
	subtree   bool // favour calls which take whole subtrees
	aliases   bool // the document has aliases
	comments  bool // the document has comments
	clean     bool // no wrong calls
	emptyFlow bool // the document has nulls of flow collections written as nothing
}

// outcome of a call according to the model
const (
	outOK = iota
	outDeny
	outFatal
)

// history runs a random call history on the decoder of src (which denotes v) and compares every outcome with the model.
func history(c *core.Ctx, e Engine, src []byte, v *V, o histOpts) bool {
	r := c.R
	d, err := openReader(e, src, o.multi)
	if err != nil {
		c.Fail("rejected", "%s: %v", e.Name, err)
		return false
	}
	cu := newCursor(v)
	var log []string
	var states []seenState
	var fatal error // what the stored error has to be, once fatal
	var fatalSet bool
	denials := 0
	peeked := false
	lastErr := ""
	fail := func(sig, f string, a ...any) bool {
		c.Fail(sig, "%s (multi=%v): %s\n--- calls ---\n%s\n--- value ---\n%v", e.Name, o.multi, fmt.Sprintf(f, a...), strings.Join(log, "\n"), *v)
		return false
	}
	steps := 3*v.Count() + 12
	if steps > 400 {
		steps = 400
	}
	extra := r.Intn(8)
	for step := 0; step < steps; step++ {
		cur, atKey := cu.settle()
		if cur == nil || fatalSet {
			if extra == 0 {
				break
			}
			extra--
		}
		if fatalSet {
			for _, s := range states {
				if s.st.HasUnprocessedItems() {
					return fail("loop-after-error", "a collection still has unprocessed items after the error %v", fatal)
				}
			}
		} else if peeked {
			// an item which was looked at counts as taken from the collection
		} else if err := cu.checkStates(states); err != nil {
			return fail("wrong-state", "%v", err)
		}
		k := Kind(-1)
		if cur != nil {
			k = cur.K
		}
		// choose a call with a determined outcome
		out := outOK
		var name string
		var call func() any
		var judge func(got any) error // for outOK
		var after func(got any)
		zero := any(nil)
		eq := func(want any) func(any) error {
			return func(got any) error {
				if !sameScalar(got, want) {
					return fmt.Errorf("%v want %v", got, want)
				}
				return nil
			}
		}
		adv := func(any) { cu.advance() }
		right := r.P(72) || o.clean
		if o.subtree && !atKey && r.P(45) {
			right = false
		}
		pick := r.Intn(13)
		if right && cur != nil {
			pick = map[Kind]int{KNull: 0, KBool: 1, KInt: 2, KUint: 3, KFloat: 4, KStr: 5, KTime: 6, KSeq: 7, KMap: 8}[k]
		} else if o.subtree && !atKey {
			pick = 9 + r.Intn(4)
		} else if o.clean {
			break
		}
		det := true
		switch pick {
		case 0:
			name, call, zero = "TryNull", func() any { return d.TryNull() }, false
			judge, after = eq(k == KNull), func(any) {
				if k == KNull {
					cu.advance()
				}
			}
		case 1:
			name, call, zero = "Boolean", func() any { return d.Boolean() }, false
			switch {
			case k == KBool:
				judge, after = eq(cur.B), adv
			case k == KStr && !tame(cur.S):
				det = false
			default:
				out = outDeny
			}
		case 2:
			bits := core.Pick(r, []int{8, 16, 32, 64})
			name, call, zero = fmt.Sprintf("Integer(%d)", bits), func() any { return d.Integer(bits) }, int64(0)
			switch {
			case k == KInt && (bits == 64 || cur.I >= -(1<<(bits-1)) && cur.I < 1<<(bits-1)):
				judge, after = eq(cur.I), adv
			case k == KInt:
				out = outFatal
				det = !o.multi
			case k == KUint || k == KFloat || k == KStr && !tame(cur.S):
				det = false
			default:
				out = outDeny
			}
		case 3:
			bits := core.Pick(r, []int{8, 16, 32, 64})
			name, call, zero = fmt.Sprintf("Unsigned(%d)", bits), func() any { return d.Unsigned(bits) }, uint64(0)
			switch {
			case k == KUint && (bits == 64 || cur.U < 1<<bits):
				judge, after = eq(cur.U), adv
			case k == KUint:
				out = outFatal
				det = !o.multi
			case k == KInt && cur.I >= 0 || k == KFloat || k == KStr && !tame(cur.S):
				det = false
			default:
				out = outDeny
			}
		case 4:
			name, call, zero = "Float(64)", func() any { return d.Float(64) }, 0.0
			switch {
			case k == KFloat:
				judge, after = eq(cur.F), adv
			case k == KInt || k == KUint || k == KStr && !tame(cur.S):
				det = false
			default:
				out = outDeny
			}
		case 5:
			name, call, zero = "String", func() any { return d.String() }, ""
			switch k {
			case KStr:
				judge, after = eq(cur.S), adv
			case KNull, KSeq, KMap:
				out = outDeny
			default: // some spelling of the value
				judge, after = func(got any) error {
					if got == "" {
						return fmt.Errorf("an empty text")
					}
					return nil
				}, adv
			}
		case 6:
			name, call, zero = "Timestamp", func() any { return d.Timestamp() }, time.Time{}
			switch {
			case k == KTime:
				judge, after = eq(cur.T), adv
			case k == KStr && !tame(cur.S):
				det = false
			default:
				out = outDeny
			}
		case 7, 8:
			kind := map[int]Kind{7: KSeq, 8: KMap}[pick]
			if kind == KSeq {
				name, call = "Sequence", func() any { return d.Sequence() }
			} else {
				name, call = "Mapping", func() any { return d.Mapping() }
			}
			if k != kind {
				out = outDeny
			} else {
				judge = func(got any) error {
					st, ok := got.(yamly.CollectionState)
					if !ok || st == nil {
						return fmt.Errorf("no collection state")
					}
					if st.Size() != len(cur.Seq) {
						return fmt.Errorf("size %d want %d", st.Size(), len(cur.Seq))
					}
					return nil
				}
				after = func(got any) {
					st := got.(yamly.CollectionState)
					states = append(states, seenState{st, len(cur.Seq)})
					cu.enter(cur, st)
				}
			}
		case 9:
			name, call = "Any", func() any { return d.Any() }
			if cur == nil {
				break
			}
			if !anyable(*cur) {
				det = false
			}
			judge, after = func(got any) error { return anyAccept(got, *cur, "$") }, adv
		case 10:
			name, call = "Raw", func() any { return d.Raw() }
			if atKey {
				det = false
				break
			}
			judge, after = func(got any) error {
				b := got.([]byte)
				back := Engines
				if e.Name == GO.Name {
					// yaml.v3 writes comments to places where they break the document, nothing for an empty null,
					// and does not keep all line breaks of block scalars
					if o.comments || o.emptyFlow || !foreignRaw(*cur) {
						return nil
					}
					back = Engines[1:]
				}
				for _, e2 := range back {
					if err := ReadAll(e2, b, *cur, nil); err != nil {
						return fmt.Errorf("bytes %q read by %s: %w", b, e2.Name, err)
					}
				}
				return nil
			}, adv
		case 11:
			name, call = "Skip", func() any { d.Skip(); return nil }
			if atKey {
				det = false
				break
			}
			judge, after = func(any) error { return nil }, adv
		case 12:
			name, call = "Node", func() any { return d.node() }
			if atKey {
				det = false
				break
			}
			judge, after = func(got any) error {
				sub, ok := got.(yamly.Decoder)
				if !ok || sub == nil {
					return fmt.Errorf("no node")
				}
				if o.aliases && e.Name == YA.Name {
					return nil // aliases may lead out of the subtree
				}
				return ReadExpect(sub, *cur, nil, "$")
			}, adv
		}
		if r.P(2) && step > 0 && !o.clean {
			name = "AddError"
		}
		if name != "AddError" && !fatalSet && (!det || out != outOK && o.clean) {
			continue
		}
		if name == "AddError" {
			add := core.Pick(r, []error{errCustom1, errCustom2, nil, yamly.DenyError(errCustom1), &yamly.UnknownFieldError{Field: "f"}})
			log = append(log, fmt.Sprintf("AddError(%v)", add))
			c.Ev("call:AddError")
			d.AddError(add)
			if add != nil && !fatalSet {
				fatal, fatalSet = add, true
				c.Ev("first-error:custom")
			} else if add != nil {
				c.Ev("later-error-ignored")
			}
			if err := d.Error(); fatalSet && (err == nil || !errors.Is(err, fatal) || !strings.Contains(err.Error(), fatal.Error())) {
				return fail("error-lost", "the stored error is %v, want %v", err, fatal)
			} else if !fatalSet && denials == 0 && err != nil {
				return fail("error-invented", "error %v after AddError(nil)", err)
			} else if err != nil && add != nil && fatal != add && strings.Count(err.Error(), add.Error()) > strings.Count(lastErr, add.Error()) {
				return fail("error-replaced", "the later error %v shows up: %v", add, err)
			}
			if err := d.Error(); err != nil {
				if !strings.Contains(err.Error(), lastErr) {
					return fail("denial-lost", "AddError(%v) hides what was collected: %v, was %s", add, err, lastErr)
				}
				lastErr = err.Error()
			}
			continue
		}
		log = append(log, name)
		c.Ev("call:" + strings.TrimRight(name, "(0123456789)"))
		got := call()
		err := d.Error()
		if fatalSet {
			if err == nil || err.Error() != lastErr || !errors.Is(err, fatal) {
				return fail("error-changed", "%s after an error: the stored error is %v, was %s", name, err, lastErr)
			}
			if !zeroOutcome(got, zero) {
				return fail("value-after-error", "%s = %v after the error %v", name, got, err)
			}
			c.Ev("call-after-error")
			continue
		}
		if cur == nil { // the end of the stream
			if !errors.Is(err, yamly.ErrEndOfStream) {
				return fail("no-end", "%s at the end of the stream: %v, error %v", name, got, err)
			}
			if denials == 0 && errors.Is(err, yamly.ErrDenied) {
				return fail("wrong-class", "%s at the end of the stream is a denial: %v", name, err)
			}
			if !zeroOutcome(got, zero) {
				return fail("value-after-error", "%s = %v at the end of the stream", name, got)
			}
			if denials > 0 && !strings.Contains(err.Error(), lastErr) {
				return fail("denial-lost", "the end of the stream hides %d denials: %v, was %s", denials, err, lastErr)
			}
			fatal, fatalSet, lastErr = yamly.ErrEndOfStream, true, err.Error()
			c.Ev("first-error:end-of-stream")
			continue
		}
		switch out {
		case outOK:
			if denials == 0 && err != nil || denials > 0 && (err == nil || err.Error() != lastErr) {
				return fail("wrong-error", "%s on %v: error %v, was %q", name, *cur, err, lastErr)
			}
			if err := judge(got); err != nil {
				return fail("wrong-value", "%s on %v: %v", name, *cur, err)
			}
			peeked = name == "TryNull" && k != KNull
			after(got)
			if denials > 0 {
				c.Ev("read-after-denial")
			}
			if name == "Any" || name == "Raw" || name == "Skip" || name == "Node" {
				if k == KSeq || k == KMap {
					c.Ev("subtree-taken:" + name)
				}
			}
		case outDeny:
			if !errors.Is(err, yamly.ErrDenied) || errors.Is(err, yamly.ErrEndOfStream) {
				return fail("not-denied", "%s on %v = %v, error %v", name, *cur, got, err)
			}
			if !zeroOutcome(got, zero) {
				return fail("value-with-denial", "%s = %v on %v along with the denial", name, got, *cur)
			}
			if o.multi {
				denials++
				peeked = true
				if len(err.Error()) <= len(lastErr) || !strings.Contains(err.Error(), lastErr) {
					return fail("denial-lost", "after denial %d: %v, was %s", denials, err, lastErr)
				}
				lastErr = err.Error()
				c.Ev("denial-collected")
			} else {
				fatal, fatalSet, lastErr = yamly.ErrDenied, true, err.Error()
				c.Ev("first-error:denied")
			}
		case outFatal:
			if err == nil {
				return fail("out-of-range", "%s on %v = %v without an error", name, *cur, got)
			}
			if !zeroOutcome(got, zero) {
				return fail("value-after-error", "%s = %v on %v along with the error %v", name, got, *cur, err)
			}
			if denials > 0 && !strings.Contains(err.Error(), lastErr) {
				return fail("denial-lost", "the error hides %d denials: %v, was %s", denials, err, lastErr)
			}
			fatal, fatalSet, lastErr = err, true, err.Error()
			var base error = err
			if u, ok := err.(interface{ Unwrap() []error }); ok && len(u.Unwrap()) == 1 {
				base = u.Unwrap()[0]
			}
			fatal = base
			c.Ev("first-error:out-of-range")
		}
	}
	if cur, _ := cu.settle(); cur == nil {
		c.Ev("document-completed")
	}
	return true
}

func zeroOutcome(got, zero any) bool {
	switch g := got.(type) {
	case nil:
		return true
	case []byte:
		return g == nil
	case yamly.Decoder:
		return false
	case yamly.CollectionState:
		return g != nil && g.Size() == 0 && !g.HasUnprocessedItems()
	case bool, int64, uint64, float64, string, time.Time:
		return sameScalar(got, zero)
	}
	return false
}

func histDoc(c *core.Ctx, o GenOpts, h *histOpts) (V, []byte, bool) {
	r := c.R
	v := GenRoot(r, o)
	p := NewPres(r, nil)
	p.NoAlias = !h.aliases
	p.NoComments = !h.comments
	src := p.Document(&v)
	h.emptyFlow = p.EmptyFlow
	c.Input(src)
	if err := v3Agrees(src, v); err != nil {
		c.Ev("not-judged(yaml.v3 disagrees with the model)")
		return v, nil, false
	}
	return v, []byte(src), true
}

func errorContract(c *core.Ctx, i int) {
	r := c.R
	o := GenOpts{Str: genHistStr, TypedKeys: true, ComplexKeys: true, MaxWidth: 4}
	h := histOpts{multi: r.P(40), aliases: r.P(20), comments: r.Bool()}
	v, src, ok := histDoc(c, o, &h)
	if !ok {
		return
	}
	c.NonTrivial()
	if h.multi {
		c.Ev("mode:multiple-denials")
	} else {
		c.Ev("mode:single-error")
	}
	for _, e := range Engines {
		vv := v
		if !history(c, e, src, &vv, h) {
			return
		}
	}
}

func subtrees(c *core.Ctx, i int) {
	r := c.R
	o := GenOpts{Str: genHistStr, MaxWidth: 4}
	if r.P(40) {
		o.TypedKeys, o.ComplexKeys = true, true
	}
	h := histOpts{subtree: true, clean: true, aliases: r.P(50), comments: r.P(30)}
	v, src, ok := histDoc(c, o, &h)
	if !ok {
		return
	}
	c.NonTrivial()
	for _, e := range Engines {
		vv := v
		if !history(c, e, src, &vv, h) {
			return
		}
	}
}

func init() {
	core.Register(&core.Prop{ID: "C08", Quick: 150000, Thorough: 4000000, Run: errorContract,
		MinEvents: []string{"first-error:denied", "first-error:end-of-stream", "first-error:custom", "first-error:out-of-range", "later-error-ignored", "call-after-error", "denial-collected", "read-after-denial", "document-completed", "mode:multiple-denials"},
		Rule:      "random documents with random call histories (right and wrong typed calls, probes, subtree calls, custom errors, calls past the end and past an error; single-error and multiple-denial mode) on both engines; a cursor model gives the outcome of every call: value, denial, end of stream, sticky first error, zero values, loop states; non-trivial: yaml.v3 confirms the document; distinct: by document"})
	core.Register(&core.Prop{ID: "C10", Quick: 150000, Thorough: 4000000, Run: subtrees,
		MinEvents: []string{"subtree-taken:Any", "subtree-taken:Raw", "subtree-taken:Skip", "subtree-taken:Node", "document-completed"},
		Rule:      "random documents (with and without aliases) read with a mix of typed calls and calls that take a whole subtree (Any, Raw, Skip, Node) at elements, values and roots; the model cursor demands the exact content of the subtree (raw bytes are read back by both engines) and that reading continues right behind it; distinct: by document"})
}
