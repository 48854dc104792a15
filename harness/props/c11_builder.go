package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/KSpaceer/yamly"
	goenc "github.com/KSpaceer/yamly/engines/goyaml/encode"
	yaenc "github.com/KSpaceer/yamly/engines/yayamls/encode"
	"github.com/KSpaceer/yamly/engines/yayamls/parser"

	"verifharness/core"
)

// builder is an engine's builder with its tree type hidden.
type builder struct {
	yamly.Inserter
	result func() (func() ([]byte, error), error) // Result; the returned function writes the tree
}

func newBuilder(e Engine) builder {
	switch e.Name {
	case YA.Name, YAUnquoted.Name:
		var opts []yaenc.ASTBuilderOption
		if e.Name == YAUnquoted.Name {
			opts = append(opts, yaenc.WithUnquotedOneLineStrings())
		}
		b := yaenc.NewASTBuilder(opts...)
		return builder{b, func() (func() ([]byte, error), error) {
			t, err := b.Result()
			if err != nil {
				if t != nil {
					return nil, errResultWithError
				}
				return nil, err
			}
			return func() ([]byte, error) { return yaenc.NewASTWriter().WriteBytes(t) }, nil
		}}
	default:
		var opts []goenc.ASTBuilderOption
		if e.Name == GOUnquoted.Name {
			opts = append(opts, goenc.WithUnquotedOneLineStrings())
		}
		b := goenc.NewASTBuilder(opts...)
		return builder{b, func() (func() ([]byte, error), error) {
			t, err := b.Result()
			if err != nil {
				if t != nil {
					return nil, errResultWithError
				}
				return nil, err
			}
			return func() ([]byte, error) { return (&goenc.ASTWriter{}).WriteBytes(t) }, nil
		}}
	}
}

var errResultWithError = errors.New("a tree was returned along with an error")

// bModel is the automaton of a builder.
type bModel struct {
	stack []*V // open collections
	root  *V
	done  bool
	err   error // first error: a user's error or errMisuse
}

var errMisuse = errors.New("misuse")

// pendingKey: the innermost collection is a mapping whose last entry has no value yet.
func (m *bModel) pendingKey() bool {
	if len(m.stack) == 0 {
		return false
	}
	t := m.stack[len(m.stack)-1]
	return t.K == KMap && len(t.Keys) > len(t.Seq)
}

func (m *bModel) insert(v V, open bool) {
	if m.err != nil {
		return
	}
	if len(m.stack) == 0 {
		if m.root != nil {
			m.err = errMisuse
			return
		}
		m.root = &v
		if open {
			m.stack = append(m.stack, &v)
		}
		return
	}
	t := m.stack[len(m.stack)-1]
	var at *V
	if t.K == KMap && len(t.Keys) == len(t.Seq) {
		t.Keys = append(t.Keys, v)
		at = &t.Keys[len(t.Keys)-1]
	} else {
		t.Seq = append(t.Seq, v)
		at = &t.Seq[len(t.Seq)-1]
	}
	if open {
		m.stack = append(m.stack, at)
	}
}

func (m *bModel) end(k Kind) {
	switch {
	case m.err != nil:
	case len(m.stack) == 0, m.stack[len(m.stack)-1].K != k, m.pendingKey():
		m.err = errMisuse
	default:
		m.stack = m.stack[:len(m.stack)-1]
	}
}

var rawBroken = []string{"[1, 2", "{a: 1", "\"abc", "'abc", "[1, 2}", "a: b: c", "[1]]", "- a\nb: c\n", "&a &b c", "\"\\q\""}
var rawMulti = []string{"a\n---\nb\n", "--- a\n--- b\n", "---\n- 1\n...\n---\n- 2\n"}

func builderProtocol(c *core.Ctx, i int) {
	r := c.R
	e := core.Pick(r, []Engine{YA, YAUnquoted, GO, GOUnquoted})
	b := newBuilder(e)
	var log strings.Builder
	o := GenOpts{TypedKeys: true, MaxDepth: 2, MaxWidth: 3, NoNaN: true}
	type kept struct {
		write func() ([]byte, error)
		want  V
	}
	var trees []kept
	defer func() { c.Input(e.Name + ": " + log.String()) }()
	rounds := r.Range(1, 4)
	wild := r.P(50) // misuse is frequent
	for round := 0; round < rounds; round++ {
		m := &bModel{}
		user := 0
		n := r.Range(1, 14)
		if r.P(10) {
			n = r.Range(15, 60)
		}
		if r.Intn(400) == 0 {
			n = r.Range(200, 3000)
			c.Ev("long-history")
		}
		if r.P(5) {
			n = 0
		}
		ins := func(v V) {
			log.WriteString("ins ")
			log.WriteString(clipS(v.String()))
			log.WriteString("; ")
			Insert(b, v)
			// a collection is inserted as its calls, but one model insertion is the same
			if v.K == KSeq || v.K == KMap {
				modelInsert(m, v)
			} else {
				m.insert(v, false)
			}
		}
		for k := 0; k < n; k++ {
			bad := wild && r.P(12)
			// keep the mapping keys distinct: duplicates are not valid YAML
			atKey := len(m.stack) > 0 && m.stack[len(m.stack)-1].K == KMap && !m.pendingKey()
			if atKey && !bad && r.P(70) {
				top := m.stack[len(m.stack)-1]
				ks := fmt.Sprintf("%s~%d", GenString(r), len(top.Keys))
				ins(Str(ks))
				continue
			}
			switch p := r.Intn(100); {
			case bad && r.P(30):
				log.WriteString("wrong-end; ")
				if r.Bool() {
					b.EndSequence()
					m.end(KSeq)
				} else {
					b.EndMapping()
					m.end(KMap)
				}
				c.Ev("call:arbitrary-end")
			case bad && r.P(40):
				err := fmt.Errorf("user error %d", user)
				user++
				log.WriteString("raw-error; ")
				var data []byte
				if r.Bool() {
					data = []byte("1")
				}
				if r.Bool() {
					b.InsertRaw(data, err)
				} else {
					b.InsertRawText(data, err)
				}
				if m.err == nil {
					m.err = err
				}
				c.Ev("call:raw-with-error")
			case bad && r.P(50):
				log.WriteString("raw-broken; ")
				src := core.Pick(r, rawBroken)
				if r.P(30) {
					src = core.Pick(r, rawMulti)
					c.Ev("call:raw-multi-doc")
				} else {
					c.Ev("call:raw-broken")
				}
				b.InsertRaw([]byte(src), nil)
				if m.err == nil {
					m.err = errMisuse
				}
			case bad && len(m.stack) == 0:
				ins(GenScalar(r, o))
			case len(m.stack) > 0 && p < 22 && !m.pendingKey():
				log.WriteString("end; ")
				if m.stack[len(m.stack)-1].K == KSeq {
					b.EndSequence()
					m.end(KSeq)
				} else {
					b.EndMapping()
					m.end(KMap)
				}
			case len(m.stack) == 0 && m.root != nil && !wild:
				// complete
			case atKey:
				ins(Str(fmt.Sprintf("k%d~%d", r.Intn(10), len(m.stack[len(m.stack)-1].Keys))))
			case p < 40:
				log.WriteString("seq; ")
				b.StartSequence()
				m.insert(V{K: KSeq}, true)
			case p < 55:
				log.WriteString("map; ")
				b.StartMapping()
				m.insert(V{K: KMap}, true)
			case p < 62:
				s := GenString(r)
				log.WriteString("rawtext; ")
				buf := []byte(s)
				b.InsertRawText(buf, nil)
				scribble(buf)
				m.insert(Str(s), false)
				c.Ev("call:raw-text")
			case p < 70:
				v := GenRoot(r, o)
				if v.K == KNull {
					v = Str("x")
				}
				sub := e.NewEncoder()
				Insert(sub, v)
				raw, err := sub.EncodeToBytes()
				if err != nil {
					c.Fail("encode-error", "%s: %v for %v", e.Name, err, v)
					return
				}
				log.WriteString("raw " + clipS(v.String()) + "; ")
				b.InsertRaw(raw, nil)
				scribble(raw)
				m.insert(v, false)
				c.Ev("call:raw")
			default:
				ins(GenValue(r, o, r.Intn(2)))
			}
		}
		// close what is open, most of the time
		if m.err == nil && r.P(85) {
			for len(m.stack) > 0 && m.err == nil {
				if m.pendingKey() {
					ins(GenScalar(r, o))
					continue
				}
				log.WriteString("end; ")
				if m.stack[len(m.stack)-1].K == KSeq {
					b.EndSequence()
					m.end(KSeq)
				} else {
					b.EndMapping()
					m.end(KMap)
				}
			}
		}
		log.WriteString("RESULT; ")
		write, err := b.result()
		if err == errResultWithError {
			c.Fail("tree-with-error", "%s round %d: Result returned a tree along with an error", e.Name, round)
			return
		}
		switch {
		case m.err == nil && (len(m.stack) > 0 || m.root == nil):
			if err == nil {
				c.Fail("unfinished-accepted", "%s round %d: Result of an unfinished or empty tree has no error", e.Name, round)
				return
			}
			c.Ev("result:unfinished-reported")
		case m.err != nil:
			if err == nil {
				c.Fail("misuse-accepted", "%s round %d: Result has no error, expected %v", e.Name, round, m.err)
				return
			}
			if m.err != errMisuse {
				if !errors.Is(err, m.err) {
					c.Fail("wrong-error", "%s round %d: Result error %v, expected the first error: %v", e.Name, round, err, m.err)
					return
				}
				c.Ev("result:user-error-kept")
			} else {
				if strings.Contains(err.Error(), "user error") {
					c.Fail("wrong-error", "%s round %d: Result error %v, but another error came first", e.Name, round, err)
					return
				}
				c.Ev("result:misuse-reported")
			}
		default:
			if err != nil {
				c.Fail("refused", "%s round %d: Result error %v for a well-formed tree %v", e.Name, round, err, m.root)
				return
			}
			c.Ev("result:tree")
			trees = append(trees, kept{write, *m.root})
		}
	}
	// the trees are written after the builder was used for others
	for k, t := range trees {
		src, err := t.write()
		if err != nil {
			c.Fail("write-error", "%s tree %d: %v", e.Name, k, err)
			return
		}
		if err := ReadAll(e, src, t.want, nil); err != nil {
			c.Fail("tree-differs", "%s tree %d: %v\n--- emitted ---\n%s", e.Name, k, err, src)
			return
		}
		c.Ev("trees-read-back")
		c.NonTrivial()
	}
	if len(trees) > 1 {
		c.Ev("builder-reused")
	}
}

func modelInsert(m *bModel, v V) {
	switch v.K {
	case KSeq:
		m.insert(V{K: KSeq}, true)
		for _, x := range v.Seq {
			modelInsert(m, x)
		}
		m.end(KSeq)
	case KMap:
		m.insert(V{K: KMap}, true)
		for i := range v.Keys {
			modelInsert(m, v.Keys[i])
			modelInsert(m, v.Seq[i])
		}
		m.end(KMap)
	default:
		m.insert(v, false)
	}
}

func scribble(b []byte) {
	for i := range b {
		b[i] = '#'
	}
}

func clipS(s string) string {
	if len(s) > 60 {
		return s[:60] + "…"
	}
	return s
}

// limitedWriter fails (or writes short) once its limit is reached.
type limitedWriter struct {
	left  int
	short bool
	got   bytes.Buffer
	calls int
	err   error
}

func (w *limitedWriter) Write(p []byte) (int, error) {
	w.calls++
	if len(p) <= w.left {
		w.left -= len(p)
		w.got.Write(p)
		return len(p), nil
	}
	n := w.left
	w.got.Write(p[:n])
	w.left = 0
	if w.short {
		return n, nil
	}
	return n, w.err
}

// plainWriter hides the other interfaces of a buffer.
type plainWriter struct{ w io.Writer }

func (p plainWriter) Write(b []byte) (int, error) { return p.w.Write(b) }

// treeWriter has the tree type of the engine hidden.
type treeWriter struct {
	ref   []byte
	str   func() (string, error)
	bytes func() ([]byte, error)
	to    func(io.Writer) error
}

func sinks(c *core.Ctx, i int) {
	r := c.R
	e := core.Pick(r, []Engine{YA, YA, YAUnquoted, GO})
	isYA := e.Name != GO.Name
	o := GenOpts{TypedKeys: true, ComplexKeys: true, MaxDepth: 3}
	n := r.Range(1, 3)
	var vals []V
	for k := 0; k < n; k++ {
		v := GenRoot(r, o)
		if r.P(3) { // larger than the buffers of the library
			v = V{K: KSeq}
			for v.Count() < 2000 {
				v.Seq = append(v.Seq, GenRoot(r, o))
			}
			c.Ev("large-document")
		}
		vals = append(vals, v)
	}
	c.Input(e.Name + ": " + vals[0].String())
	if vals[0].Count() > 1 {
		c.NonTrivial()
	}
	// reference outputs, each from a fresh encoder
	ref := make([][]byte, n)
	for k, v := range vals {
		enc := e.NewEncoder()
		Insert(enc, v)
		b, err := enc.EncodeToBytes()
		if err != nil {
			c.Fail("encode-error", "%s: %v for %v", e.Name, err, v)
			return
		}
		ref[k] = b
	}
	same := func(sig, how string, k int, got []byte) bool {
		if !bytes.Equal(got, ref[k]) {
			c.Fail(sig, "%s: %s of document %d differs from EncodeToBytes of a fresh encoder\n got %q\nwant %q", e.Name, how, k, clipS2(got), clipS2(ref[k]))
			return false
		}
		return true
	}
	// one encoder for everything, through random sinks, with failures in between
	enc := e.NewEncoder()
	var returned [][]byte
	var which []int
	steps := r.Range(3, 8)
	if r.Intn(100) == 0 {
		steps = r.Range(20, 200)
	}
	for s := 0; s < steps; s++ {
		k := r.Intn(n)
		Insert(enc, vals[k])
		switch x := r.Intn(7); x {
		case 0:
			got, err := enc.EncodeToString()
			if err != nil {
				c.Fail("encode-error", "%s: EncodeToString: %v", e.Name, err)
				return
			}
			if !same("sink-differs", "EncodeToString", k, []byte(got)) {
				return
			}
			c.Ev("sink:string")
		case 1:
			got, err := enc.EncodeToBytes()
			if err != nil {
				c.Fail("encode-error", "%s: EncodeToBytes: %v", e.Name, err)
				return
			}
			if !same("sink-differs", "EncodeToBytes", k, got) {
				return
			}
			returned, which = append(returned, got), append(which, k)
			c.Ev("sink:bytes")
		case 2, 3:
			var buf bytes.Buffer
			pre := ""
			if r.Bool() {
				pre = "kept "
				buf.WriteString(pre)
			}
			var dst io.Writer = &buf
			if x == 3 {
				dst = plainWriter{&buf}
			}
			if err := enc.EncodeTo(dst); err != nil {
				c.Fail("encode-error", "%s: EncodeTo: %v", e.Name, err)
				return
			}
			if !strings.HasPrefix(buf.String(), pre) || !same("sink-differs", "EncodeTo", k, buf.Bytes()[len(pre):]) {
				return
			}
			c.Ev("sink:writer")
		case 4, 5:
			boom := fmt.Errorf("disk full %d", s)
			w := &limitedWriter{left: r.Intn(len(ref[k])), err: boom, short: isYA && r.P(25)}
			err := enc.EncodeTo(w)
			if err == nil {
				c.Fail("io-error-lost", "%s: EncodeTo returned no error though the writer took only %d of %d bytes (short=%v)", e.Name, w.got.Len(), len(ref[k]), w.short)
				return
			}
			if isYA && !w.short && !errors.Is(err, boom) {
				c.Fail("io-error-lost", "%s: EncodeTo returned %v instead of the writer's error", e.Name, err)
				return
			}
			if !bytes.HasPrefix(ref[k], w.got.Bytes()) {
				c.Fail("sink-differs", "%s: a failing writer received %q, not a prefix of %q", e.Name, w.got.Bytes(), ref[k])
				return
			}
			c.Ev("sink:failing")
		default: // the tree is broken instead
			boom := fmt.Errorf("no value %d", s)
			enc.InsertRaw(nil, boom)
			// the first error is that the tree is complete already; either way nothing is written
			var buf bytes.Buffer
			if err := enc.EncodeTo(&buf); err == nil || buf.Len() != 0 {
				c.Fail("misuse-accepted", "%s: EncodeTo of a broken tree: error %v, %d bytes written", e.Name, err, buf.Len())
				return
			}
			c.Ev("sink:broken-tree")
		}
	}
	for k, b := range returned {
		if !same("returned-bytes-changed", "a slice returned earlier", which[k], b) {
			return
		}
	}
	// trees written several times with one writer
	var tws []treeWriter
	if isYA {
		w := yaenc.NewASTWriter()
		for k := range vals {
			b := yaenc.NewASTBuilder()
			if e.Name == YAUnquoted.Name {
				b = yaenc.NewASTBuilder(yaenc.WithUnquotedOneLineStrings())
			}
			Insert(b, vals[k])
			t, err := b.Result()
			if err != nil {
				c.Fail("refused", "%v", err)
				return
			}
			tws = append(tws, treeWriter{ref[k], func() (string, error) { return w.WriteString(t) }, func() ([]byte, error) { return w.WriteBytes(t) }, func(d io.Writer) error { return w.WriteTo(d, t) }})
		}
	} else {
		w := &goenc.ASTWriter{}
		for k := range vals {
			b := goenc.NewASTBuilder()
			Insert(b, vals[k])
			t, err := b.Result()
			if err != nil {
				c.Fail("refused", "%v", err)
				return
			}
			tws = append(tws, treeWriter{ref[k], func() (string, error) { return w.WriteString(t) }, func() ([]byte, error) { return w.WriteBytes(t) }, func(d io.Writer) error { return w.WriteTo(d, t) }})
		}
	}
	writeAll(c, e.Name+" writer", tws, isYA)
	if c.Failed() || !isYA {
		return
	}
	// parsed trees, with everything a tree may hold
	tws = nil
	w := yaenc.NewASTWriter()
	for k := r.Range(1, 3); k > 0; k-- {
		pv := GenRoot(r, GenOpts{MaxDepth: 3, NoNaN: true})
		src := NewPres(r, func(string) {}).Document(&pv)
		t, err := parser.ParseString(src, parser.WithUnescapedText())
		if err != nil || t == nil {
			continue
		}
		first, err := yaenc.NewASTWriter().WriteBytes(t)
		if err != nil {
			c.Fail("write-error", "parsed tree: %v\n--- source ---\n%s", err, src)
			return
		}
		tws = append(tws, treeWriter{first, func() (string, error) { return w.WriteString(t) }, func() ([]byte, error) { return w.WriteBytes(t) }, func(d io.Writer) error { return w.WriteTo(d, t) }})
		c.Ev("parsed-trees-written")
	}
	if len(tws) > 0 {
		writeAll(c, "yayamls writer of a parsed tree", tws, true)
	}
}

// writeAll writes trees in random order with one writer.
func writeAll(c *core.Ctx, name string, tws []treeWriter, isYA bool) {
	r := c.R
	var kept, want [][]byte
	for s := r.Range(3, 6); s > 0; s-- {
		var got []byte
		tw := core.Pick(r, tws)
		ref := tw.ref
		var err error
		how := ""
		switch r.Intn(4) {
		case 0:
			var str string
			str, err = tw.str()
			got, how = []byte(str), "WriteString"
		case 1:
			got, err = tw.bytes()
			kept, want, how = append(kept, got), append(want, ref), "WriteBytes"
		case 2:
			var buf bytes.Buffer
			err = tw.to(&buf)
			got, how = buf.Bytes(), "WriteTo"
		default:
			if len(ref) == 0 {
				continue
			}
			boom := errors.New("sink is closed")
			w := &limitedWriter{left: r.Intn(len(ref)), err: boom}
			if err := tw.to(w); err == nil || (isYA && !errors.Is(err, boom)) {
				c.Fail("io-error-lost", "%s: WriteTo returned %v though the writer failed after %d of %d bytes", name, err, w.got.Len(), len(ref))
				return
			}
			c.Ev("tree-writer:failing")
			continue
		}
		if err != nil {
			c.Fail("write-error", "%s: %s: %v", name, how, err)
			return
		}
		if !bytes.Equal(got, ref) {
			c.Fail("rewrite-differs", "%s: %s gave %q\nwant %q", name, how, clipS2(got), clipS2(ref))
			return
		}
		c.Ev("tree-writer:" + how)
	}
	for k := range kept {
		if !bytes.Equal(kept[k], want[k]) {
			c.Fail("returned-bytes-changed", "%s: a slice returned earlier changed to %q, want %q", name, clipS2(kept[k]), clipS2(want[k]))
			return
		}
	}
	if len(kept) > 1 {
		c.Ev("tree-writer:slices-held")
	}
}

func clipS2(b []byte) string {
	if len(b) > 3000 {
		return string(b[:3000]) + "…"
	}
	return string(b)
}

func init() {
	core.Register(&core.Prop{ID: "C11", Quick: 300000, Thorough: 8000000, Run: builderProtocol,
		MinEvents: []string{"call:arbitrary-end", "call:raw-with-error", "call:raw-broken", "call:raw-multi-doc", "call:raw", "call:raw-text", "result:unfinished-reported", "result:misuse-reported", "result:user-error-kept", "result:tree", "trees-read-back", "builder-reused"},
		Rule:      "random histories of inserter calls on one builder over several rounds (well-formed trees; ends of the wrong kind or without a start, pending keys, insertions into a complete tree, raw fragments with errors, malformed or of several documents, empty and unfinished trees), judged by an automaton of the inserter: Result succeeds exactly for complete trees, the first error is the one reported and stops insertion, the builder starts afresh after Result, and trees obtained earlier still read back unchanged; non-trivial: at least one tree was completed; distinct: by call history"})
	core.Register(&core.Prop{ID: "C12", Quick: 100000, Thorough: 4000000, Run: sinks,
		MinEvents: []string{"sink:string", "sink:bytes", "sink:writer", "sink:failing", "sink:broken-tree", "tree-writer:failing", "tree-writer:WriteString", "tree-writer:WriteBytes", "tree-writer:WriteTo", "parsed-trees-written", "large-document"},
		Rule:      "random values encoded again and again by one encoder through random sinks, with sinks that fail or write short after any number of bytes and with broken trees in between; oracle: the bytes of a fresh encoder; slices returned earlier must not change; one tree (built or parsed) written repeatedly gives the same bytes; non-trivial: more than one node"})
}
