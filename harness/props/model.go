// Package props holds the property monitors: workload generators, reference models and oracles.
package props

import (
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/KSpaceer/yamly"
	godec "github.com/KSpaceer/yamly/engines/goyaml/decode"
	goenc "github.com/KSpaceer/yamly/engines/goyaml/encode"
	yadec "github.com/KSpaceer/yamly/engines/yayamls/decode"
	yaenc "github.com/KSpaceer/yamly/engines/yayamls/encode"
	"gopkg.in/yaml.v3"

	"verifharness/core"
)

// Kind of a model value.
type Kind int

const (
	KNull Kind = iota
	KBool
	KInt
	KUint
	KFloat
	KStr
	KTime
	KSeq
	KMap
)

func (k Kind) String() string {
	return [...]string{"null", "bool", "int", "uint", "float", "str", "time", "seq", "map"}[k]
}

// V is the reference model of a YAML value: what the user put in and has to get back.
type V struct {
	K    Kind
	B    bool
	I    int64
	U    uint64
	F    float64
	S    string
	T    time.Time
	Seq  []V // elements, or mapping values
	Keys []V // mapping keys

	Unordered bool // the order of the entries is not determined
}

func Str(s string) V { return V{K: KStr, S: s} }

func (v V) String() string {
	var sb strings.Builder
	v.write(&sb)
	return sb.String()
}

func (v V) write(sb *strings.Builder) {
	switch v.K {
	case KNull:
		sb.WriteString("null")
	case KBool:
		fmt.Fprintf(sb, "bool(%v)", v.B)
	case KInt:
		fmt.Fprintf(sb, "int(%d)", v.I)
	case KUint:
		fmt.Fprintf(sb, "uint(%d)", v.U)
	case KFloat:
		fmt.Fprintf(sb, "float(%v)", v.F)
	case KStr:
		fmt.Fprintf(sb, "%q", v.S)
	case KTime:
		fmt.Fprintf(sb, "time(%s)", v.T.Format(time.RFC3339Nano))
	case KSeq:
		sb.WriteString("[")
		for i, e := range v.Seq {
			if i > 0 {
				sb.WriteString(", ")
			}
			e.write(sb)
		}
		sb.WriteString("]")
	case KMap:
		sb.WriteString("{")
		for i := range v.Keys {
			if i > 0 {
				sb.WriteString(", ")
			}
			v.Keys[i].write(sb)
			sb.WriteString(": ")
			v.Seq[i].write(sb)
		}
		sb.WriteString("}")
	}
}

// Count returns the number of nodes.
func (v V) Count() int {
	n := 1
	for _, e := range v.Keys {
		n += e.Count()
	}
	for _, e := range v.Seq {
		n += e.Count()
	}
	return n
}

// Depth of the value.
func (v V) Depth() int {
	d := 0
	for _, e := range v.Seq {
		d = max(d, e.Depth())
	}
	for _, e := range v.Keys {
		d = max(d, e.Depth())
	}
	return d + 1
}

func floatSame(a, b float64) bool {
	if math.IsNaN(a) || math.IsNaN(b) {
		return math.IsNaN(a) && math.IsNaN(b)
	}
	return a == b && math.Signbit(a) == math.Signbit(b)
}

// Engine adapts one yamly engine.
type Engine struct {
	Name       string
	NewEncoder func() yamly.Encoder
	NewDecoder func(src []byte) (yamly.Decoder, error)
}

var YA = Engine{
	Name: "yayamls",
	NewEncoder: func() yamly.Encoder {
		return yamly.NewEncoder(yaenc.NewASTBuilder(), yaenc.NewASTWriter())
	},
	NewDecoder: func(src []byte) (yamly.Decoder, error) {
		d, err := yadec.NewASTReaderFromBytes(src)
		if err != nil {
			return nil, err
		}
		return d, nil
	},
}

// YAUnquoted is yayamls with the option that leaves one-line strings unquoted.
var YAUnquoted = Engine{
	Name: "yayamls+unquoted",
	NewEncoder: func() yamly.Encoder {
		return yamly.NewEncoder(yaenc.NewASTBuilder(yaenc.WithUnquotedOneLineStrings()), yaenc.NewASTWriter())
	},
	NewDecoder: YA.NewDecoder,
}

var GO = Engine{
	Name: "goyaml",
	NewEncoder: func() yamly.Encoder {
		return yamly.NewEncoder[*yaml.Node](goenc.NewASTBuilder(), &goenc.ASTWriter{})
	},
	NewDecoder: func(src []byte) (yamly.Decoder, error) {
		var n yaml.Node
		if err := yaml.Unmarshal(src, &n); err != nil {
			return nil, err
		}
		return godec.NewASTReader(&n), nil
	},
}

// GOUnquoted is goyaml with the option that leaves one-line strings unquoted.
var GOUnquoted = Engine{
	Name: "goyaml+unquoted",
	NewEncoder: func() yamly.Encoder {
		return yamly.NewEncoder[*yaml.Node](goenc.NewASTBuilder(goenc.WithUnquotedOneLineStrings()), &goenc.ASTWriter{})
	},
	NewDecoder: GO.NewDecoder,
}

var Engines = []Engine{YA, GO}

// Insert feeds v into an inserter.
func Insert(in yamly.Inserter, v V) {
	switch v.K {
	case KNull:
		in.InsertNull()
	case KBool:
		in.InsertBoolean(v.B)
	case KInt:
		in.InsertInteger(v.I)
	case KUint:
		in.InsertUnsigned(v.U)
	case KFloat:
		in.InsertFloat(v.F)
	case KStr:
		in.InsertString(v.S)
	case KTime:
		in.InsertTimestamp(v.T)
	case KSeq:
		in.StartSequence()
		for _, e := range v.Seq {
			Insert(in, e)
		}
		in.EndSequence()
	case KMap:
		in.StartMapping()
		for i := range v.Keys {
			Insert(in, v.Keys[i])
			Insert(in, v.Seq[i])
		}
		in.EndMapping()
	}
}

// InsertMix feeds v, some strings as raw text and some subtrees as raw YAML made by the same engine.
func InsertMix(c *core.Ctx, e Engine, in yamly.Inserter, v V, r *core.Rand, key bool) {
	if !key && v.K != KNull && r.P(4) {
		sub := e.NewEncoder()
		Insert(sub, v)
		raw, err := sub.EncodeToBytes()
		c.Ev("raw-subtree-inserted")
		in.InsertRaw(raw, err)
		for i := range raw { // the inserter must not depend on the caller's buffer afterwards
			raw[i] = '#'
		}
		return
	}
	switch v.K {
	case KStr:
		if r.P(15) {
			b := []byte(v.S)
			in.InsertRawText(b, nil)
			c.Ev("raw-text-inserted")
			for i := range b {
				b[i] = '#'
			}
			return
		}
		in.InsertString(v.S)
	case KSeq:
		in.StartSequence()
		for _, e2 := range v.Seq {
			InsertMix(c, e, in, e2, r, false)
		}
		in.EndSequence()
	case KMap:
		in.StartMapping()
		for i := range v.Keys {
			InsertMix(c, e, in, v.Keys[i], r, true)
			InsertMix(c, e, in, v.Seq[i], r, false)
		}
		in.EndMapping()
	default:
		Insert(in, v)
	}
}

// mismatch is the error of a refuted read.
type mismatch struct {
	path, msg string
}

func (m *mismatch) Error() string { return m.path + ": " + m.msg }

// ReadExpect reads the current node with the calls its type asks for and compares with v. probe interleaves
// TryNull probes and state queries, which must not change anything.
func ReadExpect(d yamly.Decoder, v V, r *core.Rand, path string) error {
	bad := func(f string, a ...any) error { return &mismatch{path, fmt.Sprintf(f, a...)} }
	if v.K == KNull {
		if !d.TryNull() {
			return bad("TryNull()=false on null (error: %v)", d.Error())
		}
		return nil
	}
	if r != nil && r.P(40) && d.TryNull() {
		return bad("TryNull()=true on %v", v)
	}
	if err := d.Error(); err != nil {
		return bad("error before reading %v: %v", v, err)
	}
	switch v.K {
	case KBool:
		if g := d.Boolean(); g != v.B || d.Error() != nil {
			return bad("Boolean()=%v want %v, error %v", g, v.B, d.Error())
		}
	case KInt:
		bits := 64
		if r != nil && r.P(50) {
			for _, b := range []int{8, 16, 32} {
				if v.I >= -(1<<(b-1)) && v.I < 1<<(b-1) {
					bits = b
					break
				}
			}
		}
		if g := d.Integer(bits); g != v.I || d.Error() != nil {
			return bad("Integer(%d)=%v want %v, error %v", bits, g, v.I, d.Error())
		}
	case KUint:
		bits := 64
		if r != nil && r.P(50) {
			for _, b := range []int{8, 16, 32} {
				if v.U < 1<<b {
					bits = b
					break
				}
			}
		}
		if g := d.Unsigned(bits); g != v.U || d.Error() != nil {
			return bad("Unsigned(%d)=%v want %v, error %v", bits, g, v.U, d.Error())
		}
	case KFloat:
		bits := 64
		if r != nil && r.P(50) && floatSame(float64(float32(v.F)), v.F) {
			bits = 32
		}
		if g := d.Float(bits); !floatSame(g, v.F) || d.Error() != nil {
			return bad("Float(%d)=%v want %v, error %v", bits, g, v.F, d.Error())
		}
	case KStr:
		if g := d.String(); g != v.S || d.Error() != nil {
			return bad("String()=%q want %q, error %v", g, v.S, d.Error())
		}
	case KTime:
		g := d.Timestamp()
		_, o1 := g.Zone()
		_, o2 := v.T.Zone()
		if !g.Equal(v.T) || o1 != o2 || d.Error() != nil {
			return bad("Timestamp()=%v want %v, error %v", g, v.T, d.Error())
		}
	case KSeq:
		st := d.Sequence()
		if err := d.Error(); err != nil {
			return bad("Sequence() error %v", err)
		}
		if st.Size() != len(v.Seq) {
			return bad("sequence Size()=%d want %d", st.Size(), len(v.Seq))
		}
		for i, e := range v.Seq {
			if !st.HasUnprocessedItems() {
				return bad("HasUnprocessedItems()=false before element %d of %d", i, len(v.Seq))
			}
			if err := ReadExpect(d, e, r, fmt.Sprintf("%s[%d]", path, i)); err != nil {
				return err
			}
			if st.Size() != len(v.Seq) {
				return bad("sequence Size() changed to %d after element %d", st.Size(), i)
			}
		}
		if st.HasUnprocessedItems() {
			return bad("HasUnprocessedItems()=true after all %d elements", len(v.Seq))
		}
	case KMap:
		st := d.Mapping()
		if err := d.Error(); err != nil {
			return bad("Mapping() error %v", err)
		}
		if st.Size() != len(v.Keys) {
			return bad("mapping Size()=%d want %d", st.Size(), len(v.Keys))
		}
		for i := range v.Keys {
			if !st.HasUnprocessedItems() {
				return bad("HasUnprocessedItems()=false before entry %d of %d", i, len(v.Keys))
			}
			if err := ReadExpect(d, v.Keys[i], r, fmt.Sprintf("%s.key%d", path, i)); err != nil {
				return err
			}
			if err := ReadExpect(d, v.Seq[i], r, fmt.Sprintf("%s.%d", path, i)); err != nil {
				return err
			}
		}
		if st.HasUnprocessedItems() {
			return bad("HasUnprocessedItems()=true after all %d entries", len(v.Keys))
		}
	}
	return nil
}

// ReadAll opens src with the engine, reads it as v and demands the end of the stream afterwards.
func ReadAll(e Engine, src []byte, v V, r *core.Rand) error {
	d, err := e.NewDecoder(src)
	if err != nil {
		return fmt.Errorf("decoder: %w", err)
	}
	if err := ReadExpect(d, v, r, "$"); err != nil {
		return err
	}
	if err := d.Error(); err != nil {
		return fmt.Errorf("error after complete read: %w", err)
	}
	return nil
}

// CountKinds reports the node kinds of v as events.
func CountKinds(c *core.Ctx, v V) {
	c.Ev("node:" + v.K.String())
	for _, e := range v.Keys {
		CountKinds(c, e)
	}
	for _, e := range v.Seq {
		CountKinds(c, e)
	}
}
