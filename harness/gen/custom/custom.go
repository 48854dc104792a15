// Package custom holds types with hand-written marshalling methods. The file is also copied into the scratch
// packages, so it must not depend on its package name.
package custom

import (
	"errors"
	"fmt"
	"strconv"
	"strings"

	"github.com/KSpaceer/yamly"
	yadec "github.com/KSpaceer/yamly/engines/yayamls/decode"
	"gopkg.in/yaml.v3"

	"verifharness/core"
	"verifharness/gen/model"
	"verifharness/props"
)

func cut(s string) (int, string, error) {
	a, b, ok := strings.Cut(s, "/")
	if !ok {
		return 0, "", fmt.Errorf("%w: no slash", model.ErrBoom)
	}
	n, err := strconv.Atoi(a)
	if err != nil {
		return 0, "", fmt.Errorf("%w: %w", model.ErrBoom, err)
	}
	return n, b, nil
}

func text(v props.V) (string, model.Status) {
	switch v.K {
	case props.KStr:
		return v.S, model.OK
	case props.KNull, props.KSeq, props.KMap:
		return "", model.Denied
	}
	return "", model.Unknown
}

// TextV is a text marshaler with a value receiver.
type TextV struct {
	A int
	B string
}

func (t TextV) MarshalText() ([]byte, error) {
	if t.A == model.Boom {
		return model.Partial(t.B), model.ErrBoom
	}
	return []byte(strconv.Itoa(t.A) + "/" + t.B), nil
}

func (t *TextV) UnmarshalText(b []byte) (err error) {
	model.Called("UnmarshalText")
	t.A, t.B, err = cut(string(b))
	return err
}

func (t TextV) RefEncode() (props.V, error) {
	if t.A == model.Boom {
		return props.V{}, model.ErrBoom
	}
	return props.Str(strconv.Itoa(t.A) + "/" + t.B), nil
}

func (t *TextV) RefDecode(v props.V) model.Status {
	s, st := text(v)
	if st != model.OK {
		return st
	}
	var err error
	if t.A, t.B, err = cut(s); err != nil {
		return model.Custom
	}
	return model.OK
}

func (t *TextV) RefRand(r *core.Rand, boom bool) {
	t.A, t.B = r.Intn(2000)-1000, props.GenString(r)
	if boom {
		t.A = model.Boom
	}
}

// TextP is a text marshaler with a pointer receiver; it may be a key of a map.
type TextP string

func (t *TextP) MarshalText() ([]byte, error) {
	if *t == "boom" {
		return []byte("p:half"), model.ErrBoom
	}
	return []byte("p:" + string(*t)), nil
}

func (t *TextP) UnmarshalText(b []byte) error {
	model.Called("UnmarshalText")
	s, ok := strings.CutPrefix(string(b), "p:")
	if !ok {
		return model.ErrBoom
	}
	*t = TextP(s)
	return nil
}

func (t TextP) RefEncode() (props.V, error) {
	if t == "boom" {
		return props.V{}, model.ErrBoom
	}
	return props.Str("p:" + string(t)), nil
}

func (t *TextP) RefDecode(v props.V) model.Status {
	s, st := text(v)
	if st != model.OK {
		return st
	}
	x, ok := strings.CutPrefix(s, "p:")
	if !ok {
		return model.Custom
	}
	*t = TextP(x)
	return model.OK
}

func (t *TextP) RefRand(r *core.Rand, boom bool) {
	*t = TextP(props.GenString(r))
	if boom || *t == "boom" {
		*t = "boom"
		if !boom {
			*t = "bo om"
		}
	}
}

// YamV inserts itself as a sequence.
type YamV struct {
	X int
	Y []string
}

func (y YamV) MarshalYamly(out yamly.Inserter) {
	if y.X == model.Boom {
		out.InsertRaw(model.Partial(strings.Join(y.Y, "")), model.ErrBoom)
		return
	}
	out.StartSequence()
	out.InsertInteger(int64(y.X))
	for _, s := range y.Y {
		out.InsertString(s)
	}
	out.EndSequence()
}

func (y *YamV) UnmarshalYamly(in yamly.Decoder) {
	model.Called("UnmarshalYamly")
	*y = YamV{}
	st := in.Sequence()
	if st.HasUnprocessedItems() {
		y.X = int(in.Integer(64))
	}
	for st.HasUnprocessedItems() {
		y.Y = append(y.Y, in.String())
	}
	if y.X == model.Boom {
		in.AddError(model.ErrBoom)
	}
}

func (y YamV) RefEncode() (props.V, error) {
	if y.X == model.Boom {
		return props.V{}, model.ErrBoom
	}
	v := props.V{K: props.KSeq, Seq: []props.V{{K: props.KInt, I: int64(y.X)}}}
	for _, s := range y.Y {
		v.Seq = append(v.Seq, props.Str(s))
	}
	return v, nil
}

func (y *YamV) RefDecode(v props.V) model.Status {
	*y = YamV{}
	if v.K != props.KSeq {
		return model.Denied
	}
	for i, e := range v.Seq {
		if i == 0 {
			if e.K != props.KInt {
				return model.Unknown
			}
			y.X = int(e.I)
			continue
		}
		s, st := text(e)
		if st != model.OK {
			return st
		}
		y.Y = append(y.Y, s)
	}
	if y.X == model.Boom {
		return model.Custom
	}
	return model.OK
}

func (y *YamV) RefRand(r *core.Rand, boom bool) {
	y.X = r.Intn(2000) - 1000
	y.Y = nil
	for k := r.Intn(4); k > 0; k-- {
		y.Y = append(y.Y, props.GenString(r))
	}
	if boom {
		y.X = model.Boom
	}
}

// YamP inserts itself with a pointer receiver; it may be a key of a map.
type YamP int32

func (y *YamP) MarshalYamly(out yamly.Inserter) {
	if *y == model.Boom {
		out.InsertRawText([]byte("half"), model.ErrBoom)
		return
	}
	out.InsertString("#" + strconv.Itoa(int(*y)))
}

func (y *YamP) UnmarshalYamly(in yamly.Decoder) {
	model.Called("UnmarshalYamly")
	s := in.String()
	if in.Error() != nil {
		return
	}
	n, err := strconv.Atoi(strings.TrimPrefix(s, "#"))
	if err != nil || !strings.HasPrefix(s, "#") {
		in.AddError(fmt.Errorf("%w: %q", model.ErrBoom, s))
		return
	}
	*y = YamP(n)
}

func (y YamP) RefEncode() (props.V, error) {
	if y == model.Boom {
		return props.V{}, model.ErrBoom
	}
	return props.Str("#" + strconv.Itoa(int(y))), nil
}

func (y *YamP) RefDecode(v props.V) model.Status {
	s, st := text(v)
	if st != model.OK {
		return st
	}
	n, err := strconv.Atoi(strings.TrimPrefix(s, "#"))
	if err != nil || !strings.HasPrefix(s, "#") {
		return model.Custom
	}
	*y = YamP(n)
	return model.OK
}

func (y *YamP) RefRand(r *core.Rand, boom bool) {
	*y = YamP(r.Intn(2000) - 1000)
	if boom {
		*y = model.Boom
	}
}

func quoted(s string) string { return strconv.QuoteToASCII(s) }

func engRef(n int64, l []string) props.V {
	v := props.V{K: props.KMap, Keys: []props.V{props.Str("n"), props.Str("l")}}
	ls := props.V{K: props.KSeq}
	for _, s := range l {
		ls.Seq = append(ls.Seq, props.Str(s))
	}
	v.Seq = []props.V{{K: props.KInt, I: n}, ls}
	return v
}

func engFrom(v props.V) (int64, []string, model.Status) {
	if v.K != props.KMap {
		return 0, nil, model.AnyError
	}
	var n int64
	var l []string
	for i, k := range v.Keys {
		if k.K != props.KStr {
			return 0, nil, model.Unknown
		}
		switch {
		case k.S == "n" && v.Seq[i].K == props.KInt:
			n = v.Seq[i].I
		case k.S == "l" && v.Seq[i].K == props.KSeq:
			l = nil
			for _, e := range v.Seq[i].Seq {
				if e.K != props.KStr {
					return 0, nil, model.Unknown
				}
				l = append(l, e.S)
			}
		default:
			return 0, nil, model.Unknown
		}
	}
	if len(v.Keys) != 2 {
		return 0, nil, model.Unknown
	}
	if n == model.Boom {
		return n, l, model.Custom
	}
	return n, l, model.OK
}

func engRand(r *core.Rand, boom bool) (n int64, l []string) {
	n = int64(r.Intn(2000) - 1000)
	for k := r.Intn(3); k > 0; k-- {
		l = append(l, props.GenTameString(r))
	}
	if boom {
		n = model.Boom
	}
	return
}

func yaText(n int64, l []string) ([]byte, error) {
	if n == model.Boom {
		return model.Partial(strings.Join(l, "")), model.ErrBoom
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "n: %d\nl: [", n)
	for i, s := range l {
		if i > 0 {
			sb.WriteString(", ")
		}
		sb.WriteString(quoted(s))
	}
	sb.WriteString("]\n")
	return []byte(sb.String()), nil
}

func yaParse(b []byte) (n int64, l []string, err error) {
	model.Called("UnmarshalYAML")
	d, err := yadec.NewASTReaderFromBytes(b)
	if err != nil {
		return 0, nil, err
	}
	st := d.Mapping()
	for st.HasUnprocessedItems() {
		switch d.String() {
		case "n":
			n = d.Integer(64)
		case "l":
			s := d.Sequence()
			for s.HasUnprocessedItems() {
				l = append(l, d.String())
			}
		default:
			d.Skip()
		}
	}
	if err := d.Error(); err != nil {
		return 0, nil, err
	}
	if n == model.Boom {
		return n, l, model.ErrBoom
	}
	return n, l, nil
}

// EngYaV is a yayamls marshaler with a value receiver.
type EngYaV struct {
	N int64
	L []string
}

func (e EngYaV) MarshalYAML() ([]byte, error)        { return yaText(e.N, e.L) }
func (e *EngYaV) UnmarshalYAML(b []byte) (err error) { e.N, e.L, err = yaParse(b); return err }
func (e EngYaV) RefEncode() (props.V, error) {
	if e.N == model.Boom {
		return props.V{}, model.ErrBoom
	}
	return engRef(e.N, e.L), nil
}
func (e *EngYaV) RefDecode(v props.V) (st model.Status) { e.N, e.L, st = engFrom(v); return st }
func (e *EngYaV) RefRand(r *core.Rand, boom bool)       { e.N, e.L = engRand(r, boom) }

// EngYaP is a yayamls marshaler with a pointer receiver.
type EngYaP struct {
	N int64
	L []string
}

func (e *EngYaP) MarshalYAML() ([]byte, error)       { return yaText(e.N, e.L) }
func (e *EngYaP) UnmarshalYAML(b []byte) (err error) { e.N, e.L, err = yaParse(b); return err }
func (e EngYaP) RefEncode() (props.V, error) {
	if e.N == model.Boom {
		return props.V{}, model.ErrBoom
	}
	return engRef(e.N, e.L), nil
}
func (e *EngYaP) RefDecode(v props.V) (st model.Status) { e.N, e.L, st = engFrom(v); return st }
func (e *EngYaP) RefRand(r *core.Rand, boom bool)       { e.N, e.L = engRand(r, boom) }

type goForm struct {
	N int64    `yaml:"n"`
	L []string `yaml:"l"`
}

func goValue(n int64, l []string) (any, error) {
	if n == model.Boom {
		if b := model.Partial(strings.Join(l, "")); b != nil {
			return string(b), model.ErrBoom
		}
		return nil, model.ErrBoom
	}
	return goForm{n, l}, nil
}

func goParse(v *yaml.Node) (int64, []string, error) {
	model.Called("UnmarshalYAML")
	var f goForm
	if v.Kind != yaml.MappingNode {
		return 0, nil, errors.New("not a mapping")
	}
	if err := v.Decode(&f); err != nil {
		return 0, nil, err
	}
	if f.N == model.Boom {
		return f.N, f.L, model.ErrBoom
	}
	if len(f.L) == 0 {
		f.L = nil
	}
	return f.N, f.L, nil
}

// EngGoV is a yaml.v3 marshaler with a value receiver.
type EngGoV struct {
	N int64
	L []string
}

func (e EngGoV) MarshalYAML() (any, error)               { return goValue(e.N, e.L) }
func (e *EngGoV) UnmarshalYAML(v *yaml.Node) (err error) { e.N, e.L, err = goParse(v); return err }
func (e EngGoV) RefEncode() (props.V, error) {
	if e.N == model.Boom {
		return props.V{}, model.ErrBoom
	}
	return engRef(e.N, e.L), nil
}
func (e *EngGoV) RefDecode(v props.V) (st model.Status) { e.N, e.L, st = engFrom(v); return st }
func (e *EngGoV) RefRand(r *core.Rand, boom bool)       { e.N, e.L = engRand(r, boom) }

// EngGoP is a yaml.v3 marshaler with a pointer receiver.
type EngGoP struct {
	N int64
	L []string
}

func (e *EngGoP) MarshalYAML() (any, error)              { return goValue(e.N, e.L) }
func (e *EngGoP) UnmarshalYAML(v *yaml.Node) (err error) { e.N, e.L, err = goParse(v); return err }
func (e EngGoP) RefEncode() (props.V, error) {
	if e.N == model.Boom {
		return props.V{}, model.ErrBoom
	}
	return engRef(e.N, e.L), nil
}
func (e *EngGoP) RefDecode(v props.V) (st model.Status) { e.N, e.L, st = engFrom(v); return st }
func (e *EngGoP) RefRand(r *core.Rand, boom bool)       { e.N, e.L = engRand(r, boom) }

// Iface is an interface type generated code can handle.
type Iface interface {
	yamly.MarshalerYamly
	yamly.UnmarshalerYamly
}
