// Package gen holds the monitors of generated code. They run in a driver built in a scratch module together with
// freshly generated code.
package gen

import (
	"errors"
	"fmt"
	"reflect"
	"strings"
	"sync"

	"github.com/KSpaceer/yamly"
	"gopkg.in/yaml.v3"

	"verifharness/core"
	"verifharness/gen/model"
	"verifharness/props"
)

// Target is one type code was generated for.
type Target struct {
	Pkg, Name, Engine string
	Flags             model.Flags
	Type              reflect.Type
	Phase             int // targets of phase 1 were generated when those of phase 0 had their methods already

	custom, eng, iface bool
}

func (t *Target) String() string {
	return fmt.Sprintf("%s.%s (%s, flags %s)", t.Pkg, t.Name, t.Engine, t.Flags)
}

var Targets []*Target

// Stubs tells that the types had stub methods when code was generated for them: code of a type that refers to itself
// then calls the engine-specific methods, which read the raw bytes of their own engine's decoder.
var Stubs bool

func Add(t Target) {
	seen := map[reflect.Type]bool{}
	var walk func(reflect.Type)
	walk = func(x reflect.Type) {
		if seen[x] {
			return
		}
		seen[x] = true
		if model.IsCustom(x) {
			t.custom = true
			t.eng = t.eng || strings.HasPrefix(x.Name(), "Eng")
			return
		}
		switch x.Kind() {
		case reflect.Pointer, reflect.Slice, reflect.Array:
			walk(x.Elem())
		case reflect.Map:
			walk(x.Key())
			walk(x.Elem())
		case reflect.Struct:
			for i := 0; i < x.NumField(); i++ {
				walk(x.Field(i).Type)
			}
		case reflect.Interface:
			t.iface = true
		}
	}
	walk(t.Type)
	Targets = append(Targets, &t)
}

var models sync.Map // *Target -> *model.M

// model of the target's code.
func (t *Target) model() *model.M {
	if m, ok := models.Load(t); ok {
		return m.(*model.M)
	}
	m := &model.M{Flags: t.Flags, Engine: t.Engine}
	for _, o := range Targets {
		if o.Pkg == t.Pkg && o.Phase < t.Phase {
			if m.Methods == nil {
				m.Methods = map[reflect.Type]*model.M{}
			}
			m.Methods[o.Type] = o.model()
		}
	}
	models.Store(t, m)
	return m
}

type yaMarshaler interface{ MarshalYAML() ([]byte, error) }
type yaUnmarshaler interface{ UnmarshalYAML([]byte) error }

// marshal encodes *p in one of the ways generated code offers.
func (t *Target) marshal(c *core.Ctx, p reflect.Value) (doc []byte, strict bool, err error) {
	r := c.R
	x := p.Interface()
	if !t.Flags.PtrRecv && r.Bool() {
		x = p.Elem().Interface()
		c.Ev("marshal:value")
	} else {
		c.Ev("marshal:pointer")
	}
	via := func(e props.Engine) ([]byte, error) {
		c.Ev("marshal:MarshalYamly-" + e.Name)
		enc := e.NewEncoder()
		x.(yamly.MarshalerYamly).MarshalYamly(enc)
		return enc.EncodeToBytes()
	}
	switch r.Intn(6) {
	case 0:
		doc, err = via(props.YA)
		return doc, true, err
	case 1:
		doc, err = via(props.GO)
		return doc, true, err
	case 2:
		doc, err = via(props.YAUnquoted)
		return doc, false, err
	}
	c.Ev("marshal:MarshalYAML-" + t.Engine)
	if t.Engine == "yayamls" {
		doc, err = x.(yaMarshaler).MarshalYAML()
	} else {
		doc, err = yaml.Marshal(x)
	}
	return doc, true, err
}

// unmarshal decodes into p in one of the ways generated code offers.
func (t *Target) unmarshal(c *core.Ctx, doc []byte, null bool, p reflect.Value) error {
	r := c.R
	x := p.Interface()
	own, other := props.YA, props.GO
	if t.Engine != "yayamls" {
		own, other = other, own
	}
	via := func(e props.Engine) error {
		d, err := e.NewDecoder(doc)
		if err != nil {
			return err
		}
		x.(yamly.UnmarshalerYamly).UnmarshalYamly(d)
		return d.Error()
	}
	switch n := r.Intn(4); {
	case n == 0 && !t.eng && !t.iface && !(Stubs || t.Phase > 0):
		c.Ev("unmarshal:UnmarshalYamly-foreign-engine")
		return via(other)
	case n == 1 || null:
		c.Ev("unmarshal:UnmarshalYamly-" + own.Name)
		return via(own)
	}
	c.Ev("unmarshal:UnmarshalYAML-" + own.Name)
	if t.Engine == "yayamls" {
		return x.(yaUnmarshaler).UnmarshalYAML(doc)
	}
	return yaml.Unmarshal(doc, x)
}

func pick(c *core.Ctx, i int, f func(*Target) bool) *Target {
	for k := 0; k < len(Targets); k++ {
		if t := Targets[(i+k)%len(Targets)]; f == nil || f(t) {
			return t
		}
	}
	return nil
}

func show(v reflect.Value) string {
	s := fmt.Sprintf("%+v", v.Interface())
	if len(s) > 1500 {
		s = s[:1500] + "…"
	}
	return s
}

// class checks the kind of an error.
func class(st model.Status, err error) error {
	switch {
	case err == nil:
		return fmt.Errorf("no error, want %v", st)
	case st == model.Denied && !errors.Is(err, yamly.ErrDenied):
		return fmt.Errorf("%v is not ErrDenied", err)
	case st == model.Custom && !errors.Is(err, model.ErrBoom):
		return fmt.Errorf("%v is not the error of the custom method", err)
	case st == model.NoImpl && !errors.Is(err, yamly.ErrUnmarshalerImplementation):
		return fmt.Errorf("%v is not ErrUnmarshalerImplementation", err)
	case st == model.Field:
		var u *yamly.UnknownFieldError
		if !errors.As(err, &u) {
			return fmt.Errorf("%v is not an UnknownFieldError", err)
		}
	}
	return nil
}

func countNodes(c *core.Ctx, v props.V) {
	if v.Count() > 3 {
		c.NonTrivial()
	}
}

// genTarget makes a value of the target and its reference.
func (t *Target) value(c *core.Ctx, boom int) (reflect.Value, *model.M) {
	p := reflect.New(t.Type)
	f := &model.Filler{R: c.R, Engine: t.Engine, Boom: boom, Plain: boom == 0}
	f.Fill(p.Elem(), c.R.Range(1, 6))
	return p, t.model()
}

func (t *Target) mark(c *core.Ctx) {
	c.Ev("engine:" + t.Engine)
	if s := t.Flags.String(); s != "" {
		for _, x := range strings.Split(s, "+") {
			c.Ev("flag:" + x)
		}
	}
	c.Ev("kind:" + t.Type.Kind().String())
}

func roundTrip(c *core.Ctx, i int) {
	t := pick(c, i, nil)
	p, m := t.value(c, 0)
	t.mark(c)
	c.Input(t.String() + " " + show(p.Elem()))
	keep := model.Copy(p.Elem())
	ref, err := m.Enc(p.Elem())
	if err != nil {
		c.Ev("not-encodable")
		return
	}
	countNodes(c, ref)
	doc, _, err := t.marshal(c, p)
	if err != nil {
		c.Fail("marshal-error", "%s: %v", t, err)
		return
	}
	if err := model.Equal(p.Elem(), keep, "v"); err != nil {
		c.Fail("value-modified", "%s: marshalling changed the value: %v", t, err)
		return
	}
	want := reflect.New(t.Type)
	st := t.top(m, ref, want.Elem())
	got := reflect.New(t.Type)
	err = t.unmarshal(c, doc, ref.K == props.KNull, got)
	t.judge(c, st, err, got, want, string(doc))
	c.Ev("round-trips")
}

// top decodes into the target itself.
func (t *Target) top(m *model.M, v props.V, out reflect.Value) model.Status {
	if v.K == props.KNull && t.Type.Kind() != reflect.Struct {
		return model.OK // nothing to decode into
	}
	return m.Dec(v, out, false)
}

func (t *Target) judge(c *core.Ctx, st model.Status, err error, got, want reflect.Value, doc string) {
	c.Ev("outcome:" + st.String())
	switch st {
	case model.Unknown:
	case model.OK:
		if err != nil {
			c.Fail("unmarshal-error", "%s: %v\n--- document ---\n%s", t, err, doc)
		} else if err := model.Equal(got.Elem(), want.Elem(), "v"); err != nil {
			c.Fail("decodes-differently", "%s: %v\n--- document ---\n%s", t, err, doc)
		}
	default:
		if err := class(st, err); err != nil {
			c.Fail("error-class", "%s: %v\n--- document ---\n%s", t, err, doc)
		}
	}
}

// fieldNames lists every key a struct of the target may have, to be used for entries in wrong places, too.
func (t *Target) fieldNames() []string {
	m := t.model()
	var out []string
	seen := map[reflect.Type]bool{}
	var walk func(x reflect.Type)
	walk = func(x reflect.Type) {
		if seen[x] {
			return
		}
		seen[x] = true
		switch x.Kind() {
		case reflect.Pointer, reflect.Slice, reflect.Array, reflect.Map:
			walk(x.Elem())
		case reflect.Struct:
			if model.IsCustom(x) || x.String() == "time.Time" {
				return
			}
			for _, f := range m.At(x).Fields(x) {
				out = append(out, f.Key)
				walk(f.Type)
			}
			for i := 0; i < x.NumField(); i++ { // names that are no keys, probably
				out = append(out, x.Field(i).Name, strings.ToLower(x.Field(i).Name))
			}
		}
	}
	walk(t.Type)
	return append(out, "unknown", "Unknown field", "-", "")
}

// receivers judges whom the marshalling methods belong to.
func (t *Target) receivers(c *core.Ctx) {
	if t.Type.Implements(reflect.TypeFor[yamly.MarshalerYamly]()) == t.Flags.PtrRecv {
		c.Fail("receiver", "%s: MarshalYamly belongs to the value: %t", t, t.Flags.PtrRecv)
	}
	if _, ok := t.Type.MethodByName("MarshalYAML"); ok == t.Flags.PtrRecv {
		c.Fail("receiver", "%s: MarshalYAML belongs to the value: %t", t, t.Flags.PtrRecv)
	}
	if t.Flags.PtrRecv { // there can be no value behind the pointer
		c.Ev("marshal:nil-pointer")
		doc, _, err := t.marshal(c, reflect.Zero(reflect.PointerTo(t.Type)))
		if err == nil {
			var d yamly.Decoder
			if d, err = core.Pick(c.R, []props.Engine{props.YA, props.GO}).NewDecoder(doc); err == nil && !d.TryNull() {
				err = fmt.Errorf("is written as %q", doc)
			}
		}
		if err != nil {
			c.Fail("nil-pointer", "%s: nil pointer: %v", t, err)
		}
	}
}

func fieldSemantics(c *core.Ctx, i int) {
	r := c.R
	t := pick(c, i, func(t *Target) bool { return t.Type.Kind() == reflect.Struct || r.P(10) })
	if r.P(10) {
		t.receivers(c)
	}
	p, m := t.value(c, 0)
	t.mark(c)
	c.Input(t.String() + " " + show(p.Elem()))
	ref, err := m.Enc(p.Elem())
	if err != nil {
		c.Ev("not-encodable")
		return
	}
	countNodes(c, ref)
	doc, strict, err := t.marshal(c, p)
	if err != nil {
		c.Fail("marshal-error", "%s: %v", t, err)
		return
	}
	n, err := props.V3Doc(doc)
	if err != nil {
		c.Fail("invalid-document", "%s: %v\n--- document ---\n%s", t, err, doc)
		return
	}
	if err := props.V3Matches(n, props.Align(ref, n), strict); err != nil {
		c.Fail("document-differs", "%s: %v\n--- document ---\n%s\n--- expected ---\n%v", t, err, doc, ref)
		return
	}
	c.Ev("documents-as-expected")
	// other documents of the type: some fields missing, null, unknown, repeated, in another order
	v := ref
	v = t.vary(c, v, t.Type, m, 0)
	t.decodeInto(c, m, v)
}

// decodeInto presents v, decodes it into a fresh or a used value and judges.
func (t *Target) decodeInto(c *core.Ctx, m *model.M, v props.V) {
	r := c.R
	src, v, ok := props.PresentV(r, v)
	if !ok {
		c.Ev("not-judged(yaml.v3 disagrees with the model)")
		return
	}
	got := reflect.New(t.Type)
	if r.P(40) {
		f := &model.Filler{R: r, Engine: t.Engine, Plain: true}
		f.Fill(got.Elem(), r.Range(1, 5))
		c.Ev("decoded-into-used-value")
	}
	want := reflect.New(t.Type)
	want.Elem().Set(model.Copy(got.Elem()))
	c.Input(t.String() + " <- " + src + "\n--- into ---\n" + show(got.Elem()))
	st := t.top(m, v, want.Elem())
	err := t.unmarshal(c, []byte(src), v.K == props.KNull, got)
	t.judge(c, st, err, got, want, src)
}

// vary changes entries of structs, leaving everything decodable unless unknown fields are disallowed.
func (t *Target) vary(c *core.Ctx, v props.V, rt reflect.Type, m *model.M, depth int) props.V {
	r := c.R
	for rt.Kind() == reflect.Pointer {
		rt = rt.Elem()
	}
	switch {
	case v.K == props.KSeq && (rt.Kind() == reflect.Slice || rt.Kind() == reflect.Array) && !model.IsCustom(rt):
		out := v
		out.Seq = nil
		for _, e := range v.Seq {
			out.Seq = append(out.Seq, t.vary(c, e, rt.Elem(), m, depth+1))
		}
		if rt.Kind() == reflect.Array && len(out.Seq) > 0 && r.P(30) {
			if r.Bool() {
				out.Seq = out.Seq[:r.Intn(len(out.Seq))]
				c.Ev("array-shorter")
			} else {
				out.Seq = append(out.Seq, props.GenValue(r, props.GenOpts{MaxDepth: 2, MaxWidth: 2, NoNaN: true}, 2))
				c.Ev("array-longer")
			}
		}
		return out
	case v.K == props.KMap && rt.Kind() == reflect.Map:
		out := v
		out.Seq = nil
		for _, e := range v.Seq {
			out.Seq = append(out.Seq, t.vary(c, e, rt.Elem(), m, depth+1))
		}
		return out
	case v.K == props.KMap && rt.Kind() == reflect.Struct && !model.IsCustom(rt):
		m := m.At(rt)
		fs := m.Fields(rt)
		typ := map[string]reflect.Type{}
		for _, f := range fs {
			typ[f.Key] = f.Type
		}
		out := props.V{K: props.KMap}
		for i, k := range v.Keys {
			e := t.vary(c, v.Seq[i], typ[k.S], m, depth+1)
			switch {
			case r.P(12):
				c.Ev("field-missing")
				continue
			case r.P(8):
				e = props.V{K: props.KNull}
				c.Ev("field-null")
			}
			out.Keys, out.Seq = append(out.Keys, k), append(out.Seq, e)
		}
		unk := 15
		if m.Disallow {
			unk = 5
		}
		for r.P(unk) {
			key := core.Pick(r, t.fieldNames())
			if typ[key] != nil {
				continue
			}
			e := props.GenValue(r, props.GenOpts{MaxDepth: 2, MaxWidth: 2, NoNaN: true}, 2)
			if r.P(25) {
				e = props.V{K: props.KNull}
			}
			at := r.Intn(len(out.Keys) + 1)
			out.Keys = append(out.Keys[:at:at], append([]props.V{props.Str(key)}, out.Keys[at:]...)...)
			out.Seq = append(out.Seq[:at:at], append([]props.V{e}, out.Seq[at:]...)...)
			c.Ev("field-unknown")
		}
		if r.P(40) {
			for j := len(out.Keys) - 1; j > 0; j-- {
				k := r.Intn(j + 1)
				out.Keys[j], out.Keys[k] = out.Keys[k], out.Keys[j]
				out.Seq[j], out.Seq[k] = out.Seq[k], out.Seq[j]
			}
			c.Ev("fields-shuffled")
		}
		return out
	}
	return v
}

// mutate changes a random node to something else.
func mutate(c *core.Ctx, v props.V) props.V {
	r := c.R
	kids := len(v.Seq) + len(v.Keys)
	if kids == 0 || r.P(25) {
		return other(c, v)
	}
	out := v
	out.Seq = append([]props.V{}, v.Seq...)
	out.Keys = append([]props.V{}, v.Keys...)
	if v.K == props.KMap && r.P(20) {
		i := r.Intn(len(v.Keys))
		switch r.Intn(3) {
		case 0: // repeated entry
			out.Keys, out.Seq = append(out.Keys, v.Keys[i]), append(out.Seq, mutateIf(c, v.Seq[i]))
			c.Ev("mutation:repeated-key")
		default:
			out.Keys[i] = other(c, v.Keys[i])
			c.Ev("mutation:key")
		}
		return out
	}
	if v.K == props.KSeq && r.P(10) {
		out.Seq = append(out.Seq, other(c, v.Seq[0]))
		return out
	}
	i := r.Intn(len(out.Seq))
	out.Seq[i] = mutate(c, out.Seq[i])
	return out
}

func mutateIf(c *core.Ctx, v props.V) props.V {
	if c.R.P(30) {
		return mutate(c, v)
	}
	return v
}

func other(c *core.Ctx, v props.V) props.V {
	r := c.R
	tame := func() props.V { return props.Str(core.Pick(r, []string{"zzz", "hello", "simple", "pull", "wing"})) }
	k := r.Intn(11)
	c.Ev(fmt.Sprintf("mutation:to-%d", k))
	switch k {
	case 0:
		return props.V{K: props.KNull}
	case 1:
		return props.V{K: props.KBool, B: r.Bool()}
	case 2:
		return props.V{K: props.KInt, I: props.GenInt(r)}
	case 3:
		return props.V{K: props.KUint, U: props.GenUint(r)}
	case 4:
		return props.V{K: props.KInt, I: core.Pick(r, []int64{128, -129, 256, 32768, -32769, 65536, 1 << 31, -1<<31 - 1, 1 << 32, -1, model.Boom})}
	case 5:
		return tame()
	case 6:
		return props.V{K: props.KSeq}
	case 7:
		return props.V{K: props.KMap}
	case 8:
		return props.V{K: props.KSeq, Seq: []props.V{v}}
	case 9:
		return props.V{K: props.KMap, Keys: []props.V{tame()}, Seq: []props.V{v}}
	default:
		if len(v.Seq) > 0 {
			return v.Seq[0]
		}
		return props.GenValue(r, props.GenOpts{MaxDepth: 2, MaxWidth: 2, NoNaN: true, Str: func(r *core.Rand) string { return tame().S }}, 2)
	}
}

func hostile(c *core.Ctx, i int) {
	r := c.R
	t := pick(c, i, nil)
	p, m := t.value(c, 0)
	t.mark(c)
	v, err := m.Enc(p.Elem())
	if err != nil {
		return
	}
	countNodes(c, v)
	if r.P(12) { // text that is damaged
		v := v.Clone()
		src := props.Damage(r, props.NewPres(r, func(string) {}).Document(&v))
		c.Input(t.String() + " <- " + src)
		got := reflect.New(t.Type)
		err := t.unmarshal(c, []byte(src), false, got)
		if _, perr := props.V3Doc([]byte(src)); perr == nil || err != nil {
			c.Ev("damaged-text")
		}
		return
	}
	for k := r.Range(1, 2); k > 0; k-- {
		v = mutate(c, v)
	}
	t.decodeInto(c, m, v)
}

func customs(c *core.Ctx, i int) {
	r := c.R
	t := pick(c, i, func(t *Target) bool { return t.custom || t.iface })
	boom := 0
	if r.P(35) {
		boom = 12
	}
	p, m := t.value(c, boom)
	t.mark(c)
	c.Input(t.String() + " " + show(p.Elem()))
	ref, rerr := m.Enc(p.Elem())
	doc, strict, err := t.marshal(c, p)
	if rerr != nil {
		c.Ev("custom-marshal-error")
		if err == nil {
			c.Fail("error-lost", "%s: marshalling succeeded, want %v\n--- document ---\n%s", t, rerr, doc)
		} else if !errors.Is(err, model.ErrBoom) && !errors.Is(err, yamly.ErrMarshalerImplementation) {
			c.Fail("error-class", "%s: marshalling failed with %v, want %v", t, err, rerr)
		}
		return
	}
	countNodes(c, ref)
	if err != nil {
		c.Fail("marshal-error", "%s: %v", t, err)
		return
	}
	n, err := props.V3Doc(doc)
	if err != nil {
		c.Fail("invalid-document", "%s: %v\n--- document ---\n%s", t, err, doc)
		return
	}
	if err := props.V3Matches(n, props.Align(ref, n), strict); err != nil {
		c.Fail("document-differs", "%s: %v\n--- document ---\n%s\n--- expected ---\n%v", t, err, doc, ref)
		return
	}
	c.Ev("custom-documents-as-expected")
	before := model.Calls()
	v := ref
	if r.P(40) {
		v = mutate(c, v)
	}
	t.decodeInto(c, m, v)
	if model.Calls() > before {
		c.EvN("custom-unmarshalers-called", model.Calls()-before)
	}
}

func init() {
	flags := []string{"flag:omitempty", "flag:disallow-unknown-fields", "flag:encode-pointer-receiver", "flag:inline-embedded", "engine:yayamls", "engine:goyaml"}
	with := func(s ...string) []string { return append(append([]string{}, flags...), s...) }
	core.Register(&core.Prop{ID: "C15", Quick: 120000, Thorough: 4000000, Run: roundTrip,
		MinEvents: with("round-trips", "marshal:MarshalYAML-yayamls", "marshal:MarshalYAML-goyaml", "unmarshal:UnmarshalYAML-yayamls", "unmarshal:UnmarshalYAML-goyaml", "unmarshal:UnmarshalYamly-foreign-engine", "types-generated", "kind:struct", "kind:slice", "kind:map"),
		Rule:      "a scratch module of random packages (named, anonymous, recursive, foreign, embedded and inlined types of every supported kind, custom marshalers, random tags and flags, both engines, several targets per package) is generated with the generator of the tree and compiled; random values of each target are marshalled and unmarshalled through every generated entry point and compared by reflection with the model; distinct: by type and value"})
	core.Register(&core.Prop{ID: "C16", Quick: 100000, Thorough: 4000000, Run: fieldSemantics,
		MinEvents: with("documents-as-expected", "field-missing", "field-null", "field-unknown", "fields-shuffled", "array-shorter", "array-longer", "decoded-into-used-value", "outcome:unknown-field", "outcome:ok", "marshal:nil-pointer", "types-generated-by-the-command"),
		Rule:      "as C15; the emitted document, read by yaml.v3, has to be the one the tags and flags prescribe (keys, omission, inlining, nulls, order of fields), and documents with missing, null, unknown and shuffled fields, presented at random, decoded into fresh and used values, have to do what the model says; the methods have to belong to the receiver of the flag; a small package is generated by the command under each of the 16 sets of flags; distinct: by type and document"})
	core.Register(&core.Prop{ID: "C17", Quick: 120000, Thorough: 4000000, Run: hostile,
		MinEvents: with("outcome:ok", "outcome:denied", "outcome:error", "outcome:unknown-field", "mutation:repeated-key", "mutation:key", "damaged-text", "decoded-into-used-value"),
		Rule:      "as C15; documents of the type with nodes replaced by nodes of other kinds, out-of-range numbers, nulls, repeated and wrong keys, extra nesting, or damaged text: the generated decoder has to end with the value or the class of error of the model; distinct: by type and document"})
	core.Register(&core.Prop{ID: "C18", Quick: 30000, Thorough: 1000000, Run: func(c *core.Ctx, i int) {
		switch i % 3 {
		case 0:
			roundTrip(c, i/3)
		case 1:
			fieldSemantics(c, i/3)
		default:
			hostile(c, i/3)
		}
	},
		MinEvents: with("generated", "regenerated-identically", "refused-cleanly", "earlier-output-kept", "output-default", "output-named", "output-default-name", "build-tags-in-effect", "files-in-effect", "packages-placed",
			"placed-by:cwd", "placed-by:absolute-directory", "placed-by:relative-directory", "placed-by:go-generate", "placed-by:directory-above", "placed-by:absolute-directory-with-dots", "round-trips", "documents-as-expected"),
		Rule: "the yamlygen command of the tree is run on scratch packages (random and full type sets, flags, ways to name the package, output names, build tags, nested modules, a GOPATH without modules; files of other packages nearby) and on packages it has to refuse; directories are compared before and after, the output is parsed and compiled, and the code is run through the monitors of C15, C16 and C17 under the flags given on the command line; distinct: by run, or by type and value"})
	core.Register(&core.Prop{ID: "C19", Quick: 100000, Thorough: 4000000, Run: customs,
		MinEvents: with("custom-documents-as-expected", "custom-unmarshalers-called", "custom-marshal-error", "outcome:custom-error", "outcome:ok", "outcome:no-implementation"),
		Rule:      "as C15 with types dense in custom marshalers (text, yamly, engine-specific; value and pointer receivers; local and foreign; as field, element, key, value, behind pointers and in interfaces) that fail at random; the document has to hold what the methods produced and their errors have to come out; distinct: by type and document"})
}
