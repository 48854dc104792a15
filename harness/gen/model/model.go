// Package model is the reference of generated code: what a value of a Go type has to look like in YAML, and what a
// document has to do to a value, given the tags and the flags of the generation.
package model

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"sync/atomic"
	"time"
	"unicode"

	"github.com/KSpaceer/yamly"

	"verifharness/core"
	"verifharness/props"
)

// Boom is the number that makes a custom marshaler fail with ErrBoom.
const Boom = -31337

var ErrBoom = errors.New("boom of a custom marshaler")

// Partial is what a failing marshaler returns along with its error: nothing, or output nobody may use.
func Partial(s string) []byte {
	switch len(s) % 3 {
	case 0:
		return nil
	case 1:
		return []byte{}
	}
	return []byte("half")
}

var calls atomic.Int64

// Called counts invocations of custom unmarshalers.
func Called(string) { calls.Add(1) }

func Calls() int64 { return calls.Load() }

// Status of a reference decoding.
type Status int

const (
	OK       Status = iota
	Denied          // a read of the wrong kind
	Custom          // the error of a custom method
	Unknown         // depends on the spelling of a scalar or on the engine
	AnyError        // some error
	Field           // unknown field
	NoImpl          // an interface without anything to decode into
)

func (s Status) String() string {
	return [...]string{"ok", "denied", "custom-error", "unknown", "error", "unknown-field", "no-implementation"}[s]
}

type RefCustom interface {
	RefEncode() (props.V, error)
	RefDecode(props.V) Status
	RefRand(r *core.Rand, boom bool)
}

var (
	customType = reflect.TypeOf((*RefCustom)(nil)).Elem()
	timeType   = reflect.TypeOf(time.Time{})
	anyType    = reflect.TypeOf((*any)(nil)).Elem()
)

func IsCustom(t reflect.Type) bool {
	return t.Kind() != reflect.Interface && t.Kind() != reflect.Pointer && reflect.PointerTo(t).Implements(customType)
}

// Flags of a generation.
type Flags struct {
	Omitempty, Disallow, PtrRecv, Inline bool
}

func (f Flags) String() string {
	var s []string
	for _, x := range []struct {
		on bool
		n  string
	}{{f.Omitempty, "omitempty"}, {f.Disallow, "disallow-unknown-fields"}, {f.PtrRecv, "encode-pointer-receiver"}, {f.Inline, "inline-embedded"}} {
		if x.on {
			s = append(s, x.n)
		}
	}
	return strings.Join(s, "+")
}

// M is the model of one generation.
type M struct {
	Flags
	Engine string
	// Methods: types whose generated methods existed when the code was generated, with the models of these
	Methods map[reflect.Type]*M
}

// At is the model that governs values of t.
func (m *M) At(t reflect.Type) *M {
	if o, ok := m.Methods[t]; ok {
		return o
	}
	return m
}

type tag struct {
	name                  string
	skip, omitempty, inln bool
}

func parseTag(t reflect.StructTag) tag {
	var out tag
	s := t.Get("yaml")
	if s == "-" {
		out.skip = true
		return out
	}
	parts := strings.Split(s, ",")
	out.name = parts[0]
	for _, p := range parts[1:] {
		switch p {
		case "omitempty":
			out.omitempty = true
		case "inline":
			out.inln = true
		}
	}
	return out
}

// Fld is one key of a struct's mapping.
type Fld struct {
	Key   string
	Path  []int
	Omit  bool
	Inl   bool
	Type  reflect.Type
	own   bool
	depth int
}

func exported(name string) bool { return unicode.IsUpper([]rune(name)[0]) }

// Fields lists the keys of a struct: its own ones and those of inlined structs, the outer ones taking precedence.
func (m *M) Fields(t reflect.Type) []Fld {
	var own, inl []Fld
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		tg := parseTag(f.Tag)
		if tg.inln || (f.Anonymous && m.Inline && tg.name == "" && !tg.skip) {
			ft := f.Type
			if ft.Kind() == reflect.Pointer {
				ft = ft.Elem()
			}
			if ft.Kind() == reflect.Struct {
				for _, s := range m.Fields(ft) {
					s.Path = append([]int{i}, s.Path...)
					s.Inl = true
					inl = append(inl, s)
				}
				continue
			}
		}
		if tg.skip || !exported(f.Name) {
			continue
		}
		key := tg.name
		if key == "" {
			key = f.Name
		}
		own = append(own, Fld{Key: key, Path: []int{i}, Omit: tg.omitempty || m.Omitempty, Type: f.Type, Inl: f.Anonymous})
	}
	seen := map[string]bool{}
	for _, f := range own {
		seen[f.Key] = true
	}
	for _, f := range inl {
		if !seen[f.Key] {
			own = append(own, f)
		}
	}
	return own
}

func isBytes(t reflect.Type) bool {
	return t.Elem().Kind() == reflect.Uint8 && t.Elem().Name() == "uint8"
}

// empty: what omitempty leaves out.
func empty(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Slice, reflect.Map:
		return v.Len() == 0
	case reflect.Interface, reflect.Pointer:
		return v.IsNil()
	case reflect.Bool:
		return !v.Bool()
	case reflect.String:
		return v.Len() == 0
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return v.Int() == 0
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return v.Uint() == 0
	case reflect.Float32, reflect.Float64:
		return v.Float() == 0
	}
	return false
}

// get follows a path; ok is false behind a nil pointer.
func get(v reflect.Value, path []int) (reflect.Value, bool) {
	for i, x := range path {
		if i > 0 && v.Kind() == reflect.Pointer {
			if v.IsNil() {
				return v, false
			}
			v = v.Elem()
		}
		v = v.Field(x)
	}
	return v, true
}

// Enc is the YAML value of v.
func (m *M) Enc(v reflect.Value) (props.V, error) {
	t := v.Type()
	m = m.At(t)
	if IsCustom(t) {
		p := reflect.New(t)
		p.Elem().Set(v)
		return p.Interface().(RefCustom).RefEncode()
	}
	if t == timeType {
		return props.Str(v.Interface().(time.Time).Format(time.RFC3339Nano)), nil
	}
	switch t.Kind() {
	case reflect.String:
		return props.Str(v.String()), nil
	case reflect.Bool:
		return props.V{K: props.KBool, B: v.Bool()}, nil
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return props.V{K: props.KInt, I: v.Int()}, nil
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return props.V{K: props.KUint, U: v.Uint()}, nil
	case reflect.Float32, reflect.Float64:
		return props.V{K: props.KFloat, F: v.Float()}, nil
	case reflect.Slice, reflect.Array:
		if t.Kind() == reflect.Slice && v.IsNil() {
			return props.V{K: props.KNull}, nil
		}
		if isBytes(t) {
			b := make([]byte, v.Len())
			reflect.Copy(reflect.ValueOf(b), v)
			return props.Str(string(b)), nil
		}
		out := props.V{K: props.KSeq}
		for i := 0; i < v.Len(); i++ {
			e, err := m.Enc(v.Index(i))
			if err != nil {
				return out, err
			}
			out.Seq = append(out.Seq, e)
		}
		return out, nil
	case reflect.Pointer:
		if v.IsNil() {
			return props.V{K: props.KNull}, nil
		}
		return m.Enc(v.Elem())
	case reflect.Map:
		if v.IsNil() {
			return props.V{K: props.KNull}, nil
		}
		out := props.V{K: props.KMap, Unordered: true}
		for _, k := range sortedKeys(v) {
			kv, err := m.Enc(k)
			if err != nil {
				return out, err
			}
			e, err := m.Enc(v.MapIndex(k))
			if err != nil {
				return out, err
			}
			out.Keys, out.Seq = append(out.Keys, kv), append(out.Seq, e)
		}
		return out, nil
	case reflect.Struct:
		out := props.V{K: props.KMap}
		for _, f := range m.Fields(t) {
			fv, ok := get(v, f.Path)
			if !ok || f.Omit && empty(fv) {
				continue
			}
			if f.Inl {
				out.Unordered = true
			}
			e, err := m.Enc(fv)
			if err != nil {
				return out, err
			}
			out.Keys, out.Seq = append(out.Keys, props.Str(f.Key)), append(out.Seq, e)
		}
		return out, nil
	case reflect.Interface:
		if v.IsNil() {
			return props.V{K: props.KNull}, nil
		}
		x := v.Interface()
		if c, ok := x.(RefCustom); ok {
			return c.RefEncode()
		}
		if rv := reflect.ValueOf(x); IsCustom(rv.Type()) {
			return m.Enc(rv)
		}
		if m.Engine == "yayamls" {
			return props.V{}, yamly.ErrMarshalerImplementation
		}
		return anyV(x), nil
	}
	panic(fmt.Sprintf("model: %s", t))
}

func anyV(x any) props.V {
	switch x := x.(type) {
	case nil:
		return props.V{K: props.KNull}
	case bool:
		return props.V{K: props.KBool, B: x}
	case int64:
		return props.V{K: props.KInt, I: x}
	case string:
		return props.Str(x)
	case float64:
		return props.V{K: props.KFloat, F: x}
	case []any:
		v := props.V{K: props.KSeq}
		for _, e := range x {
			v.Seq = append(v.Seq, anyV(e))
		}
		return v
	case map[string]any:
		v := props.V{K: props.KMap, Unordered: true}
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			v.Keys, v.Seq = append(v.Keys, props.Str(k)), append(v.Seq, anyV(x[k]))
		}
		return v
	}
	panic(fmt.Sprintf("model: any %T", x))
}

func sortedKeys(v reflect.Value) []reflect.Value {
	ks := v.MapKeys()
	sort.Slice(ks, func(i, j int) bool {
		return fmt.Sprintf("%#v", ks[i].Interface()) < fmt.Sprintf("%#v", ks[j].Interface())
	})
	return ks
}

// AnyWant stands in the expected value for the result of Any.
type AnyWant struct{ V props.V }

func alpha(s string) bool {
	if s == "" {
		return false
	}
	for _, c := range s {
		if !(c >= 'g' && c <= 'm' || c >= 'p' && c <= 's' || c >= 'u' && c <= 'x') {
			return false
		}
	}
	return true
}

// Dec does to out what decoding v has to do.
func (m *M) Dec(v props.V, out reflect.Value, omit bool) Status {
	t := out.Type()
	if _, ok := m.Methods[t]; ok {
		m, omit = m.At(t), false
		if v.K == props.KNull && t.Kind() != reflect.Struct {
			return OK // the method has nothing to decode into
		}
	}
	if IsCustom(t) {
		return out.Addr().Interface().(RefCustom).RefDecode(v)
	}
	coll := v.K == props.KSeq || v.K == props.KMap
	if t == timeType {
		if v.K == props.KStr {
			x, err := time.Parse(time.RFC3339Nano, v.S)
			if err != nil {
				return AnyError
			}
			out.Set(reflect.ValueOf(x))
			return OK
		}
		if coll || v.K == props.KNull {
			return Denied
		}
		return Unknown
	}
	switch t.Kind() {
	case reflect.String:
		if v.K == props.KStr {
			out.SetString(v.S)
			return OK
		}
		if coll || v.K == props.KNull {
			return Denied
		}
		return Unknown
	case reflect.Bool:
		if v.K == props.KBool {
			out.SetBool(v.B)
			return OK
		}
		if v.K == props.KStr && !alpha(v.S) {
			return Unknown
		}
		return Denied
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		switch v.K {
		case props.KInt:
			if out.OverflowInt(v.I) {
				return AnyError
			}
			out.SetInt(v.I)
			return OK
		case props.KUint:
			if v.U > math.MaxInt64 || out.OverflowInt(int64(v.U)) {
				return AnyError
			}
			out.SetInt(int64(v.U))
			return OK
		case props.KFloat:
			return Unknown
		case props.KStr:
			if !alpha(v.S) {
				return Unknown
			}
		}
		return Denied
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		switch v.K {
		case props.KInt:
			if v.I < 0 {
				return AnyError
			}
			if out.OverflowUint(uint64(v.I)) {
				return AnyError
			}
			out.SetUint(uint64(v.I))
			return OK
		case props.KUint:
			if out.OverflowUint(v.U) {
				return AnyError
			}
			out.SetUint(v.U)
			return OK
		case props.KFloat:
			return Unknown
		case props.KStr:
			if !alpha(v.S) {
				return Unknown
			}
		}
		return Denied
	case reflect.Float32, reflect.Float64:
		switch v.K {
		case props.KFloat:
			f := v.F
			if t.Kind() == reflect.Float32 {
				f = float64(float32(f))
				if math.IsInf(f, 0) && !math.IsInf(v.F, 0) {
					return AnyError
				}
				if f != v.F && !math.IsNaN(f) {
					return Unknown // rounding twice
				}
			}
			out.SetFloat(f)
			return OK
		case props.KInt, props.KUint:
			return Unknown // hexadecimal and octal spellings are denied
		case props.KStr:
			if !alpha(v.S) {
				return Unknown
			}
		}
		return Denied
	case reflect.Slice:
		if v.K == props.KNull {
			out.Set(reflect.Zero(t))
			return OK
		}
		if isBytes(t) {
			if v.K == props.KStr {
				out.Set(reflect.ValueOf([]byte(v.S)).Convert(t))
				return OK
			}
			if coll {
				return Denied
			}
			return Unknown
		}
		if v.K != props.KSeq {
			return Denied
		}
		s := reflect.MakeSlice(t, len(v.Seq), len(v.Seq))
		out.Set(s)
		for i, e := range v.Seq {
			if st := m.Dec(e, s.Index(i), omit); st != OK {
				return st
			}
		}
		return OK
	case reflect.Array:
		if v.K == props.KNull {
			return OK
		}
		if isBytes(t) {
			if v.K == props.KStr {
				reflect.Copy(out, reflect.ValueOf([]byte(v.S)))
				return OK
			}
			if coll {
				return Denied
			}
			return Unknown
		}
		if v.K != props.KSeq {
			return Denied
		}
		for i, e := range v.Seq {
			if i >= out.Len() {
				break
			}
			if st := m.Dec(e, out.Index(i), omit); st != OK {
				return st
			}
		}
		return OK
	case reflect.Pointer:
		if v.K == props.KNull {
			out.Set(reflect.Zero(t))
			return OK
		}
		if out.IsNil() {
			out.Set(reflect.New(t.Elem()))
		} else { // the expected value must not share with the one it was copied from
			c := reflect.New(t.Elem())
			c.Elem().Set(out.Elem())
			out.Set(c)
		}
		return m.Dec(v, out.Elem(), omit)
	case reflect.Map:
		if v.K == props.KNull {
			out.Set(reflect.Zero(t))
			return OK
		}
		if v.K != props.KMap {
			return Denied
		}
		if len(v.Keys) == 0 && (omit || m.Omitempty) {
			out.Set(reflect.Zero(t))
			return OK
		}
		mp := reflect.MakeMap(t)
		out.Set(mp)
		for i, k := range v.Keys {
			kv, ev := reflect.New(t.Key()).Elem(), reflect.New(t.Elem()).Elem()
			if st := m.Dec(k, kv, omit); st != OK {
				return st
			}
			if st := m.Dec(v.Seq[i], ev, omit); st != OK {
				return st
			}
			mp.SetMapIndex(kv, ev)
		}
		return OK
	case reflect.Struct:
		if v.K == props.KNull {
			out.Set(reflect.Zero(t))
			return OK
		}
		if v.K != props.KMap {
			return Denied
		}
		m.alloc(out)
		fs := m.Fields(t)
		for i, k := range v.Keys {
			if k.K != props.KStr {
				if k.K == props.KNull || k.K == props.KSeq || k.K == props.KMap {
					return Denied
				}
				return Unknown
			}
			var f *Fld
			for j := range fs {
				if fs[j].Key == k.S {
					f = &fs[j]
				}
			}
			if f == nil {
				if m.Disallow {
					return Field
				}
				continue
			}
			if v.Seq[i].K == props.KNull {
				continue
			}
			fv, _ := get(out, f.Path)
			if st := m.Dec(v.Seq[i], fv, parseTag(t.FieldByIndex(f.Path).Tag).omitempty); st != OK {
				return st
			}
		}
		return OK
	case reflect.Interface:
		if !out.IsNil() {
			if c, ok := out.Interface().(RefCustom); ok {
				p := reflect.ValueOf(c)
				n := reflect.New(p.Type().Elem())
				n.Elem().Set(p.Elem())
				out.Set(n)
				return n.Interface().(RefCustom).RefDecode(v)
			}
		}
		if t.NumMethod() > 0 {
			return NoImpl
		}
		if !props.Anyable(v) {
			return Unknown
		}
		out.Set(reflect.ValueOf(AnyWant{v}))
		return OK
	}
	panic(fmt.Sprintf("model: %s", t))
}

// alloc replaces the pointers of inlined structs.
func (m *M) alloc(out reflect.Value) {
	t := out.Type()
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		tg := parseTag(f.Tag)
		if !(tg.inln || (f.Anonymous && m.Inline && tg.name == "" && !tg.skip)) {
			continue
		}
		fv := out.Field(i)
		if f.Type.Kind() == reflect.Pointer && f.Type.Elem().Kind() == reflect.Struct {
			fv.Set(reflect.New(f.Type.Elem()))
			fv = fv.Elem()
		}
		if fv.Kind() == reflect.Struct {
			m.alloc(fv)
		}
	}
}

// Equal compares a decoded value with the expected one.
func Equal(got, want reflect.Value, path string) error {
	bad := func(f string, a ...any) error { return fmt.Errorf("%s: %s", path, fmt.Sprintf(f, a...)) }
	if want.Kind() == reflect.Interface {
		if !want.IsNil() {
			if a, ok := want.Interface().(AnyWant); ok {
				if got.IsNil() {
					return props.AnyAccept(nil, a.V, path)
				}
				return props.AnyAccept(got.Interface(), a.V, path)
			}
		}
		if got.IsNil() != want.IsNil() {
			return bad("nil=%v want nil=%v", got.IsNil(), want.IsNil())
		}
		if got.IsNil() {
			return nil
		}
		if got.Elem().Type() != want.Elem().Type() {
			return bad("%s want %s", got.Elem().Type(), want.Elem().Type())
		}
		return Equal(got.Elem(), want.Elem(), path)
	}
	if got.Type() == timeType {
		g, w := got.Interface().(time.Time), want.Interface().(time.Time)
		_, o1 := g.Zone()
		_, o2 := w.Zone()
		if !g.Equal(w) || o1 != o2 {
			return bad("%v want %v", g, w)
		}
		return nil
	}
	switch got.Kind() {
	case reflect.Float32, reflect.Float64:
		a, b := got.Float(), want.Float()
		if a != b && !(math.IsNaN(a) && math.IsNaN(b)) || math.Signbit(a) != math.Signbit(b) && !math.IsNaN(a) {
			return bad("%v want %v", a, b)
		}
	case reflect.Slice:
		if got.IsNil() != want.IsNil() {
			return bad("nil=%v want nil=%v", got.IsNil(), want.IsNil())
		}
		fallthrough
	case reflect.Array:
		if got.Len() != want.Len() {
			return bad("%d elements want %d", got.Len(), want.Len())
		}
		for i := 0; i < got.Len(); i++ {
			if err := Equal(got.Index(i), want.Index(i), fmt.Sprintf("%s[%d]", path, i)); err != nil {
				return err
			}
		}
	case reflect.Pointer:
		if got.IsNil() != want.IsNil() {
			return bad("nil=%v want nil=%v", got.IsNil(), want.IsNil())
		}
		if !got.IsNil() {
			return Equal(got.Elem(), want.Elem(), "*"+path)
		}
	case reflect.Map:
		if got.IsNil() != want.IsNil() {
			return bad("nil=%v want nil=%v", got.IsNil(), want.IsNil())
		}
		if got.Len() != want.Len() {
			return bad("%d keys want %d (%v, want %v)", got.Len(), want.Len(), got.Interface(), want.Interface())
		}
		for _, k := range want.MapKeys() {
			var g reflect.Value
			if k.Kind() == reflect.Struct && k.Type() == timeType {
				for _, gk := range got.MapKeys() {
					if gk.Interface().(time.Time).Equal(k.Interface().(time.Time)) {
						g = got.MapIndex(gk)
					}
				}
			} else {
				g = got.MapIndex(k)
			}
			if !g.IsValid() {
				return bad("no key %#v among %v", k.Interface(), got.MapKeys())
			}
			if err := Equal(g, want.MapIndex(k), fmt.Sprintf("%s[%#v]", path, k.Interface())); err != nil {
				return err
			}
		}
	case reflect.Struct:
		for i := 0; i < got.NumField(); i++ {
			f := got.Type().Field(i)
			if !f.IsExported() && !(f.Anonymous && f.Type.Kind() == reflect.Struct) {
				continue
			}
			if err := Equal(got.Field(i), want.Field(i), path+"."+f.Name); err != nil {
				return err
			}
		}
	default:
		if got.Interface() != want.Interface() {
			return bad("%#v want %#v", got.Interface(), want.Interface())
		}
	}
	return nil
}

// Copy makes a deep copy.
func Copy(v reflect.Value) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	out.Set(v)
	deep(out)
	return out
}

func deep(v reflect.Value) {
	if v.Type() == timeType || !v.CanSet() && v.Kind() != reflect.Struct {
		return
	}
	switch v.Kind() {
	case reflect.Slice:
		if !v.IsNil() {
			s := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
			reflect.Copy(s, v)
			v.Set(s)
			for i := 0; i < s.Len(); i++ {
				deep(s.Index(i))
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			deep(v.Index(i))
		}
	case reflect.Pointer:
		if !v.IsNil() {
			p := reflect.New(v.Type().Elem())
			p.Elem().Set(v.Elem())
			deep(p.Elem())
			v.Set(p)
		}
	case reflect.Map:
		if !v.IsNil() {
			mp := reflect.MakeMap(v.Type())
			for _, k := range v.MapKeys() {
				mp.SetMapIndex(k, Copy(v.MapIndex(k)))
			}
			v.Set(mp)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			deep(v.Field(i))
		}
	case reflect.Interface:
		if !v.IsNil() {
			v.Set(Copy(v.Elem()))
		}
	}
}

// Filler makes random values.
type Filler struct {
	R      *core.Rand
	Engine string
	// Boom: percentage of custom values that fail
	Boom int
	// Plain: no content of any that the engine can not encode
	Plain bool
	Tame  bool
	n     int
	sized bool
	large bool
}

func (f *Filler) str() string {
	if f.Tame {
		return props.GenTameString(f.R)
	}
	return props.GenString(f.R)
}

func (f *Filler) Fill(v reflect.Value, depth int) {
	t := v.Type()
	r := f.R
	f.n++
	if f.n > 200 {
		depth = 0
	}
	if IsCustom(t) {
		v.Addr().Interface().(RefCustom).RefRand(r, f.Boom > 0 && r.P(f.Boom))
		return
	}
	if t == timeType {
		x := props.GenTime(r)
		if y := x.Year(); y < 1 || y > 9998 {
			x = x.AddDate(2000-y, 0, 0)
		}
		v.Set(reflect.ValueOf(x))
		return
	}
	switch t.Kind() {
	case reflect.String:
		if r.P(85) {
			v.SetString(f.str())
		}
	case reflect.Bool:
		v.SetBool(r.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if r.P(85) {
			v.SetInt(props.GenInt(r) >> (64 - uint(t.Bits())))
			if r.P(40) {
				v.SetInt(int64(r.Intn(200) - 100))
			}
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if r.P(85) {
			v.SetUint(props.GenUint(r) >> (64 - uint(t.Bits())))
			if r.P(40) {
				v.SetUint(uint64(r.Intn(200)))
			}
		}
	case reflect.Float32, reflect.Float64:
		if r.P(85) {
			x := props.GenFloat(r)
			if t.Kind() == reflect.Float32 {
				x = float64(float32(x))
			}
			v.SetFloat(x)
		}
	case reflect.Slice:
		if r.P(15) {
			return
		}
		if isBytes(t) {
			v.Set(reflect.ValueOf([]byte(f.str())).Convert(t))
			return
		}
		n := f.size()
		if depth <= 0 {
			n = 0
		}
		s := reflect.MakeSlice(t, n, n)
		for i := 0; i < n; i++ {
			f.Fill(s.Index(i), depth-1)
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			if isBytes(t) {
				v.Index(i).SetUint(uint64("ab z:#-'\"\\\n\x00\t09~"[r.Intn(16)]))
				continue
			}
			f.Fill(v.Index(i), depth-1)
		}
	case reflect.Pointer:
		if r.P(20) || depth <= 0 {
			return
		}
		v.Set(reflect.New(t.Elem()))
		f.Fill(v.Elem(), depth-1)
	case reflect.Map:
		if r.P(15) {
			return
		}
		n := f.size()
		if depth <= 0 {
			n = 0
		}
		mp := reflect.MakeMap(t)
		for i := 0; i < n; i++ {
			k, e := reflect.New(t.Key()).Elem(), reflect.New(t.Elem()).Elem()
			f.Fill(k, depth-1)
			clean(k)
			f.Fill(e, depth-1)
			mp.SetMapIndex(k, e)
		}
		v.Set(mp)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			sf := t.Field(i)
			if !v.Field(i).CanSet() && !(sf.Anonymous && sf.Type.Kind() == reflect.Struct) {
				continue
			}
			f.Fill(v.Field(i), depth-1)
		}
	case reflect.Interface:
		if r.P(30) {
			return
		}
		f.iface(v)
	}
}

// size of a slice or map; once in a while in few values beyond the usual sizes of buffers and small counters.
func (f *Filler) size() int {
	if !f.sized {
		f.sized, f.large = true, f.R.Intn(250) == 0
	}
	if f.large && f.R.P(30) {
		f.large = false
		return 20 << f.R.Intn(5)
	}
	return f.R.Intn(4)
}

// Candidates of interface fields: pointers to values with both methods; set by the scratch driver.
var Candidates []func() any

// EngineCandidates of empty interfaces: values with the methods of the engine.
var EngineCandidates = map[string][]func() any{}

func (f *Filler) iface(v reflect.Value) {
	r := f.R
	if v.Type().NumMethod() > 0 || f.Engine == "yayamls" && r.P(70) || r.P(20) {
		from := Candidates
		if e := EngineCandidates[f.Engine]; len(e) > 0 && v.Type().NumMethod() == 0 && r.Bool() {
			from = e
		}
		c := core.Pick(r, from)()
		c.(RefCustom).RefRand(r, f.Boom > 0 && r.P(f.Boom))
		v.Set(reflect.ValueOf(c))
		return
	}
	if f.Engine == "yayamls" && f.Plain {
		return
	}
	v.Set(reflect.ValueOf(genAny(r, 2)))
}

func genAny(r *core.Rand, depth int) any {
	switch r.Intn(6) {
	case 0:
		return r.Bool()
	case 1:
		return int64(r.Intn(2000) - 1000)
	case 2:
		return float64(r.Intn(1000)) + 0.25
	case 3:
		if depth > 0 {
			out := []any{}
			for k := r.Intn(3); k > 0; k-- {
				out = append(out, genAny(r, depth-1))
			}
			return out
		}
	case 4:
		if depth > 0 {
			out := map[string]any{}
			for k := r.Intn(3); k > 0; k-- {
				out[props.GenTameString(r)] = genAny(r, depth-1)
			}
			return out
		}
	}
	return props.GenTameString(r)
}

// clean removes what cannot be looked up in a map again.
func clean(k reflect.Value) {
	switch k.Kind() {
	case reflect.Float32, reflect.Float64:
		if math.IsNaN(k.Float()) || k.Float() == 0 {
			k.SetFloat(1.5)
		}
	case reflect.Array:
		for i := 0; i < k.Len(); i++ {
			clean(k.Index(i))
		}
	case reflect.Struct:
		if k.Type() == timeType {
			k.Set(reflect.ValueOf(k.Interface().(time.Time).UTC()))
			return
		}
		for i := 0; i < k.NumField(); i++ {
			if k.Field(i).CanSet() {
				clean(k.Field(i))
			}
		}
	}
}
