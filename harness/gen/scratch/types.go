// Package scratch makes random packages of Go types, generates code for them with the generator of the tree under
// test and builds a driver which runs the monitors of package gen on the result.
package scratch

import (
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"verifharness/core"
	"verifharness/gen/model"
)

type strct struct {
	name   string
	target bool
	// usable by value and embedded/inlined only by structs with a higher index
	idx  int
	keys []string // with everything inlined, whatever the flags
	// names of fields, those of embedded structs included
	names []string
	hard  bool // has something that is not comparable or not embeddable
}

// Tgt is a type to generate code for.
type Tgt struct {
	Name   string
	Flags  model.Flags
	Phase  int
	Output string
}

// Pkg is a scratch package.
type Pkg struct {
	Dir, Name, Engine string
	Src               string
	Targets           []Tgt
	Command           bool // generated by the command
}

func (p *Pkg) Path() string { return "scratch/" + p.Dir }

type tg struct {
	r       *core.Rand
	engine  string
	dense   bool
	decls   strings.Builder
	structs []*strct
	named   []string // named non-struct types usable anywhere (no recursion by value)
	keysN   []string // named types usable as keys
	used    map[string]bool
	imports map[string]bool
	n       int
	cur     int // index of the struct being defined
}

func (g *tg) id() int { g.n++; return g.n }

var weird = []string{"null", "~", "true", "123", "-1.5", "-", "a b", "a: b", "# c", "it's", `say "x"`, "back\\slash", "ключ", "日本", "é", " lead",
	"trail ", "a\nb", "tab\there", "{x}", "[y]", "*star", "&amp", "!bang", "|", ">", "%pct", "@at", "`tick`", "?", ":", "yes", "0x1F", "1e3", ".inf", "---", "...", "a-b", "a.b", "2001-12-14", "x'y", "\"q\"", "x/y", "<", "=", "\u0007bell", "key", "in", "out", "\U0001F600"}

var digits = regexp.MustCompile(`[0-9]+`)

func (g *tg) key() string {
	for {
		var k string
		switch x := g.r.Intn(10); {
		case x < 3:
			k = core.Pick(g.r, weird)
		case x < 4:
			k = core.Pick(g.r, weird) + strconv.Itoa(g.id())
		default:
			k = core.Pick(g.r, []string{"name", "some_field", "camelCase", "kebab-key", "v"}) + strconv.Itoa(g.id())
		}
		if !g.used[k] {
			g.used[k] = true
			return k
		}
	}
}

func (g *tg) basic() string {
	return core.Pick(g.r, []string{"string", "string", "bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "rune", "byte"})
}

func (g *tg) custom() string {
	l := []string{"TextV", "TextP", "YamV", "YamP"}
	if g.engine == "yayamls" {
		l = append(l, "EngYaV", "EngYaP")
	} else {
		l = append(l, "EngGoV", "EngGoP")
	}
	n := core.Pick(g.r, l)
	if g.r.P(30) {
		g.imports["verifharness/gen/custom"] = true
		return "custom." + n
	}
	return n
}

// oddPaths are packages whose paths are no good names for an import.
var oddPaths = []string{"v1", "x/v2", "v4", "my-pkg", "lib.v3", "3d", "type", "key", "out", "a/same", "b/same", "c/same", "d/same", "e/same1", "yaml", "encode", "yamly", "string", "len"}

func (g *tg) foreign() string {
	if g.r.P(40) {
		k := g.r.Intn(len(oddPaths))
		path := "verifharness/gen/foreign/" + oddPaths[k]
		g.imports[path] = true
		return alias[path] + "." + core.Pick(g.r, []string{"P", "P", "Q"})
	}
	if g.r.P(10) {
		g.imports["verifharness/gen/foreign/time"] = true
		return "odd_time.Time"
	}
	if g.r.P(30) {
		g.imports["verifharness/gen/foreign/decode"] = true
		return "decode.Thing"
	}
	g.imports["verifharness/gen/foreign/v2"] = true
	return "foreign." + core.Pick(g.r, []string{"Point", "Box", "Level"})
}

var alias = map[string]string{"verifharness/gen/foreign/time": "odd_time", "verifharness/gen/foreign/v2": "foreign"}

func init() {
	for k, p := range oddPaths {
		alias["verifharness/gen/foreign/"+p] = fmt.Sprintf("odd_%d", k)
	}
}

func (g *tg) mapKey() string {
	switch g.r.Intn(16) {
	case 0, 1, 2, 3:
		return "string"
	case 4:
		return "int"
	case 5:
		return core.Pick(g.r, []string{"uint", "uint8", "int64", "int16"})
	case 6:
		return "bool"
	case 7:
		return "float64"
	case 8:
		return "[2]int8"
	case 9:
		return fmt.Sprintf("struct { A%d int; B%d string %s }", g.id(), g.id(), g.tag(g.key(), ""))
	case 10:
		return "TextP"
	case 11:
		return "YamP"
	case 12:
		g.imports["time"] = true
		return "time.Time"
	case 13:
		g.imports["verifharness/gen/foreign/v2"] = true
		return "foreign.Level"
	case 14:
		g.imports["verifharness/gen/custom"] = true
		return "custom.TextP"
	default:
		if len(g.keysN) > 0 {
			return core.Pick(g.r, g.keysN)
		}
		return "string"
	}
}

// typ is a type expression; behind says whether it stands behind a pointer, a slice or a map.
func (g *tg) typ(depth int, behind bool) string {
	r := g.r
	if g.dense && r.P(25) {
		return g.custom()
	}
	k := r.Intn(32)
	if depth <= 0 && k >= 16 {
		k = r.Intn(16)
	}
	switch {
	case k < 6:
		return g.basic()
	case k < 8:
		if len(g.named) > 0 {
			return core.Pick(r, g.named)
		}
		return g.basic()
	case k < 9:
		g.imports["time"] = true
		return "time.Time"
	case k < 10:
		return core.Pick(r, []string{"[]byte", "[]byte", fmt.Sprintf("[%d]byte", core.Pick(r, []int{1, 2, 3, 4, 4, 33, 300}))})
	case k < 11:
		return core.Pick(r, []string{"any", "interface{}", "Iface"})
	case k < 12:
		return g.custom()
	case k < 13:
		return g.foreign()
	case k < 16:
		var l []string
		for _, s := range g.structs {
			if s.idx < g.cur || behind {
				l = append(l, s.name)
			}
		}
		if len(l) == 0 {
			return g.basic()
		}
		return core.Pick(r, l)
	case k < 20:
		if r.P(6) {
			return "[]" + g.long()
		}
		return "[]" + g.typ(depth-1, true)
	case k < 22:
		if r.P(12) {
			return g.long()
		}
		return fmt.Sprintf("[%d]%s", r.Intn(4), g.typ(depth-1, behind))
	case k < 26:
		return "map[" + g.mapKey() + "]" + g.typ(depth-1, true)
	case k < 30:
		for {
			t := g.typ(depth-1, true)
			if !strings.HasPrefix(t, "*") && t != "any" && t != "interface{}" && t != "Iface" {
				return "*" + t
			}
		}
	default:
		return g.anon(depth-1, behind)
	}
}

func (g *tg) tag(name, opts string) string {
	t := `yaml:` + strconv.Quote(name+opts)
	if g.r.P(15) {
		t = `json:"other,omitempty" ` + t
	} else if g.r.P(10) {
		t += ` xml:"-"`
	}
	if strings.Contains(t, "`") || g.r.P(30) {
		return strconv.Quote(t)
	}
	return "`" + t + "`"
}

func (g *tg) long() string {
	return fmt.Sprintf("[%d]%s", core.Pick(g.r, []int{10, 64, 100, 128}), core.Pick(g.r, []string{"bool", "int8", "uint16", "float32"}))
}

func (g *tg) anon(depth int, behind bool) string {
	var fs []string
	if g.cur > 0 && g.r.P(30) {
		if o := g.structs[g.r.Intn(g.cur)]; !o.target {
			ptr, tag := "", ""
			exported := o.name[0] >= 'A' && o.name[0] <= 'Z'
			if exported && g.r.P(40) {
				ptr = "*"
			}
			switch g.r.Intn(5) {
			case 0:
				tag = g.tag("", ",inline")
			case 1:
				tag = g.tag("-", "")
			case 2:
				if exported {
					tag = g.tag(g.key(), "")
				}
			}
			fs = append(fs, strings.TrimSpace(ptr+o.name+" "+tag))
		}
	}
	for k := g.r.Intn(4); k > 0; k-- {
		f, _ := g.field(depth, behind)
		fs = append(fs, f)
	}
	return "struct { " + strings.Join(fs, "; ") + " }"
}

// field is a plain field and its key ("" if it has none).
func (g *tg) field(depth int, behind bool) (string, string) {
	r := g.r
	n := g.id()
	name := fmt.Sprintf(core.Pick(r, []string{"F%d", "F%d", "Field%d", "X%dy", "Ünï%d", "URL%dPath", "F_%d"}), n)
	t := g.typ(depth, behind)
	switch r.Intn(12) {
	case 0:
		return fmt.Sprintf("f%d %s", n, t), ""
	case 1:
		return fmt.Sprintf("%s %s %s", name, t, g.tag("-", "")), ""
	case 2, 3:
		return fmt.Sprintf("%s %s", name, t), name
	case 4:
		return fmt.Sprintf("%s %s %s", name, t, g.tag("", ",omitempty")), name
	case 5:
		k := g.key()
		return fmt.Sprintf("f%d %s %s", n, t, g.tag(k, "")), "" // unexported with a tag
	case 6, 7, 8:
		k := g.key()
		opt := ",omitempty"
		if r.P(15) {
			opt = core.Pick(r, []string{",flow,omitempty", ",omitempty,flow", ",,omitempty"})
		}
		return fmt.Sprintf("%s %s %s", name, t, g.tag(k, opt)), k
	default:
		k := g.key()
		return fmt.Sprintf("%s %s %s", name, t, g.tag(k, core.Pick(r, []string{"", "", "", ",", ",flow", ",omitzero", ",omit", ",Omitempty", ", omitempty", ",string,inlined"}))), k
	}
}

func overlap(a, b []string) bool {
	m := map[string]bool{}
	for _, x := range a {
		m[x] = true
	}
	for _, x := range b {
		if m[x] {
			return true
		}
	}
	return false
}

func (g *tg) define(s *strct) {
	r := g.r
	g.cur = s.idx
	var fs []string
	var inl []string // keys of inlined structs
	embedded := map[string]bool{}
	var hideable []string
	if s.idx > 0 && r.P(45) {
		for k := r.Range(1, 2); k > 0; k-- {
			o := g.structs[r.Intn(s.idx)]
			if o.target || embedded[o.name] || overlap(inl, o.keys) {
				continue
			}
			lower := o.name[0] >= 'a' && o.name[0] <= 'z'
			embedded[o.name] = true
			hideable = append(hideable, o.names...)
			inl = append(inl, o.keys...)
			ptr := ""
			if !lower && r.P(40) {
				ptr = "*"
			}
			tag := ""
			switch r.Intn(6) {
			case 0:
				tag = g.tag("", ",inline")
			case 1:
				if !lower {
					k := g.key()
					tag = g.tag(k, "")
					s.keys = append(s.keys, k)
				}
			case 2:
				tag = g.tag("-", "")
			}
			fs = append(fs, strings.TrimSpace(ptr+o.name+" "+tag))
			if !lower {
				s.keys = append(s.keys, o.name)
			}
		}
	}
	if len(g.named) > 0 && r.P(25) { // an embedded type that is no struct is a field under its name
		n := core.Pick(r, g.named)
		key, tag := n, ""
		switch r.Intn(5) {
		case 0:
			key = g.key()
			tag = g.tag(key, "")
		case 1:
			tag = g.tag("", ",omitempty")
		case 2:
			tag, key = g.tag("-", ""), ""
		}
		fs = append(fs, strings.TrimSpace(core.Pick(r, []string{"", "", "*"})+n+" "+tag))
		if key != "" {
			s.keys = append(s.keys, key)
		}
	}
	if r.P(15) { // anonymous structs which differ in tags only
		t, n := g.basic(), g.id()
		for k := r.Range(2, 3); k > 0; k-- {
			key := g.key()
			tag := ""
			if k < 3 {
				tag = " " + g.tag(g.key(), core.Pick(r, []string{"", "", ",omitempty"}))
			}
			fs = append(fs, fmt.Sprintf("F%d %sstruct { A%d %s%s } %s", g.id(), core.Pick(r, []string{"", "", "*", "[]", "map[string]"}), n, t, tag, g.tag(key, "")))
			s.keys = append(s.keys, key)
		}
	}
	nf := r.Range(1, 6)
	if r.P(4) {
		nf = r.Range(18, 70)
	}
	for k := nf; k > 0; k-- {
		if s.idx > 0 && r.P(12) {
			o := g.structs[r.Intn(s.idx)]
			if !overlap(inl, o.keys) {
				inl = append(inl, o.keys...)
				fs = append(fs, fmt.Sprintf("F%d %s%s %s", g.id(), core.Pick(r, []string{"", "*"}), o.name, g.tag("", ",inline")))
				continue
			}
		}
		f, key := g.field(3, false)
		fs = append(fs, f)
		if key != "" {
			s.keys = append(s.keys, key)
			name, _, _ := strings.Cut(f, " ")
			s.names = append(s.names, name)
		}
	}
	if len(hideable) > 0 && r.P(40) { // hides the field of an embedded struct, not its key
		k := g.key()
		s.names = append(s.names, core.Pick(r, hideable))
		fs = append(fs, fmt.Sprintf("%s %s %s", s.names[len(s.names)-1], g.typ(2, false), g.tag(k, core.Pick(r, []string{"", "", ",omitempty"}))))
		s.keys = append(s.keys, k)
	}
	s.names = append(s.names, hideable...)
	if len(inl) > 0 && r.P(25) { // takes precedence over the inlined one
		sort.Strings(inl)
		k := core.Pick(r, inl)
		if !overlap([]string{k}, s.keys) {
			fs = append(fs, fmt.Sprintf("F%d %s %s", g.id(), g.basic(), g.tag(k, "")))
			s.keys = append(s.keys, k)
		}
	}
	core.Shuffle(r, fs)
	s.keys = append(s.keys, inl...)
	fmt.Fprintf(&g.decls, "type %s struct {\n\t%s\n}\n\n", s.name, strings.Join(fs, "\n\t"))
}

// Make makes a package.
func Make(r *core.Rand, no int, engine string, dense bool) *Pkg {
	g := &tg{r: r, engine: engine, dense: dense, used: map[string]bool{}, imports: map[string]bool{}}
	p := &Pkg{Engine: engine, Dir: fmt.Sprintf("p%02d", no), Name: fmt.Sprintf("p%02d", no)}
	if r.P(20) {
		p.Name = "other" + p.Name
	}
	ns := r.Range(3, 6)
	for i := 0; i < ns; i++ {
		s := &strct{name: fmt.Sprintf("S%d", i), idx: i}
		switch {
		case i == ns-1 || r.P(35):
			s.target = true
			s.name = fmt.Sprintf(core.Pick(r, []string{"T%d", "Target%dType", "HTTPThing%d", "t%dlower", "Ünicode%d", "T_%d"}), i)
		case r.P(25):
			s.name = fmt.Sprintf("s%d", i)
		}
		if i > 0 && r.P(20) { // a name which differs from another one only in what can't be part of a word
			prev := g.structs[r.Intn(i)]
			name := digits.ReplaceAllString(prev.name, "_$0")
			if !s.target && !prev.target && r.Bool() {
				name = strings.ToLower(prev.name[:1]) + prev.name[1:]
			}
			free := true
			for _, o := range g.structs {
				free = free && o.name != name
			}
			if free && !strings.Contains(name, "__") {
				s.name = name
			}
		}
		g.structs = append(g.structs, s)
	}
	// named types that are no structs; targets may refer to any struct
	g.cur = -1
	for k := r.Range(1, 4); k > 0; k-- {
		n := fmt.Sprintf("N%d", g.id())
		switch r.Intn(8) {
		case 0, 1, 2:
			b := g.basic()
			fmt.Fprintf(&g.decls, "type %s %s\n\n", n, b)
			g.keysN = append(g.keysN, n)
		case 3:
			fmt.Fprintf(&g.decls, "type %s []byte\n\n", n)
		case 4:
			fmt.Fprintf(&g.decls, "type %s []%s\n\n", n, g.typ(1, true))
		case 5:
			fmt.Fprintf(&g.decls, "type %s map[%s]%s\n\n", n, g.mapKey(), g.typ(1, true))
		case 6:
			fmt.Fprintf(&g.decls, "type %s [%d]%s\n\n", n, r.Range(1, 3), g.basic())
		default:
			fmt.Fprintf(&g.decls, "type %s uint8\n\ntype %ss []%s\n\n", n, n, n)
			g.named = append(g.named, n+"s")
		}
		g.named = append(g.named, n)
	}
	for _, s := range g.structs {
		g.define(s)
	}
	flags := func() model.Flags {
		return model.Flags{Omitempty: r.P(30), Disallow: r.P(35), PtrRecv: r.P(40), Inline: r.P(50)}
	}
	for _, s := range g.structs {
		if s.target {
			p.Targets = append(p.Targets, Tgt{Name: s.name, Flags: flags()})
		}
	}
	// a target that is no struct
	if r.P(60) {
		n := "Root" + strconv.Itoa(g.id())
		g.cur = len(g.structs)
		var t string
		switch r.Intn(8) {
		case 0:
			t = g.basic()
		case 1:
			t = "[]byte"
		case 2, 3:
			t = "[]" + g.typ(2, true)
		case 4:
			t = fmt.Sprintf("[%d]%s", core.Pick(r, []int{1, 2, 3, 3, 20}), g.typ(2, true))
		case 5:
			t = "[]*" + g.structs[len(g.structs)-1].name
		default:
			t = "map[" + g.mapKey() + "]" + g.typ(2, true)
		}
		fmt.Fprintf(&g.decls, "type %s %s\n\n", n, t)
		p.Targets = append(p.Targets, Tgt{Name: n, Flags: flags()})
	}
	for i := range p.Targets {
		t := &p.Targets[i]
		t.Output = fmt.Sprintf("t%d_yamly.go", i)
		if i > 0 && r.P(40) {
			t.Phase = 1
		}
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s\n\n", p.Name)
	var imps []string
	for i := range g.imports {
		imps = append(imps, i)
	}
	sort.Strings(imps)
	for _, i := range imps {
		fmt.Fprintf(&sb, "import %s %q\n", alias[i], i)
	}
	for _, i := range imps { // types made may have been dropped again
		of := map[string]string{"time": "time.Time", "verifharness/gen/custom": "custom.TextV",
			"verifharness/gen/foreign/decode": "decode.Thing", "verifharness/gen/foreign/v2": "foreign.Point", "verifharness/gen/foreign/time": "odd_time.Time"}[i]
		if of == "" {
			of = alias[i] + ".P"
		}
		fmt.Fprintf(&sb, "type _ = %s\n", of)
	}
	sb.WriteString("\n" + g.decls.String())
	p.Src = sb.String()
	return p
}
