package props

import (
	"encoding/base64"
	"math"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	goschema "github.com/KSpaceer/yamly/engines/goyaml/schema"
	"github.com/KSpaceer/yamly/engines/pkg/schema"
	"github.com/KSpaceer/yamly/engines/yayamls/ast"
	yaschema "github.com/KSpaceer/yamly/engines/yayamls/schema"
	"github.com/KSpaceer/yamly/engines/yayamls/token"
	"github.com/KSpaceer/yamly/engines/yayamls/yamlchar"
	"gopkg.in/yaml.v3"

	"verifharness/core"
)

var edgeRunes = []rune{0, 1, 7, 8, 9, 0xA, 0xB, 0xC, 0xD, 0xE, 0x1A, 0x1B, 0x1F, ' ', '!', '"', '#', '%', '&', '\'', '*', '+', ',', '-', '.', '/', '0', '7', '8', '9', ':', ';', '<', '=', '>', '?', '@',
	'A', 'F', 'G', 'L', 'N', 'P', 'U', 'Z', '[', '\\', ']', '^', '_', '`', 'a', 'b', 'e', 'f', 'g', 'n', 'r', 't', 'u', 'v', 'x', 'z', '{', '|', '}', '~', 0x7F, 0x80, 0x84, 0x85, 0x86, 0x9F, 0xA0, 0xA1, 0xFF,
	0x100, 0x2027, 0x2028, 0x2029, 0x202A, 0xD7FF, 0xE000, 0xFDD0, 0xFEFE, 0xFEFF, 0xFFFC, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x1F600, 0x10FFFE, 0x10FFFF}

func edgeRune(r *core.Rand) rune {
	switch r.Intn(5) {
	case 0:
		return rune(r.Range(0x20, 0x7E))
	case 1:
		for {
			x := rune(r.Intn(0x110000))
			if utf8.ValidRune(x) {
				return x
			}
		}
	default:
		return core.Pick(r, edgeRunes)
	}
}

func edgeString(r *core.Rand, max int) string {
	var sb strings.Builder
	for k := r.Intn(max + 1); k > 0; k-- {
		sb.WriteRune(edgeRune(r))
	}
	return sb.String()
}

// refUnescape decodes the body of a double quoted scalar of one line, by the specification.
func refUnescape(s string) (string, bool) {
	var sb strings.Builder
	rs := []rune(s)
	for i := 0; i < len(rs); i++ {
		x := rs[i]
		switch {
		case x == '"':
			return "", false
		case x != '\\':
			if x != '\t' && x < 0x20 {
				return "", false
			}
			sb.WriteRune(x)
			continue
		}
		i++
		if i == len(rs) {
			return "", false
		}
		if n := map[rune]int{'x': 2, 'u': 4, 'U': 8}[rs[i]]; n > 0 {
			if i+n >= len(rs) {
				return "", false
			}
			h := string(rs[i+1 : i+1+n])
			for _, d := range h {
				if !strings.ContainsRune("0123456789abcdefABCDEF", d) {
					return "", false
				}
			}
			v, _ := strconv.ParseUint(h, 16, 64)
			y := rune(utf8.RuneError)
			if v <= 0x10FFFF && utf8.ValidRune(rune(v)) {
				y = rune(v)
			}
			sb.WriteRune(y)
			i += n
			continue
		}
		y, ok := map[rune]rune{'0': 0, 'a': 7, 'b': 8, 't': 9, '\t': 9, 'n': 10, 'v': 11, 'f': 12, 'r': 13, 'e': 27, ' ': ' ', '"': '"', '/': '/', '\\': '\\', 'N': 0x85, '_': 0xA0, 'L': 0x2028, 'P': 0x2029}[rs[i]]
		if !ok {
			return "", false
		}
		sb.WriteRune(y)
	}
	return sb.String(), true
}

func refUnquote(s string) (string, bool) {
	var sb strings.Builder
	rs := []rune(s)
	for i := 0; i < len(rs); i++ {
		if rs[i] == '\'' {
			i++
			if i == len(rs) || rs[i] != '\'' {
				return "", false
			}
		}
		if rs[i] != '\t' && rs[i] < 0x20 {
			return "", false
		}
		sb.WriteRune(rs[i])
	}
	return sb.String(), true
}

const (
	wordChars = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz-"
	tagChars  = wordChars + "#;/?:@&=+$_.~*'()"
	uriChars  = wordChars + "#;/?:@&=+$,_.!~*'()[]"
)

// refURI tells whether s consists of the characters of set and of percent escapes.
// The set of the code leaves out parentheses and lets braces in; texts with these are not judged.
func refURI(s, set string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] == '%' {
			if i+2 >= len(s) || !strings.Contains("0123456789abcdefABCDEF", s[i+1:i+2]) || !strings.Contains("0123456789abcdefABCDEF", s[i+2:i+3]) {
				return false
			}
			i += 2
			continue
		}
		if !strings.Contains(set, s[i:i+1]) {
			return false
		}
	}
	return true
}

func only(s, set string) bool {
	return strings.Trim(s, set) == "" && strings.IndexFunc(s, func(x rune) bool { return !strings.ContainsRune(set, x) }) < 0
}

func chars(c *core.Ctx, i int) {
	r := c.R
	// 1. quoting is undone by unquoting
	s := edgeString(r, 12)
	c.Input(strconv.QuoteToASCII(s))
	if len(s) > 0 {
		c.NonTrivial()
	}
	q, err := yamlchar.ConvertToYAMLDoubleQuotedString(s)
	if err != nil {
		c.Fail("to-double", "%q cannot be double quoted: %v", s, err)
		return
	}
	if !yamlchar.IsDoubleQuotedString(q) || !yamlchar.ConformsCharSet(q, yamlchar.DoubleQuotedCharSetType) {
		c.Fail("to-double", "%q is double quoted as %q, which is not a double quoted string", s, q)
	}
	for _, x := range q {
		if x == '\n' || x == '\r' || x == 0x85 || x == 0x2028 || x == 0x2029 || x == 0xFEFF || x < 0x20 && x != '\t' || x == 0x7F || x >= 0x80 && x < 0xA0 || x == 0xFFFE || x == 0xFFFF {
			c.Fail("to-double", "%q is double quoted as %q, which holds a character that cannot be written as it is", s, q)
		}
	}
	if back, err := yamlchar.ConvertFromYAMLDoubleQuotedString(q); err != nil || back != s {
		c.Fail("double-inverse", "%q is double quoted as %q, which reads as %q, %v", s, q, back, err)
	}
	if want, ok := refUnescape(q); !ok || want != s {
		c.Fail("to-double", "%q is double quoted as %q, which means %q", s, q, want)
	}
	c.Ev("double-quoted")
	if yamlchar.CanBeSingleQuoted(s) {
		q, err := yamlchar.ConvertToYAMLSingleQuotedString(s)
		if err != nil || !yamlchar.IsSingleQuotedString(q) {
			c.Fail("to-single", "%q is single quoted as %q, %v", s, q, err)
		}
		if back, err := yamlchar.ConvertFromYAMLSingleQuotedString(q); err != nil || back != s {
			c.Fail("single-inverse", "%q is single quoted as %q, which reads as %q, %v", s, q, back, err)
		}
		if want, ok := refUnquote(q); !ok || want != s {
			c.Fail("to-single", "%q is single quoted as %q, which means %q", s, q, want)
		}
		c.Ev("single-quoted")
	}
	// 2. unquoting and classification of any text
	var t string
	switch r.Intn(4) {
	case 0:
		t = edgeString(r, 6)
	case 1: // around escapes
		for k := r.Range(1, 4); k > 0; k-- {
			switch r.Intn(4) {
			case 0:
				t += `\` + string(edgeRune(r))
			case 1:
				t += `\` + core.Pick(r, []string{"x", "u", "U"}) + hexish(r, core.Pick(r, []int{1, 2, 3, 4, 5, 7, 8, 9}))
			case 2:
				t += `\` + core.Pick(r, []string{"x4a", "u263A", "U0001F600", "uD800", "U00110000", "UFFFFFFFF", "U80000041", "x00", "xff", "uFEFF", "U0010FFFF"})
			default:
				t += edgeString(r, 2)
			}
		}
	case 2:
		for k := r.Intn(7); k > 0; k-- {
			t += core.Pick(r, []string{"'", "''", "a", "\"", "\t", "\n", "é"})
		}
	default: // around the sets of tags
		for k := r.Intn(7); k > 0; k-- {
			t += core.Pick(r, []string{"a", "Z", "0", "9", "-", "#", ";", "/", "?", ":", "@", "&", "=", "+", "$", ",", "_", ".", "!", "~", "*", "'", "[", "]", "%4a", "%zz", "%", "%a", "%G1", " ", "é", "\"", "<", ">", "^", "`", "|", "\\", "\u212a", "١"})
		}
	}
	want, ok := refUnescape(t)
	got, err := yamlchar.ConvertFromYAMLDoubleQuotedString(t)
	if ok != (err == nil) || ok && got != want {
		c.Fail("from-double", "the double quoted text %q reads as %q, %v, want %q, %v", t, got, err, want, ok)
	}
	if yamlchar.IsDoubleQuotedString(t) != ok {
		c.Fail("is-double", "IsDoubleQuotedString(%q) = %v", t, !ok)
	}
	if ok {
		c.Ev("escapes-read")
	} else {
		c.Ev("escapes-refused")
	}
	want, ok = refUnquote(t)
	got, err = yamlchar.ConvertFromYAMLSingleQuotedString(t)
	if ok != (err == nil) || ok && got != want {
		c.Fail("from-single", "the single quoted text %q reads as %q, %v, want %q, %v", t, got, err, want, ok)
	}
	if yamlchar.IsSingleQuotedString(t) != ok {
		c.Fail("is-single", "IsSingleQuotedString(%q) = %v", t, !ok)
	}
	judge := func(name string, got, want bool, set yamlchar.CharSetType) {
		if got != want {
			c.Fail("class", "%s(%q) = %v", name, t, got)
		}
		if yamlchar.ConformsCharSet(t, set) != want {
			c.Fail("class", "ConformsCharSet(%q) = %v for the set of %s", t, !want, name)
		}
		tok := token.Token{Type: token.StringType, Origin: t}
		for k := r.Intn(3); k >= 0; k-- {
			if tok.ConformsCharSet(set) != want {
				c.Fail("class", "Token.ConformsCharSet(%q) = %v for the set of %s", t, !want, name)
			}
		}
		if want {
			c.Ev("class:" + name)
		} else {
			c.Ev("not-class:" + name)
		}
	}
	judge("IsDecimal", yamlchar.IsDecimal(t), only(t, "0123456789"), yamlchar.DecimalCharSetType)
	judge("IsWord", yamlchar.IsWord(t), only(t, wordChars), yamlchar.WordCharSetType)
	judge("IsPlainSafeString", yamlchar.IsPlainSafeString(t), !strings.ContainsAny(t, ",[]{}"), yamlchar.PlainSafeCharSetType)
	if !strings.ContainsAny(t, "(){}") {
		judge("IsURI", yamlchar.IsURI(t), refURI(t, uriChars), yamlchar.URICharSetType)
		judge("IsTagString", yamlchar.IsTagString(t), refURI(t, tagChars), yamlchar.TagCharSetType)
	}
}

func hexish(r *core.Rand, n int) string {
	var sb strings.Builder
	for ; n > 0; n-- {
		sb.WriteString(core.Pick(r, []string{"0", "1", "9", "a", "F", "d", "8", "0", "0", "2"}))
		if r.P(3) {
			sb.WriteString(core.Pick(r, []string{"g", " ", "\"", "\\", "é", "-"}))
		}
	}
	return sb.String()
}

// schemas judges the conversions both engines share, through the packages of both.
func schemas(c *core.Ctx, i int) {
	r := c.R
	type conv struct {
		name          string
		isI, isU      func(string) bool
		isF, isB, isT func(string) bool
		isN           func(string) bool
		fI            func(int64) string
		tI            func(string, int) (int64, error)
		fU            func(uint64) string
		tU            func(string, int) (uint64, error)
		fF            func(float64) string
		tF            func(string, int) (float64, error)
		fB            func(bool) string
		tB            func(string) (bool, error)
		fT            func(time.Time) string
		tT            func(string) (time.Time, error)
	}
	ya := func(f func(ast.Node) bool) func(string) bool {
		return func(s string) bool { return f(ast.NewTextNode(s)) }
	}
	gy := func(f func(*yaml.Node) bool) func(string) bool {
		return func(s string) bool { return f(&yaml.Node{Kind: yaml.ScalarNode, Value: s}) }
	}
	convs := []conv{
		{"pkg", schema.IsInteger, schema.IsUnsignedInteger, schema.IsFloat, schema.IsBoolean, schema.IsTimestamp, schema.IsNull, schema.FromInteger, schema.ToInteger, schema.FromUnsignedInteger, schema.ToUnsignedInteger, schema.FromFloat, schema.ToFloat, schema.FromBoolean, schema.ToBoolean, schema.FromTimestamp, schema.ToTimestamp},
		{"yayamls", ya(yaschema.IsInteger), ya(yaschema.IsUnsignedInteger), ya(yaschema.IsFloat), ya(yaschema.IsBoolean), ya(yaschema.IsTimestamp), ya(yaschema.IsNull), yaschema.FromInteger, yaschema.ToInteger, yaschema.FromUnsignedInteger, yaschema.ToUnsignedInteger, yaschema.FromFloat, yaschema.ToFloat, yaschema.FromBoolean, yaschema.ToBoolean, yaschema.FromTimestamp, yaschema.ToTimestamp},
		{"goyaml", gy(goschema.IsInteger), gy(goschema.IsUnsignedInteger), gy(goschema.IsFloat), gy(goschema.IsBoolean), gy(goschema.IsTimestamp), gy(goschema.IsNull), goschema.FromInteger, goschema.ToInteger, goschema.FromUnsignedInteger, goschema.ToUnsignedInteger, goschema.FromFloat, goschema.ToFloat, goschema.FromBoolean, goschema.ToBoolean, goschema.FromTimestamp, goschema.ToTimestamp},
	}
	v := convs[i%3]
	c.Ev("package:" + v.name)
	// exactly one of the core kinds is claimed for the text of a value (integers are floats too)
	one := func(s string, n, b, in, u, f, t bool) {
		c.Input(v.name + " " + s)
		for _, x := range []struct {
			n         string
			got, want bool
		}{{"IsNull", v.isN(s), n}, {"IsBoolean", v.isB(s), b}, {"IsInteger", v.isI(s), in}, {"IsUnsignedInteger", v.isU(s), u}, {"IsFloat", v.isF(s), f}, {"IsTimestamp", v.isT(s), t}} {
			if x.got != x.want {
				c.Fail("kind", "%s: %s(%q) = %v", v.name, x.n, s, x.got)
			}
		}
	}
	c.NonTrivial()
	if r.P(10) {
		otherNodes(c)
		return
	}
	switch r.Intn(6) {
	case 0:
		x := edgeInt(r)
		s := v.fI(x)
		c.Ev("from:integer")
		one(s, false, false, true, x >= 0, true, false)
		for _, b := range []int{8, 16, 32, 64} {
			fits := b == 64 || x >= -(1<<(b-1)) && x < 1<<(b-1)
			got, err := v.tI(s, b)
			if fits != (err == nil) || fits && got != x {
				c.Fail("integer", "%s: ToInteger(%q, %d) = %d, %v", v.name, s, b, got, err)
			}
		}
	case 1:
		x := uint64(edgeInt(r))
		s := v.fU(x)
		c.Ev("from:unsigned")
		one(s, false, false, true, true, true, false)
		for _, b := range []int{8, 16, 32, 64} {
			fits := b == 64 || x < 1<<b
			got, err := v.tU(s, b)
			if fits != (err == nil) || fits && got != x {
				c.Fail("unsigned", "%s: ToUnsignedInteger(%q, %d) = %d, %v", v.name, s, b, got, err)
			}
		}
	case 2:
		x := edgeFloat(r)
		s := v.fF(x)
		c.Ev("from:float")
		one(s, false, false, false, false, true, false)
		got, err := v.tF(s, 64)
		if err != nil || math.Float64bits(got) != math.Float64bits(x) && !(got != got && x != x) {
			c.Fail("float", "%s: ToFloat(%q, 64) = %v, %v, want %v", v.name, s, got, err, x)
		}
		want := float32(x)
		got, err = v.tF(s, 32)
		if over := math.IsInf(float64(want), 0) && !math.IsInf(x, 0); over != (err != nil) || !over && float32(got) != want && want == want {
			c.Fail("float", "%s: ToFloat(%q, 32) = %v, %v, want %v", v.name, s, got, err, want)
		}
	case 3:
		x := r.Bool()
		s := v.fB(x)
		c.Ev("from:boolean")
		one(s, false, true, false, false, false, false)
		if got, err := v.tB(s); err != nil || got != x {
			c.Fail("boolean", "%s: ToBoolean(%q) = %v, %v", v.name, s, got, err)
		}
	case 4:
		x := edgeTime(r)
		s := v.fT(x)
		c.Ev("from:timestamp")
		one(s, false, false, false, false, false, true)
		_, wo := x.Zone()
		got, err := v.tT(s)
		_, g := got.Zone()
		if err != nil || !got.Equal(x) || g != wo {
			c.Fail("timestamp", "%s: ToTimestamp(%q) = %v, %v, want %v", v.name, s, got, err, x)
		}
	default:
		// what no conversion accepts is no kind, and the other way round
		s := core.Pick(r, []string{"", "~", "null", "Null", "nULL", "true", "True", "TRUE", "tRUE", "yes", "on", "y", "false", "0", "-0", "+0", "00", "007", "0o7", "0o8", "0O7", "0x1F", "0xG", "0X1", "-0x1", "+0o1", "0b1", "1_000", "1 ", " 1", "1\n", "+", "-", ".", "..", "+.", "-.", "e5", "1e", "1e+", ".e1", "1.", ".5", "-.5e3", "1.5.2", "1e5", "1E-400", "1e400",
			".inf", "-.inf", "+.Inf", ".INF", ".iNf", "inf", "Inf", "Infinity", "+inf", "nan", ".nan", ".NaN", ".NAN", "-.nan", ".Nan", "NaN", "0x1p-2", "١", "2001-12-14", "2001-12-14t21:59:43.10-05:00", "2001-12-14 21:59:43", "2001-13-14", "12:30", "99999999999999999999", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "<<", "=="})
		if r.P(50) {
			s = genScalarText(r).s
			if r.P(20) {
				s = genTimeText(r).s
			}
		}
		if r.P(30) && s != "" {
			b := []byte(s)
			b[r.Intn(len(b))] = core.Pick(r, []byte("0189+-.eExoXnN_ :~"))
			s = string(b)
		}
		c.Input(v.name + " " + s)
		c.Ev("any-text")
		_, isInt := refInt(s)
		_, isBool := refBool(s)
		_, _, fk := refFloat(s)
		one2 := func(name string, got, want bool) {
			if got != want {
				c.Fail("kind", "%s: %s(%q) = %v", v.name, name, s, got)
			}
		}
		one2("IsInteger", v.isI(s), isInt)
		one2("IsUnsignedInteger", v.isU(s), isInt && s[0] != '-')
		one2("IsFloat", v.isF(s), fk != 0)
		one2("IsBoolean", v.isB(s), isBool)
		// a text of a long row of digits is refused as out of range before its end is looked at
		I, errI := v.tI(s, 64)
		if in, rang := v.isI(s), errI != nil && strings.Contains(errI.Error(), "out of range") && isInt; in != (errI == nil || rang) {
			c.Fail("integer", "%s: IsInteger(%q) = %v, ToInteger = %d, %v", v.name, s, in, I, errI)
		}
		U, errU := v.tU(s, 64)
		if in, rang := v.isU(s), errU != nil && strings.Contains(errU.Error(), "out of range") && isInt && s[0] != '-'; in != (errU == nil || rang) {
			c.Fail("unsigned", "%s: IsUnsignedInteger(%q) = %v, ToUnsignedInteger = %d, %v", v.name, s, in, U, errU)
		}
		if errI == nil && I >= 0 && errU == nil && uint64(I) != U || errI == nil && I < 0 && errU == nil {
			c.Fail("integer", "%s: %q is %d as integer and %d as unsigned", v.name, s, I, U)
		}
		B, errB := v.tB(s)
		if v.isB(s) != (errB == nil) {
			c.Fail("boolean", "%s: IsBoolean(%q) = %v, ToBoolean = %v, %v", v.name, s, v.isB(s), B, errB)
		}
		T, errT := v.tT(s)
		if v.isT(s) != (errT == nil) {
			c.Fail("timestamp", "%s: IsTimestamp(%q) = %v, ToTimestamp = %v, %v", v.name, s, v.isT(s), T, errT)
		}
		F, errF := v.tF(s, 64)
		if in := v.isF(s); in && errF != nil && !strings.Contains(errF.Error(), "out of range") {
			c.Fail("float", "%s: IsFloat(%q), but ToFloat = %v, %v", v.name, s, F, errF)
		}
		// the three packages agree
		for _, w := range convs {
			if w.isI(s) != v.isI(s) || w.isU(s) != v.isU(s) || w.isF(s) != v.isF(s) || w.isB(s) != v.isB(s) || w.isT(s) != v.isT(s) {
				c.Fail("packages-differ", "%s and %s classify %q differently", v.name, w.name, s)
			}
		}
	}
}

func edgeInt(r *core.Rand) int64 {
	switch r.Intn(4) {
	case 0:
		return int64(r.U64())
	case 1:
		return int64(r.Range(-300, 300))
	default:
		x := int64(1) << uint(r.Intn(64))
		x += int64(r.Range(-2, 2))
		if r.Bool() {
			x = -x
		}
		return x
	}
}

// otherNodes: nodes which are no scalars are of no scalar kind; merge keys, binaries and quoted nulls.
func otherNodes(c *core.Ctx) {
	r := c.R
	s := core.Pick(r, []string{"<<", "1", "true", "null", "~", "1.5", "2001-01-01", "", "QUJD", "QUI=", "QQ==", "QUJ", "Q", "QU JD", "QUJD\nRUZH", "QUJD\nRUZ", "A===", "+/+/", "-_-_", "<< ", "<<<", "=", "<"})
	yes := func(name string, got, want bool) {
		if got != want {
			c.Fail("kind", "%s = %v for %q", name, got, s)
		}
	}
	switch r.Intn(3) {
	case 0:
		c.Ev("node-that-is-no-scalar")
		kids := []ast.Node{ast.NewTextNode(s)}
		for _, n := range []ast.Node{ast.NewSequenceNode(kids), ast.NewSequenceNode(nil), ast.NewMappingNode([]ast.Node{ast.NewMappingEntryNode(kids[0], kids[0])}), ast.NewAliasNode(s), ast.NewTagNode(s), ast.NewAnchorNode(s), ast.NewContentNode(nil, kids[0]), ast.NewStreamNode(kids), ast.NewNullNode()} {
			c.Input(n.Type().String() + " " + s)
			for name, f := range map[string]func(ast.Node) bool{"IsBoolean": yaschema.IsBoolean, "IsInteger": yaschema.IsInteger, "IsUnsignedInteger": yaschema.IsUnsignedInteger, "IsFloat": yaschema.IsFloat, "IsTimestamp": yaschema.IsTimestamp, "IsBinary": yaschema.IsBinary, "IsMergeKey": yaschema.IsMergeKey} {
				yes("yayamls "+name+" of "+n.Type().String(), f(n), false)
			}
			yes("yayamls IsNull of "+n.Type().String(), yaschema.IsNull(n), n.Type() == ast.NullType)
		}
		for _, k := range []yaml.Kind{yaml.SequenceNode, yaml.MappingNode, yaml.DocumentNode, yaml.AliasNode} {
			n := &yaml.Node{Kind: k, Value: s}
			for name, f := range map[string]func(*yaml.Node) bool{"IsNull": goschema.IsNull, "IsBoolean": goschema.IsBoolean, "IsInteger": goschema.IsInteger, "IsUnsignedInteger": goschema.IsUnsignedInteger, "IsFloat": goschema.IsFloat, "IsTimestamp": goschema.IsTimestamp, "IsBinary": goschema.IsBinary, "IsMergeKey": goschema.IsMergeKey} {
				yes("goyaml "+name, f(n), false)
			}
		}
	case 1:
		c.Ev("merge-key-or-binary")
		c.Input(s)
		n, g := ast.NewTextNode(s), &yaml.Node{Kind: yaml.ScalarNode, Value: s, Style: yaml.SingleQuotedStyle}
		yes("yayamls IsMergeKey", yaschema.IsMergeKey(n), s == "<<")
		yes("goyaml IsMergeKey", goschema.IsMergeKey(g), s == "<<")
		bin := true
		for _, f := range strings.Fields(s) {
			if _, err := base64.StdEncoding.DecodeString(f); err != nil {
				bin = false
			}
		}
		yes("yayamls IsBinary", yaschema.IsBinary(n), bin)
		yes("goyaml IsBinary", goschema.IsBinary(g), bin)
		yes("pkg IsBinary", schema.IsBinary(s), bin)
	default:
		c.Ev("quoted-null")
		s = core.Pick(r, []string{"null", "~", "Null", "NULL", "", "nul", "nil", "nULL"})
		c.Input(s)
		null := s == "null" || s == "~" || s == "Null" || s == "NULL" || s == ""
		for q, plain := range map[ast.QuotingType]bool{ast.AbsentQuotingType: true, ast.UnknownQuotingType: true, ast.SingleQuotingType: false, ast.DoubleQuotingType: false} {
			yes("yayamls IsNull", yaschema.IsNull(ast.NewTextNode(s, ast.WithQuotingType(q))), null && plain)
		}
		yes("goyaml IsNull, plain", goschema.IsNull(&yaml.Node{Kind: yaml.ScalarNode, Value: s}), null)
		yes("goyaml IsNull, quoted", goschema.IsNull(&yaml.Node{Kind: yaml.ScalarNode, Value: s, Style: yaml.DoubleQuotedStyle}), false)
	}
}

func edgeFloat(r *core.Rand) float64 {
	switch r.Intn(6) {
	case 0:
		return core.Pick(r, []float64{0, math.Copysign(0, -1), math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, math.SmallestNonzeroFloat64, math.MaxFloat32, math.SmallestNonzeroFloat32, 1e21, 1e20, 0.1, -1.5, 1, 100, 123456789})
	case 1:
		return float64(edgeInt(r))
	case 2:
		return float64(math.Float32frombits(uint32(r.U64())))
	case 3:
		return math.Nextafter(core.Pick(r, []float64{math.MaxFloat32, 1, 0, math.MaxInt64, math.MaxUint32}), core.Pick(r, []float64{math.Inf(1), math.Inf(-1)}))
	default:
		return math.Float64frombits(r.U64())
	}
}

func edgeTime(r *core.Rand) time.Time {
	zone := time.UTC
	if r.P(60) {
		zone = time.FixedZone("", core.Pick(r, []int{0, 60, -60, 3600, -3600, 19800, -34200, 50400, -43200, 86340, -86340}))
	}
	ns := 0
	if r.P(60) {
		ns = core.Pick(r, []int{0, 1, 10, 100000000, 120000000, 999999999, 123456789, 1000, 999000000})
	}
	return time.Date(core.Pick(r, []int{0, 1, 4, 99, 100, 999, 1000, 1582, 1900, 1969, 1970, 2000, 2024, 9999, r.Range(1, 9999)}), time.Month(r.Range(1, 12)), r.Range(1, 31), r.Intn(24), r.Intn(60), r.Intn(60), ns, zone)
}

func init() {
	core.Register(&core.Prop{ID: "C21", Quick: 2000000, Thorough: 20000000, Run: chars,
		MinEvents: []string{"double-quoted", "single-quoted", "escapes-read", "escapes-refused", "class:IsURI", "not-class:IsURI", "class:IsTagString", "not-class:IsTagString", "class:IsWord", "class:IsDecimal", "not-class:IsDecimal", "class:IsPlainSafeString"},
		Rule:      "random strings over edge characters, text around escapes, quotes and percent escapes; quoting is undone and compared, and unquoting and every character set predicate are compared with a reference written from the specification; distinct: by string"})
	core.Register(&core.Prop{ID: "C22", Quick: 2000000, Thorough: 20000000, Run: schemas,
		MinEvents: []string{"package:pkg", "package:yayamls", "package:goyaml", "from:integer", "from:unsigned", "from:float", "from:boolean", "from:timestamp", "any-text", "node-that-is-no-scalar", "merge-key-or-binary", "quoted-null"},
		Rule:      "values around every type edge are converted to text and back through the schema packages of both engines; the text must be claimed by exactly the predicates of its kind; arbitrary texts must be claimed by a predicate exactly when the conversion takes them, alike in all packages; distinct: by text"})
}
