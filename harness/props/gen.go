package props

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"verifharness/core"
)

// hostile strings: texts that look like something else, or that stress quoting, folding, indentation.
var hostileStrings = []string{
	"\u00c3\u00a9", "\u00e2\u201a\u00ac", "\u00c2\u0085x", "\u00ef\u00bb\u00bf", "\u00e2\u0080\u00a8",
	"", " ", "  ", "\n", "\n\n", "\t", " \n", "\n ", "a\n", "a\n\n", "\na", " a", "a ", "a\tb", "\ta", "a\t", "a\t[b", "a\t'b'", "x\t- y", "t\t#n", "k\t: v", "a \t b", "m\t{n", "o\t&p", "q\t!r",
	"null", "Null", "NULL", "~", "true", "True", "FALSE", "yes", "no", "on", "off", "y", "n",
	"0", "1", "-1", "+1", "01", "0o7", "0x1F", "1.5", "1e3", ".5", "5.", ".inf", "-.inf", ".nan", ".NaN", "1_000", "0b1",
	"190:20:30", "2001-12-14", "2001-12-14t21:59:43.10-05:00", "<<", "=", "-", "--", "---", "...", "--- a", "... a", "- a", "-a",
	"?", "? a", "?a", ":", ": a", ":a", "a:", "a: b", "a:b", "a :b", "a : b", "#", "# a", "a#b", "a #b", "a # b", "#a",
	"&", "&a", "& a", "*", "*a", "* a", "!", "!a", "!!str", "!!str a", "! a", "|", "|-", "| a", ">", ">+", "> a", "|\n a", ">\n a",
	"'", "''", "'a'", "'a", "a'", "it's", "\"", "\"\"", "\"a\"", "\"a", "a\"", "a\"b\"c", "\\", "\\n", "a\\", "a\\nb", "\\\"", "\\'",
	"%", "%YAML 1.2", "%a", "@", "@a", "`", "`a", "[", "]", "{", "}", "[]", "{}", "[a", "a]", "a[b]", "{a", "a}", "{a: b}", "[a, b]", ",", ", a", "a,", "a, b", "a,b",
	"a\nb", "a\n b", "a\n  b\nc", " a\nb", "a \nb", "a\n\nb", "a\n\n\nb", "a\r\nb", "a\rb", "\r", "\r\n", "a: b\nc: d", "- a\n- b", "key:\n  - x", "# c\na", "a\n# c", "---\na", "a\n---\nb", "a\n...\nb",
	"\u0085", "\u2028", "\u2029", "a\u0085b", "a\u2028b", "\u00a0", "a\u00a0b", "\ufeff", "a\ufeffb", "\ufeffa", "\u200b", "é", "日本語", "😀", "a😀b", "\U0010ffff", "\ufffd", "\u007f", "\u0080", "\u009f", "\u0000", "a\u0000b", "\u0001", "\u0007", "\u001b", "\u001f", "\u000b", "\u000c", "\b",
	"x: [1, 2", "\"unclosed", "'unclosed", "{a: ", "&anchor *alias", "!<tag:yaml.org,2002:str> x", "a\\u0041", "\\x41", "%41", "a  b", "a   b c", "trailing  ", "\t\t", "a\n\tb", "\n  a\n b\n",
	"if a < b && c > d", "http://example.com:80/?q=a&b=c#frag", "C:\\Users\\x", "key: value # comment", "a:\tb", "a\t#b", "-\ta", "?\ta", ":\ta", "a:\nb", "12:30", "1:2", "-1:2", "0.0.0.0", "1.2.3", "1e", "e1", "+", "+a", "-.", ".", "..", "....", "-.5", "+.5", "- - a", "? ? a",
	"null ", " null", "~ ", "true ", "nullx", "-null", "0x", "0xg", "0o8", "0o", "1e400", "-0", "-0.0", "+0", "00", "1.", "99999999999999999999", "-9223372036854775809", "18446744073709551616",
}

var words = []string{"a", "b", "key", "value", "foo", "bar", "baz", "alpha", "omega", "x1", "y2", "name", "hello world", "some text here", "A", "Z9", "under_score", "dash-ed", "dot.ted", "slash/ed"}

var atomRunes = []rune{'a', 'b', 'c', 'Z', '0', '7', ' ', ' ', ' ', '\n', '\n', '\t', '\'', '"', '\\', ':', '#', '-', '?', ',', '[', ']', '{', '}', '&', '*', '!', '|', '>', '%', '@', '`', '=', '~', '.', '<', '/', '+', '_', '\r', '\u0085', '\u00a0', '\u2028', '\ufeff', 'é', '日', '😀', '\u0000', '\u0007', '\u001b', '\u007f', '\u200b', '\ufffd'}

// GenString makes a string for round-trip workloads. All are valid UTF-8.
func GenString(r *core.Rand) string {
	switch r.Intn(10) {
	case 0, 1:
		return core.Pick(r, words)
	case 2, 3, 4:
		return core.Pick(r, hostileStrings)
	case 5:
		return core.Pick(r, hostileStrings) + core.Pick(r, []string{"", " ", "\n", ": ", " #", ", "}) + core.Pick(r, hostileStrings)
	case 6, 7:
		n := r.Range(0, 12)
		var sb strings.Builder
		for i := 0; i < n; i++ {
			sb.WriteRune(core.Pick(r, atomRunes))
		}
		return sb.String()
	case 8: // several lines with assorted indentation
		if r.P(40) { // prose: words and clean breaks, which every style can fold
			var sb strings.Builder
			if r.P(10) {
				sb.WriteString(" ")
			}
			for i, n := 0, r.Range(2, 9); i < n; i++ {
				if i > 0 {
					sb.WriteString(core.Pick(r, []string{" ", " ", " ", "\n", "\n", "\n\n", "\n\n\n", "\n ", "\n  "}))
				}
				sb.WriteString(core.Pick(r, words))
			}
			sb.WriteString(core.Pick(r, []string{"", "", "", "\n", "\n\n", " "}))
			return sb.String()
		}
		n := r.Range(1, 5)
		var sb strings.Builder
		for i := 0; i < n; i++ {
			sb.WriteString(strings.Repeat(" ", r.Intn(4)))
			if r.P(70) {
				sb.WriteString(core.Pick(r, words))
			} else if r.P(50) {
				sb.WriteString(core.Pick(r, hostileStrings))
			}
			if i < n-1 || r.P(40) {
				sb.WriteString("\n")
			}
		}
		return sb.String()
	default:
		if r.P(20) { // long
			if r.P(20) { // and nothing but characters which may have to be escaped
				return strings.Repeat(core.Pick(r, []string{"\x01", "\x07", "\"", "'", "\\", "\u0085", "\u00a0", "\u2028", "\U000e0001", "\t", "é", " ", ":", "#"}), r.Range(40, 420))
			}
			n := r.Range(80, 400)
			if r.P(2) {
				n = 400 << r.Intn(8)
				n += r.Intn(n)
			}
			var sb strings.Builder
			for sb.Len() < n {
				sb.WriteString(core.Pick(r, words))
				sb.WriteString(core.Pick(r, []string{" ", " ", "  ", "\n", ", ", ": ", ""}))
			}
			return sb.String()
		}
		n := r.Range(1, 6)
		var sb strings.Builder
		for i := 0; i < n; i++ {
			var x rune
			switch r.Intn(5) {
			case 0:
				x = rune(r.Intn(0x80))
			case 1:
				x = rune(r.Intn(0x800))
			case 2:
				x = rune(0x2000 + r.Intn(0x80))
			case 3:
				x = rune(r.Intn(0x10000))
			default:
				x = rune(r.Intn(0x110000))
			}
			if !utf8.ValidRune(x) {
				x = '\ufffd'
			}
			sb.WriteRune(x)
		}
		return sb.String()
	}
}

// GenTameString makes short strings without anything special.
func GenTameString(r *core.Rand) string { return core.Pick(r, words) + strconv.Itoa(r.Intn(100)) }

var edgeInts = []int64{0, 1, -1, 7, 8, 9, 10, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, 1<<31 - 1, 1 << 31, -1 << 31, -1<<31 - 1, 1<<32 - 1, 1 << 32, 1<<53 - 1, 1 << 53, 1<<53 + 1, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1}

func GenInt(r *core.Rand) int64 {
	switch r.Intn(3) {
	case 0:
		return core.Pick(r, edgeInts)
	case 1:
		return int64(r.Intn(2001) - 1000)
	default:
		return int64(r.U64()) >> uint(r.Intn(63))
	}
}

func GenUint(r *core.Rand) uint64 {
	switch r.Intn(3) {
	case 0:
		return core.Pick(r, []uint64{0, 1, 127, 128, 255, 256, 65535, 65536, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, math.MaxUint64, math.MaxUint64 - 1})
	case 1:
		return uint64(r.Intn(1000))
	default:
		return r.U64() >> uint(r.Intn(64))
	}
}

func GenFloat(r *core.Rand) float64 {
	switch r.Intn(5) {
	case 0:
		return core.Pick(r, []float64{0, math.Copysign(0, -1), 1, -1, 0.1, 0.5, 1e21, 1e20, 1e-7, 1e100, 123456789, 1e15, 1e16, 1e17, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, math.MaxFloat32, math.SmallestNonzeroFloat32, math.Inf(1), math.Inf(-1), math.NaN(), math.Pi, 1 << 53, 1<<53 + 2, 2.5e-308})
	case 1:
		return float64(float32(math.Float32frombits(uint32(r.U64()))))
	case 2:
		return math.Float64frombits(r.U64())
	case 3:
		return float64(r.Intn(100000)) / 100
	default:
		return float64(int64(r.U64()) >> uint(r.Intn(60)))
	}
}

func GenTime(r *core.Rand) time.Time {
	loc := time.UTC
	if r.P(40) {
		loc = time.FixedZone("", (r.Intn(27)-12)*3600+core.Pick(r, []int{0, 0, 1800, 2700, 60, 59 * 60}))
	}
	ns := 0
	switch r.Intn(4) {
	case 0:
		ns = r.Intn(1000000000)
	case 1:
		ns = r.Intn(1000) * 1000000
	case 2:
		ns = core.Pick(r, []int{1, 10, 100, 999999999, 100000000, 120000000})
	}
	year := 1 + r.Intn(9998)
	if r.P(60) {
		year = 1970 + r.Intn(80)
	}
	h, m, s := r.Intn(24), r.Intn(60), r.Intn(60)
	if r.P(20) {
		h, m, s, ns = 0, 0, 0, 0
	}
	return time.Date(year, time.Month(1+r.Intn(12)), 1+r.Intn(28), h, m, s, ns, loc)
}

// GenOpts tunes GenValue.
type GenOpts struct {
	Str         func(r *core.Rand) string
	ComplexKeys bool
	TypedKeys   bool
	MaxDepth    int
	MaxWidth    int
	NoNull      bool
	OnlyStr     bool
	NoNaN       bool
}

func (o GenOpts) str(r *core.Rand) string {
	if o.Str != nil {
		return o.Str(r)
	}
	return GenString(r)
}

func GenScalar(r *core.Rand, o GenOpts) V {
	if o.OnlyStr {
		return Str(o.str(r))
	}
	switch r.Intn(12) {
	case 0:
		if o.NoNull {
			return V{K: KBool, B: r.Bool()}
		}
		return V{K: KNull}
	case 1:
		return V{K: KBool, B: r.Bool()}
	case 2, 3:
		return V{K: KInt, I: GenInt(r)}
	case 4:
		return V{K: KUint, U: GenUint(r)}
	case 5, 6:
		return V{K: KFloat, F: GenFloat(r)}
	case 7:
		return V{K: KTime, T: GenTime(r)}
	default:
		return Str(o.str(r))
	}
}

// GenValue makes a tree.
func GenValue(r *core.Rand, o GenOpts, depth int) V {
	if depth <= 0 || (depth < o.MaxDepth && r.P(30)) {
		return GenScalar(r, o)
	}
	w := o.MaxWidth
	if w == 0 {
		w = 4
	}
	n := r.Intn(w + 1)
	if r.P(3) {
		n = r.Range(0, 5*w)
	}
	if r.P(45) {
		v := V{K: KSeq}
		for i := 0; i < n; i++ {
			v.Seq = append(v.Seq, GenValue(r, o, depth-1))
		}
		return v
	}
	v := V{K: KMap}
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		var k V
		switch {
		case o.ComplexKeys && r.P(6):
			k = GenValue(r, o, min(depth-1, 2))
		case o.TypedKeys && r.P(15):
			k = GenScalar(r, o)
		default:
			k = Str(o.str(r))
		}
		id := k.String()
		if k.K == KStr {
			id = "s" + k.S
		}
		if seen[id] {
			continue
		}
		seen[id] = true
		v.Keys = append(v.Keys, k)
		v.Seq = append(v.Seq, GenValue(r, o, depth-1))
	}
	return v
}

// GenDeep makes a narrow deep tree.
func GenDeep(r *core.Rand, o GenOpts, depth int) V {
	v := GenScalar(r, o)
	for i := 0; i < depth; i++ {
		if r.Bool() {
			s := V{K: KSeq}
			if r.P(20) {
				s.Seq = append(s.Seq, GenScalar(r, o))
			}
			s.Seq = append(s.Seq, v)
			if r.P(20) {
				s.Seq = append(s.Seq, GenScalar(r, o))
			}
			v = s
		} else {
			m := V{K: KMap, Keys: []V{Str(fmt.Sprintf("k%d", i))}, Seq: []V{v}}
			if r.P(20) {
				m.Keys = append(m.Keys, Str("other"))
				m.Seq = append(m.Seq, GenScalar(r, o))
			}
			v = m
		}
	}
	return v
}

// GenRoot picks a shape of the whole value.
func GenRoot(r *core.Rand, o GenOpts) V {
	md := o.MaxDepth
	if md == 0 {
		md = 4
	}
	if r.Intn(600) == 0 {
		// rarely something big: sizes around and beyond the usual limits of buffers and counters
		if r.P(30) {
			return GenDeep(r, o, r.Range(10, 100))
		}
		n := 16 << r.Intn(7)
		n += r.Intn(n)
		kind := KSeq
		if r.Bool() {
			kind = KMap
		}
		v := V{K: kind}
		for i := 0; i < n; i++ {
			if kind == KMap {
				v.Keys = append(v.Keys, Str(fmt.Sprintf("%s%d", core.Pick(r, words), i)))
			}
			if r.P(90) {
				v.Seq = append(v.Seq, GenScalar(r, o))
			} else {
				v.Seq = append(v.Seq, GenValue(r, o, 1))
			}
		}
		return v
	}
	switch r.Intn(10) {
	case 0:
		return GenScalar(r, o)
	case 1:
		return GenDeep(r, o, r.Range(2, 10))
	default:
		d := r.Range(1, md)
		o.MaxDepth = d
		return GenValue(r, o, d)
	}
}
