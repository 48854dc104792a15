package props

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"strings"
	"time"

	"github.com/KSpaceer/yamly"

	"verifharness/core"
)

// ---- independent reference of the scalar grammar ----

func allIn(s, set string) bool {
	for i := 0; i < len(s); i++ {
		if strings.IndexByte(set, s[i]) < 0 {
			return false
		}
	}
	return s != ""
}

const digits = "0123456789"

// refInt returns the integer a text denotes.
func refInt(s string) (*big.Int, bool) {
	v := new(big.Int)
	switch {
	case strings.HasPrefix(s, "0o") && allIn(s[2:], "01234567"):
		v.SetString(s[2:], 8)
		return v, true
	case strings.HasPrefix(s, "0x") && allIn(s[2:], digits+"abcdefABCDEF"):
		v.SetString(s[2:], 16)
		return v, true
	}
	t := s
	neg := false
	if t != "" && (t[0] == '-' || t[0] == '+') {
		neg = t[0] == '-'
		t = t[1:]
	}
	if !allIn(t, digits) {
		return nil, false
	}
	v.SetString(t, 10)
	if neg {
		v.Neg(v)
	}
	return v, true
}

// refFloat splits a decimal float text: sign, digits, fraction, exponent.
func refFloat(s string) (text string, special float64, kind int) {
	switch s {
	case ".nan", ".NaN", ".NAN":
		return "", math.NaN(), 2
	case ".inf", ".Inf", ".INF", "+.inf", "+.Inf", "+.INF":
		return "", math.Inf(1), 2
	case "-.inf", "-.Inf", "-.INF":
		return "", math.Inf(-1), 2
	}
	t := strings.TrimPrefix(strings.TrimPrefix(s, "+"), "-")
	if len(s)-len(t) > 1 {
		return "", 0, 0
	}
	mant, exp := t, ""
	if i := strings.IndexAny(t, "eE"); i >= 0 {
		mant, exp = t[:i], t[i+1:]
		if exp != "" && (exp[0] == '+' || exp[0] == '-') {
			exp = exp[1:]
		}
		if !allIn(exp, digits) {
			return "", 0, 0
		}
	}
	ip, fp, dot := strings.Cut(mant, ".")
	if ip != "" && !allIn(ip, digits) || fp != "" && !allIn(fp, digits) {
		return "", 0, 0
	}
	if ip == "" && (!dot || fp == "") {
		return "", 0, 0
	}
	return s, 0, 1
}

// nearest returns the float of the given size nearest to the decimal text, and whether it overflows.
func nearest(text string, bits int) (float64, bool, bool) {
	// exponents far outside of the range need no arithmetic
	t := text
	neg := strings.HasPrefix(t, "-")
	t = strings.TrimLeft(t, "+-")
	mant, exps, _ := strings.Cut(strings.ToLower(t), "e")
	zero := strings.Trim(mant, "0.") == ""
	if exps != "" && !zero {
		e := new(big.Int)
		e.SetString(strings.TrimPrefix(exps, "+"), 10)
		if e.CmpAbs(big.NewInt(5000)) > 0 {
			if e.Sign() > 0 {
				return 0, true, true
			}
			z := 0.0
			if neg {
				z = math.Copysign(0, -1)
			}
			return z, false, true
		}
	}
	if zero {
		if neg {
			return math.Copysign(0, -1), false, true
		}
		return 0, false, true
	}
	if strings.HasSuffix(mant, ".") {
		mant += "0"
	}
	if strings.HasPrefix(mant, ".") {
		mant = "0" + mant
	}
	if exps == "" {
		exps = "0"
	}
	rat, ok := new(big.Rat).SetString(mant + "e" + exps)
	if !ok {
		return 0, false, false
	}
	var f float64
	if bits == 32 {
		g, _ := rat.Float32()
		f = float64(g)
	} else {
		f, _ = rat.Float64()
	}
	if neg {
		f = -f
	}
	return f, math.IsInf(f, 0), true
}

func refBool(s string) (bool, bool) {
	switch s {
	case "true", "True", "TRUE":
		return true, true
	case "false", "False", "FALSE":
		return false, true
	}
	return false, false
}

func refNull(s string, quoted bool) bool {
	return !quoted && (s == "" || s == "~" || s == "null" || s == "Null" || s == "NULL")
}

type timeText struct {
	s     string
	t     time.Time
	valid bool // s denotes t
	never bool // s denotes no time at all
}

func genTimeText(r *core.Rand) timeText {
	t := GenTime(r)
	_, off := t.Zone()
	y, mo, d := t.Year(), int(t.Month()), t.Day()
	frac := ""
	if t.Nanosecond() != 0 {
		frac = strings.TrimRight(fmt.Sprintf(".%09d", t.Nanosecond()), "0")
		if r.P(30) {
			frac += strings.Repeat("0", 10-len(frac))
		}
	}
	zone := "Z"
	if off != 0 || r.P(20) {
		s, o := '+', off
		if o < 0 {
			s, o = '-', -o
		}
		zone = fmt.Sprintf("%c%02d:%02d", s, o/3600, o/60%60)
	}
	switch r.Intn(9) {
	case 0, 1: // full form
		return timeText{s: fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d%s%s", y, mo, d, t.Hour(), t.Minute(), t.Second(), frac, zone), t: t, valid: true}
	case 2: // short form, T
		return timeText{s: fmt.Sprintf("%04d-%d-%dT%d:%02d:%02d%s%s", y, mo, d, t.Hour(), t.Minute(), t.Second(), frac, zone), t: t, valid: true}
	case 3: // lower t wants a numeric zone
		if zone == "Z" {
			zone = "+00:00"
		}
		return timeText{s: fmt.Sprintf("%04d-%02d-%02dt%02d:%02d:%02d%s%s", y, mo, d, t.Hour(), t.Minute(), t.Second(), frac, zone), t: t, valid: true}
	case 4: // space separated, UTC
		u := time.Date(y, t.Month(), d, t.Hour(), t.Minute(), t.Second(), t.Nanosecond(), time.UTC)
		return timeText{s: fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d%s", y, mo, d, t.Hour(), t.Minute(), t.Second(), frac), t: u, valid: true}
	case 5:
		u := time.Date(y, t.Month(), d, 0, 0, 0, 0, time.UTC)
		return timeText{s: fmt.Sprintf(core.Pick(r, []string{"%04d-%02d-%02d", "%04d-%d-%d"}), y, mo, d), t: u, valid: true}
	case 6: // fields out of range
		a := []int{y, mo, d, t.Hour(), t.Minute(), t.Second()}
		switch r.Intn(6) {
		case 0:
			a[1] = core.Pick(r, []int{0, 13, 20})
		case 1:
			a[2] = core.Pick(r, []int{0, 32, 40})
		case 2:
			a[3] = core.Pick(r, []int{24, 25, 60})
		case 3:
			a[4] = 60 + r.Intn(40)
		case 4:
			a[5] = 61 + r.Intn(30)
		case 5:
			a[1], a[2] = 2, 30
		}
		return timeText{s: fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d%s%s", a[0], a[1], a[2], a[3], a[4], a[5], frac, zone), never: true}
	case 7:
		return timeText{s: core.Pick(r, []string{"2001-12", "2001", "12-14-2001", "2001/12/14", "2001-12-14T", "T10:00:00Z", "10:00:00", "2001-12-14Z", "2001-12-14T10:00", "2001-12-14T10Z", "20011214", "2001-12-14T10:00:00+1", "a2001-12-14", "2001-12-14b", "2001-12-14T10:00:00Zz", " 2001-12-14", "2001-12-14 "}), never: true}
	default:
		return timeText{s: t.Format(time.RFC3339Nano), t: t, valid: true}
	}
}

func bigPow(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

// genScalarText makes texts at and around the edges of the scalar grammar.
func genScalarText(r *core.Rand) timeText {
	pick := func(s ...string) string { return core.Pick(r, s) }
	switch r.Intn(14) {
	case 0, 1: // integers around the edges of all sizes, in all spellings
		v := bigPow(core.Pick(r, []uint{0, 3, 7, 8, 15, 16, 31, 32, 53, 62, 63, 64, 65, 100}))
		v.Add(v, big.NewInt(int64(r.Intn(7)-3)))
		sign := pick("", "", "-", "-", "+")
		zeroes := ""
		if r.P(20) { // no matter how many
			zeroes = strings.Repeat("0", core.Pick(r, []int{1, 2, 3, 8, 17, 30, 63, 64, 65, 100, 300}))
		}
		switch r.Intn(6) {
		case 0:
			return timeText{s: "0x" + zeroes + pick(fmt.Sprintf("%x", v), fmt.Sprintf("%X", v))}
		case 1:
			return timeText{s: "0o" + zeroes + fmt.Sprintf("%o", v)}
		case 2:
			return timeText{s: sign + strings.Repeat("0", r.Intn(4)) + zeroes + v.String()}
		default:
			return timeText{s: sign + v.String()}
		}
	case 2:
		return timeText{s: pick("0x", "0o", "-", "+", "--1", "+-1", "-+1", "1-", "1_000", "1,000", "0b101", "0xg", "0x-1", "-0x1", "+0x1", "-0o7", "0o8", "0O7", "0X1", "0x1.", "0x1p3", "1e", "1e+", "e5", "1e5.5", ".", "-.", "+.", "..5", "1..2", "1.2.3", ".e1", "inf", "Inf", "+inf", "-inf", "nan", "NaN", "infinity", ".iNf", ".nAn", "+.nan", "-.nan", "..inf", "1 2", " 1", "1 ", "1f", "0x 1", "１", "٣", "½", "1\u00a0")}
	case 3, 4: // decimal floats
		s := pick("", "", "-", "+")
		ip := strings.TrimLeft(strings.Repeat("9", r.Intn(4))+fmt.Sprint(r.Intn(100000)), "")
		if r.P(20) {
			ip = ""
		}
		fp := pick("", ".", fmt.Sprintf(".%d", r.Intn(1000000)), ".0", fmt.Sprintf(".%d%d%d", r.U64(), r.U64(), r.U64()))
		if ip == "" && len(fp) < 2 {
			fp = ".5"
		}
		e := pick("", "", fmt.Sprintf("e%d", r.Intn(40)), fmt.Sprintf("E-%d", r.Intn(40)), fmt.Sprintf("e+%d", r.Intn(320)), fmt.Sprintf("e-%d", r.Intn(360)), "e400", "e-400", "e99999999999", "e-99999999999")
		if r.P(5) {
			ip = strings.Repeat("0", 1<<r.Intn(9)) + ip
		}
		if r.P(5) && len(fp) > 1 {
			fp += strings.Repeat(pick("0", "0", "9", "5"), 1<<r.Intn(9))
		}
		if r.P(3) {
			e = pick("e", "E-", "e+") + strings.Repeat("0", 1<<r.Intn(7)) + fmt.Sprint(r.Intn(40))
		}
		return timeText{s: s + ip + fp + e}
	case 5: // halfway points and shortest forms
		f := GenFloat(r)
		if math.IsNaN(f) || math.IsInf(f, 0) {
			f = 1.5
		}
		switch r.Intn(4) {
		case 0:
			b := new(big.Float).SetPrec(2000).SetFloat64(f)
			n := new(big.Float).SetPrec(2000).SetFloat64(math.Nextafter(f, math.Inf(1)))
			if n.IsInf() {
				return timeText{s: "1.7976931348623158e308"}
			}
			b.Add(b, n)
			b.Quo(b, big.NewFloat(2))
			return timeText{s: b.Text('e', 40+r.Intn(700))}
		case 1:
			g := float32(f)
			if math.IsInf(float64(g), 0) {
				return timeText{s: "3.4028235677973366e38"}
			}
			b := new(big.Float).SetPrec(500).SetFloat64(float64(g))
			n := new(big.Float).SetPrec(500).SetFloat64(float64(math.Nextafter32(g, float32(math.Inf(1)))))
			if n.IsInf() {
				return timeText{s: "3.4028235677973366e38"}
			}
			b.Add(b, n)
			b.Quo(b, big.NewFloat(2))
			return timeText{s: b.Text('e', 30+r.Intn(100))}
		default:
			return timeText{s: pick(fmt.Sprintf("%g", f), fmt.Sprintf("%e", f), fmt.Sprintf("%v", float32(f)), fmt.Sprintf("%.17g", f))}
		}
	case 6:
		return timeText{s: pick(".inf", ".Inf", ".INF", "+.inf", "-.inf", "-.Inf", "-.INF", "+.INF", ".nan", ".NaN", ".NAN")}
	case 7:
		return timeText{s: pick("true", "True", "TRUE", "false", "False", "FALSE", "tRue", "TrUE", "truE", "yes", "Yes", "no", "on", "off", "y", "n", "t", "f", "1", "0", "true ", "truefalse", "falsE")}
	case 8:
		return timeText{s: pick("null", "Null", "NULL", "~", "", "nUll", "NuLL", "nil", "none", "~~", "null ", "nulL")}
	case 9, 10, 11:
		return genTimeText(r)
	case 12: // mutate a valid text
		s := []byte(genScalarText(r).s)
		if len(s) == 0 {
			return timeText{s: "x"}
		}
		i := r.Intn(len(s))
		switch r.Intn(3) {
		case 0:
			s = append(s[:i:i], s[i+1:]...)
		case 1:
			s[i] = core.Pick(r, []byte("0123456789+-.eExXoO_:TtZ aAfF"))
		case 2:
			s = append(s[:i:i], append([]byte{core.Pick(r, []byte("0123456789+-.eExXo_:Tz a"))}, s[i:]...)...)
		}
		return timeText{s: strings.ToValidUTF8(string(s), "x")}
	default:
		s := GenString(r)
		if rs := []rune(s); len(rs) > 100 { // it may have to be a key
			s = string(rs[:100])
		}
		return timeText{s: s}
	}
}

// plainOK: the text is certainly a plain scalar with this very value.
func plainOK(s string) bool {
	if s == "" || strings.HasSuffix(s, ":") {
		return s == ""
	}
	if s == "~" {
		return true
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '+' || c == '-' || c == '.' || c == '_' || c == ':' && i > 0) {
			return false
		}
	}
	return s != "-" && s != "---" && s != "..." && !strings.HasPrefix(s, "--") && !strings.HasPrefix(s, "..")
}

func dq(s string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for _, c := range s {
		switch {
		case c == '"' || c == '\\':
			sb.WriteString("\\" + string(c))
		case c < 0x20 || c == 0x7f || c >= 0x80:
			fmt.Fprintf(&sb, "\\U%08X", c)
		default:
			sb.WriteRune(c)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

type scalarDoc struct {
	src   string
	enter func(d yamly.Decoder)
	after string // the sibling that has to be readable next, "" for none
	end   bool
}

func scalarDocs(lit string, r *core.Rand) scalarDoc {
	seq := func(d yamly.Decoder) { d.Sequence() }
	switch r.Intn(8) {
	case 0:
		return scalarDoc{src: "--- " + lit + "\n", enter: func(d yamly.Decoder) {}, end: true}
	case 1:
		return scalarDoc{src: "- " + lit + "\n- next\n", enter: seq, after: "next"}
	case 2:
		return scalarDoc{src: "k: " + lit + "\nnext: v\n", enter: func(d yamly.Decoder) { d.Mapping(); _ = d.String() }, after: "next"}
	case 3:
		if lit == "" {
			lit = "~"
		}
		return scalarDoc{src: "[a, " + lit + " , next]\n", enter: func(d yamly.Decoder) { d.Sequence(); _ = d.String() }, after: "next"}
	case 4:
		if lit == "" {
			lit = "''"
		}
		return scalarDoc{src: "- k: " + lit + "\n- next\n", enter: func(d yamly.Decoder) { d.Sequence(); d.Mapping(); _ = d.String() }, after: "next"}
	case 5:
		return scalarDoc{src: "- &x " + lit + "\n- *x\n- next\n", enter: func(d yamly.Decoder) { d.Sequence(); d.Skip() }, after: "next"}
	case 6:
		if lit == "" {
			lit = "\"\""
		}
		return scalarDoc{src: lit + " : next\n", enter: func(d yamly.Decoder) { d.Mapping() }, after: "next"}
	default:
		return scalarDoc{src: "- [a, b]\n- &x " + lit + "\n- next\n", enter: func(d yamly.Decoder) { d.Sequence(); d.Skip() }, after: "next"}
	}
}

func scalarReads(c *core.Ctx, i int) {
	r := c.R
	tt := genScalarText(r)
	text := tt.s
	quoted := !plainOK(text) || r.P(30)
	lit := text
	if quoted {
		lit = dq(text)
		if r.P(40) && !strings.ContainsAny(text, "\n\r\t") && allPrintable(text) {
			lit = "'" + strings.ReplaceAll(text, "'", "''") + "'"
		}
	}
	doc := scalarDocs(lit, r)
	if lit == "" && !strings.Contains(doc.src, "''") && !strings.Contains(doc.src, "\"\"") {
		c.Ev("empty-plain")
	} else if lit == "" {
		quoted = true
	}
	if strings.Contains(doc.src, "[a, ~") && lit == "" {
		text = "~"
	}
	c.Input(fmt.Sprintf("%q (scalar %q)", doc.src, text))
	c.NonTrivial()
	null := refNull(text, quoted)

	type expect struct {
		name   string
		call   func(d yamly.Decoder) any
		want   any
		ok     bool // must succeed with want
		either bool // anything goes, but a success has to deliver want
		deny   bool // must fail with ErrDenied
		skip   bool
	}
	var exps []expect
	n, isInt := refInt(text)
	for _, bits := range []int{8, 16, 32, 64} {
		lo, hi := new(big.Int).Neg(bigPow(uint(bits-1))), bigPow(uint(bits-1))
		in := isInt && n.Cmp(lo) >= 0 && n.Cmp(hi) < 0
		e := expect{name: fmt.Sprintf("Integer(%d)", bits), call: func(d yamly.Decoder) any { return d.Integer(bits) }, ok: in, deny: !isInt || null, want: int64(0)}
		if in {
			e.want = n.Int64()
		}
		exps = append(exps, e)
		uin := isInt && n.Sign() >= 0 && n.Cmp(bigPow(uint(bits))) < 0
		minus := strings.HasPrefix(text, "-")
		u := expect{name: fmt.Sprintf("Unsigned(%d)", bits), call: func(d yamly.Decoder) any { return d.Unsigned(bits) }, ok: uin && !minus, deny: !isInt || n.Sign() < 0, want: uint64(0), either: minus && isInt && n.Sign() == 0}
		if uin {
			u.want = n.Uint64()
		}
		exps = append(exps, u)
	}
	b, isBool := refBool(text)
	exps = append(exps, expect{name: "Boolean", call: func(d yamly.Decoder) any { return d.Boolean() }, ok: isBool, want: b, deny: !isBool})
	ft, sp, fk := refFloat(text)
	for _, bits := range []int{32, 64} {
		e := expect{name: fmt.Sprintf("Float(%d)", bits), call: func(d yamly.Decoder) any { return d.Float(bits) }, want: 0.0, deny: fk == 0}
		switch fk {
		case 1:
			f, over, known := nearest(ft, bits)
			if !known {
				e.skip = true
			}
			e.ok, e.want = !over, f
			if over {
				e.want = 0.0
			}
		case 2:
			e.ok, e.want = true, sp
		}
		exps = append(exps, e)
	}
	exps = append(exps, expect{name: "String", call: func(d yamly.Decoder) any { return d.String() }, ok: !null, want: map[bool]string{true: "", false: text}[null], deny: null})
	te := expect{name: "Timestamp", call: func(d yamly.Decoder) any { return d.Timestamp() }, ok: tt.valid, want: tt.t, deny: tt.never, skip: !tt.valid && !tt.never}
	if tt.s != text {
		te.skip = true
	}
	if !tt.valid {
		te.want = time.Time{}
	}
	exps = append(exps, te)
	exps = append(exps, expect{name: "TryNull", call: func(d yamly.Decoder) any { return d.TryNull() }, ok: true, want: null})

	for _, e := range Engines {
		for _, x := range exps {
			if x.skip {
				continue
			}
			d, err := e.NewDecoder([]byte(doc.src))
			if err != nil {
				c.Fail("rejected", "%s: %v", e.Name, err)
				return
			}
			doc.enter(d)
			if err := d.Error(); err != nil {
				c.Fail("rejected", "%s: error before the scalar: %v", e.Name, err)
				return
			}
			got := x.call(d)
			err = d.Error()
			c.Ev("call:" + strings.TrimRight(x.name, "(0123456789)"))
			switch {
			case err == nil && !x.ok && !x.either:
				c.Fail("wrong-accept", "%s: %s = %v without an error", e.Name, x.name, got)
				return
			case err == nil:
				c.Ev("read-exactly")
				if !sameScalar(got, x.want) {
					c.Fail("wrong-value", "%s: %s = %v, want %v", e.Name, x.name, got, x.want)
					return
				}
				if x.name == "TryNull" && !null {
					if s := d.String(); s != text || d.Error() != nil {
						c.Fail("probe-moved", "%s: String() = %q, %v after TryNull() = false", e.Name, s, d.Error())
						return
					}
				}
				if doc.after != "" {
					if s := d.String(); s != doc.after || d.Error() != nil {
						c.Fail("wrong-position", "%s: after %s the next node reads as %q, %v", e.Name, x.name, s, d.Error())
						return
					}
				}
				if doc.end {
					if d.Skip(); !errors.Is(d.Error(), yamly.ErrEndOfStream) {
						c.Fail("wrong-position", "%s: after %s: %v instead of the end of stream", e.Name, x.name, d.Error())
						return
					}
				}
			case x.ok:
				c.Fail("wrong-reject", "%s: %s fails: %v (want %v)", e.Name, x.name, err, x.want)
				return
			default:
				c.Ev("read-refused")
				if x.deny && !errors.Is(err, yamly.ErrDenied) {
					c.Fail("wrong-class", "%s: %s fails with %v, which is not a denial", e.Name, x.name, err)
					return
				}
				if !isZeroScalar(got) {
					c.Fail("value-with-error", "%s: %s = %v along with the error %v", e.Name, x.name, got, err)
					return
				}
			}
		}
	}
	switch {
	case isInt:
		c.Ev("text:integer")
	case fk == 1:
		c.Ev("text:float")
	case fk == 2:
		c.Ev("text:special-float")
	case isBool:
		c.Ev("text:bool")
	case null:
		c.Ev("text:null")
	case tt.valid:
		c.Ev("text:timestamp")
	case tt.never:
		c.Ev("text:near-timestamp")
	default:
		c.Ev("text:other")
	}
}

func allPrintable(s string) bool {
	for _, c := range s {
		if c < 0x20 || c >= 0x7f {
			return false
		}
	}
	return true
}

func sameScalar(a, b any) bool {
	switch x := a.(type) {
	case float64:
		y, ok := b.(float64)
		return ok && floatSame(x, y)
	case time.Time:
		y, ok := b.(time.Time)
		_, o1 := x.Zone()
		_, o2 := y.Zone()
		return ok && x.Equal(y) && o1 == o2
	}
	return a == b
}

func isZeroScalar(a any) bool {
	switch x := a.(type) {
	case int64:
		return x == 0
	case uint64:
		return x == 0
	case bool:
		return !x
	case float64:
		return x == 0
	case string:
		return x == ""
	case time.Time:
		return x.IsZero()
	}
	return false
}

func init() {
	core.Register(&core.Prop{ID: "C07", Quick: 150000, Thorough: 5000000, Run: scalarReads,
		MinEvents: []string{"read-exactly", "read-refused", "text:integer", "text:float", "text:special-float", "text:bool", "text:null", "text:timestamp", "text:near-timestamp", "text:other"},
		Rule:      "scalar texts at and around the edges of the grammar (integers of all bases around every type edge, decimal floats incl. exact halfway points, overflow and underflow, special floats, booleans, nulls, timestamps in all accepted forms and with fields out of range, mutated texts) placed at roots, elements, values, keys and aliases, plain or quoted, and read with every typed call and bit size by both engines; oracle: arbitrary-precision reference (math/big), error class and zero value on refusal, position after the read; non-trivial: every case; distinct: by document"})
}
