package props

import (
	"fmt"
	"runtime"
	"strings"

	yadec "github.com/KSpaceer/yamly/engines/yayamls/decode"
	yaenc "github.com/KSpaceer/yamly/engines/yayamls/encode"
	"github.com/KSpaceer/yamly/engines/yayamls/parser"

	"verifharness/core"
)

// work counts the allocations of f: a measure of its work that does not depend on the machine.
func work(f func()) (count, bytes float64) {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return float64(b.Mallocs - a.Mallocs), float64(b.TotalAlloc - a.TotalAlloc)
}

// deepDoc nests n collections, opened by the given openers in turn.
func deepDoc(open []string, n int, cut bool) string {
	var sb strings.Builder
	block := 0
	var closers []string
	for i := 0; i < n; i++ {
		o := open[i%len(open)]
		switch {
		case strings.HasSuffix(o, "\n"): // block style: own line
			sb.WriteString(pad(block) + o)
			block++
		default:
			if i == 0 || strings.HasSuffix(open[(i-1)%len(open)], "\n") {
				sb.WriteString(pad(block))
			}
			sb.WriteString(o)
			if strings.ContainsAny(o, "[{") {
				c := map[byte]string{'[': "]", '{': "}"}
				for k := len(o) - 1; k >= 0; k-- {
					if s, ok := c[o[k]]; ok {
						closers = append(closers, s)
					}
				}
			} else {
				block += len(o)
			}
		}
	}
	if strings.HasSuffix(open[(n-1)%len(open)], "\n") {
		sb.WriteString(pad(block))
	}
	sb.WriteString("x")
	if !cut {
		for i := len(closers) - 1; i >= 0; i-- {
			sb.WriteString(closers[i])
		}
	}
	sb.WriteString("\n")
	return sb.String()
}

// wideDoc repeats the given units n times in all.
func wideDoc(kind int, units []string, n int) string {
	var sb strings.Builder
	for i := 0; i < n; i++ {
		u := strings.ReplaceAll(units[i%len(units)], "%", fmt.Sprint(100000+i))
		switch kind {
		case 0:
			sb.WriteString("- " + u + "\n")
		case 1:
			fmt.Fprintf(&sb, "k%d: %s\n", 100000+i, u)
		case 2:
			sb.WriteString(u + ", ")
		case 3:
			fmt.Fprintf(&sb, "k%d: %s, ", 100000+i, u)
		case 4:
			sb.WriteString("--- " + u + "\n")
		default:
			sb.WriteString(u)
		}
	}
	switch kind {
	case 2:
		return "[" + sb.String() + "]\n"
	case 3:
		return "{" + sb.String() + "}\n"
	case 6:
		return "\"" + sb.String() + "\"\n"
	case 7:
		return "'" + sb.String() + "'\n"
	case 8:
		return "a: |\n " + strings.ReplaceAll(sb.String(), "\n", "\n ") + "\n"
	case 9:
		return "a: >\n " + strings.ReplaceAll(sb.String(), "\n", "\n ") + "\n"
	}
	return sb.String()
}

var growthOps = []struct {
	name string
	run  func(src string) bool
}{
	{"parse", func(src string) bool { _, err := parser.ParseString(src); return err == nil }},
	{"tokens", func(src string) bool { lexAll(src); return true }},
	{"any-yayamls", func(src string) bool { return growthAny(YA, src) }},
	{"any-goyaml", func(src string) bool { return growthAny(GO, src) }},
	{"raw-yayamls", func(src string) bool {
		d, err := YA.NewDecoder([]byte(src))
		if err != nil {
			return false
		}
		d.Raw()
		return d.Error() == nil
	}},
	{"skip-yayamls", func(src string) bool {
		d, err := YA.NewDecoder([]byte(src))
		if err != nil {
			return false
		}
		d.Skip()
		return d.Error() == nil
	}},
	{"skip-goyaml", func(src string) bool {
		d, err := GO.NewDecoder([]byte(src))
		if err != nil {
			return false
		}
		d.Skip()
		return d.Error() == nil
	}},
	{"write", func(src string) bool {
		t, err := parser.ParseString(src)
		if err != nil {
			return false
		}
		_, err = yaenc.NewASTWriter().WriteString(t)
		return err == nil
	}},
	{"insert-raw", func(src string) bool {
		e := YA.NewEncoder()
		e.StartSequence()
		e.InsertRaw([]byte(src), nil)
		e.EndSequence()
		_, err := e.EncodeToString()
		return err == nil
	}},
	{"parse-again", func(src string) bool {
		t, err := parser.ParseString(src, parser.WithOmitStream(), parser.WithUnescapedText())
		if err != nil {
			return false
		}
		r := yadec.NewASTReader(t)
		r.Any()
		return r.Error() == nil
	}},
}

func growthAny(e Engine, src string) bool {
	d, err := e.NewDecoder([]byte(src))
	if err != nil {
		return false
	}
	d.Any()
	return d.Error() == nil
}

func growth(c *core.Ctx, i int) {
	r := c.R
	op := growthOps[i%len(growthOps)]
	deep := r.Bool()
	var doc func(n int) string
	var n int
	var shape string
	if deep {
		openers := []string{"[", "{a: ", "{a: [", "[[], ", "{? a : ", "[a, ", "&x [", "!!seq [", "!t {b: ", "{\"q\": ", "[{", "{[x]: ", "- ", "? ", "- - ", "a:\n", "-\n", "\"b\":\n", "- !!seq\n", "a: &x\n", "'c' :\n", "?\n", "{x, y: ", "[ ", "[a: ", "[? "}
		var open []string
		for k := r.Range(1, 3); k > 0; k-- {
			open = append(open, core.Pick(r, openers))
		}
		cut := r.P(30)
		n = r.Range(8, 20)
		doc = func(k int) string { return deepDoc(open, k, cut) }
		shape = fmt.Sprintf("deep %q cut=%v", open, cut)
		c.Ev("deep")
	} else {
		units := []string{"word", "1", "\"q\"", "'s'", "[]", "{}", "[a, b]", "{a: b}", "~", "&a% x", "!!str t", "two words", "a-b", "\"\\x41\\n\"", "é"}
		kind := r.Intn(10)
		switch {
		case kind >= 8:
			units = []string{"line\n", " more\n", "\n", "word ", "a: b\n", "# x\n", "- y\n"}
		case kind == 7:
			units = []string{"word ", "''", "\n", "\n\n", "é", "# ", ": ", "\t"}
		case kind == 6:
			units = []string{"word ", "\\n", "\n", "\\\n", "\\u263A", "é", "# ", ": "}
		case kind == 5:
			units = []string{"word ", "word\n", "\n", "# c\n", "# comment%\n", "k%: v\n", "  \n"}
		}
		var u []string
		for k := r.Range(1, 3); k > 0; k-- {
			u = append(u, core.Pick(r, units))
		}
		tail := ""
		if r.P(30) {
			tail = core.Pick(r, []string{"]", "}", "\"", "'", ": :", "\t- x", "[", "{a: ", "*nope", "%"})
		}
		n = r.Range(60, 200)
		if r.P(2) {
			n = r.Range(1000, 2000)
			c.Ev("wide-and-large")
		}
		doc = func(k int) string { return wideDoc(kind, u, k) + tail }
		shape = fmt.Sprintf("wide %d %q %q", kind, u, tail)
		c.Ev("wide")
	}
	c.Input(op.name + " " + shape + "\n" + doc(3))
	small, large := doc(n), doc(4*n)
	op.run(doc(2)) // whatever is initialised once
	var ok, okSmall bool
	var sc, sb, lc, lb float64
	sn, err := core.BasicBlocks(func() { sc, sb = work(func() { okSmall = op.run(small) }) })
	ln, err2 := core.BasicBlocks(func() { lc, lb = work(func() { ok = op.run(large) }) })
	if ok {
		c.Ev("accepted:" + op.name)
		c.NonTrivial()
	} else {
		c.Ev("refused:" + op.name)
	}
	// linear in the length of the source, times the depth for nested documents; 2.75 is for buffers that double
	f := 2.75 * float64(len(large)) / float64(len(small))
	g := 1.3 * float64(len(large)) / float64(len(small))
	if deep {
		f *= 4
		g *= 4
	}
	c.EvN("source-bytes", int64(len(small)+len(large)))
	if lc > f*(sc+300) {
		c.Fail("growth", "%s of %s: %d bytes take %.0f allocations, %d bytes %.0f", op.name, shape, len(small), sc, len(large), lc)
	}
	if lb > f*(sb+20000) {
		c.Fail("growth", "%s of %s: %d bytes take %.0f bytes of memory, %d bytes %.0f", op.name, shape, len(small), sb, len(large), lb)
	}
	// the same in executed basic blocks of the library, which no buffer rounds up
	switch {
	case err != nil || err2 != nil:
		c.Ev("basic-blocks-not-counted")
	case ok != okSmall:
		c.Ev("basic-blocks-not-compared(only one size is accepted)")
	default:
		c.EvN("basic-blocks-executed", int64(sn+ln))
		if float64(ln) > g*float64(sn+200) {
			c.Fail("growth", "%s of %s: %d bytes take %d basic blocks, %d bytes %d", op.name, shape, len(small), sn, len(large), ln)
		}
	}
}

func init() {
	var ev []string
	for _, o := range growthOps {
		ev = append(ev, "accepted:"+o.name)
		if o.name != "tokens" {
			ev = append(ev, "refused:"+o.name)
		}
	}
	core.Register(&core.Prop{ID: "C27", Quick: 8000, Thorough: 150000, Run: growth, CPUBudget: 120,
		MinEvents: append(ev, "deep", "wide", "wide-and-large", "basic-blocks-executed"),
		Rule:      "random nested documents (one to three kinds of opener in turn, block and flow, complete or cut off) and random wide ones (collections, streams, scalars, comments; sound or with a broken end) in two sizes, 1:4; the allocations of each operation and the basic blocks of the library it executes (coverage counters) may grow at most in proportion to the length of the source, times the depth when nested; a case that burns 120 s of CPU or exhausts memory is a violation; non-trivial: accepted; distinct: by operation and shape"})
}
