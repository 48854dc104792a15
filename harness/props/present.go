package props

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"verifharness/core"
)

// Pres writes a value in a random YAML presentation. The value may change while it is written: a subtree can be
// replaced by an alias to an earlier anchored one, so the model value is what the document means.
type Pres struct {
	R       *core.Rand
	Ev      func(string)
	sb      strings.Builder
	anchors []anchored
	pending map[string]bool
	nAnchor int
	redef   int            // number of redefinitions so far
	opened  map[string]int // value of redef when the pending anchor was opened
	used    map[string]bool

	big         bool // the document holds overlong padding, comments and indentation
	NoAlias     bool
	NoComments  bool
	NoTags      bool
	NoBlock     bool // only flow style below the root
	NoFold      bool
	NoEscape    bool // word characters are never written as escape sequences
	MaxFlow     int
	PropPct     int  // how often a node has an anchor or a tag, in percent (0: seldom)
	Handles     bool // tags may use handles declared by %TAG
	NoEmptyFlow bool // nulls of flow collections are never written as nothing (yaml.v3 emits the nodes as strings)
	EmptyFlow   bool // there was such a null
	handle      bool // the document declares !e!
	padding     int  // all of the huge padding so far
	afterBlock  int  // 0, or 2 more than the indentation of the node whose block scalar was written last
	inMap       bool // the pair being written is an entry of a flow mapping
}

type anchored struct {
	name string
	v    V
}

func NewPres(r *core.Rand, ev func(string)) *Pres {
	if ev == nil {
		ev = func(string) {}
	}
	return &Pres{R: r, Ev: ev, big: r.Intn(400) == 0, pending: map[string]bool{}, opened: map[string]int{}, used: map[string]bool{}}
}

// huge is, in a few documents and at a few places, a count beyond the sizes of buffers and small counters.
func (p *Pres) huge(max int) (int, bool) {
	if !p.big || !p.R.P(8) {
		return 0, false
	}
	p.Ev("style:huge-padding")
	n := 32 << p.R.Intn(max)
	n += p.R.Intn(n)
	if p.padding += n; p.padding > 150000 { // the memory a parser takes is judged elsewhere (C27)
		return 0, false
	}
	return n, true
}

func pad(n int) string {
	if n <= 0 {
		return ""
	}
	return strings.Repeat(" ", n)
}

// Document writes the whole document, v is updated to what was written.
func (p *Pres) Document(v *V) string {
	r := p.R
	p.sb.Reset()
	if r.P(3) {
		p.sb.WriteString("\ufeff")
		p.Ev("style:bom")
	}
	p.commentLines(0)
	if r.P(5) {
		switch {
		case p.Handles && r.P(50):
			p.sb.WriteString("%TAG !e! tag:example.com,2000:app/\n")
			p.handle = true
			p.Ev("style:tag-handle")
			if r.P(30) {
				p.sb.WriteString("%YAML 1.2\n")
			}
		case r.P(20):
			p.sb.WriteString("%TAG !! tag:yaml.org,2002:\n")
		default:
			p.sb.WriteString("%YAML 1.2\n")
		}
		p.commentLines(0)
		p.sb.WriteString("---")
		p.Ev("style:directive")
	} else if r.P(15) {
		p.sb.WriteString("---")
		p.Ev("style:document-start")
	}
	started := p.sb.Len() > 0 && strings.HasSuffix(p.sb.String(), "---")
	p.rootValue(v, started)
	if r.P(8) {
		p.sb.WriteString("...\n")
		p.Ev("style:document-end")
	}
	p.commentLines(0)
	out := p.sb.String()
	if r.P(8) {
		out = strings.TrimRight(out, "\n")
		if strings.HasSuffix(out, "...") {
			out += "\n"
		}
		if p.lastIsBlockScalar(out) {
			out = p.sb.String()
		} else {
			p.Ev("style:no-final-newline")
		}
	}
	return out
}

func (p *Pres) lastIsBlockScalar(out string) bool {
	if i := strings.LastIndex(out, "\n"); strings.HasPrefix(out[i+1:], "#") {
		p.Ev("style:comment-at-the-very-end")
		return false
	}
	return strings.Contains(out, "|") || strings.Contains(out, ">")
}

func (p *Pres) rootValue(v *V, started bool) {
	if !started {
		// without a marker the node starts right at the beginning of a line
		if v.K == KSeq || v.K == KMap {
			if len(v.Seq) > 0 && !p.R.P(25) && !p.NoBlock {
				m := 0
				if p.R.P(10) {
					m = p.R.Range(1, 3)
				}
				name := ""
				if p.R.P(30) {
					var ps string
					if ps, name = p.props(*v); ps != "" {
						p.Ev("style:root-properties")
						p.sb.WriteString(ps + p.eol())
					}
					p.open(name)
				}
				if v.K == KSeq {
					p.seqEntries(v, m, false)
				} else {
					p.mapEntries(v, m, false)
				}
				p.close(name, *v)
				return
			}
		}
		p.sb.WriteString(p.inline(v, -1, false))
		return
	}
	p.after(v, -1, false)
}

// comment at the end of a line
func (p *Pres) eol() string {
	r := p.R
	if n, ok := p.huge(12); ok {
		if p.NoComments || r.P(30) {
			return pad(n) + "\n"
		}
		return " #" + strings.Repeat(core.Pick(r, []string{"x", " a", "é", "#", " : ", "- "}), n) + "\n"
	}
	if !p.NoComments && r.P(7) {
		p.Ev("style:comment")
		return p.blank() + "#" + core.Pick(r, []string{"", " c", " a: b", " - x", "'", "\"", " [", "# #", " é", " \t", " &a *b !c", ": |", " > "}) + "\n"
	}
	if r.P(4) {
		return p.blank() + "\n"
	}
	return "\n"
}

// blank is white space that separates tokens on a line.
func (p *Pres) blank() string {
	if n, ok := p.huge(8); ok {
		return pad(n)
	}
	if p.R.P(8) {
		p.Ev("style:tab-separation")
		return core.Pick(p.R, []string{" \t", "\t", "\t ", "\t\t", " \t "})
	}
	return pad(p.R.Range(1, 3))
}

// gap is white space after an indicator that may not be a tab (yaml.v3 does not take it).
func (p *Pres) gap() string { return pad(p.R.Range(1, 2-bi(p.R.P(80)))) }

// whole comment or blank lines
func (p *Pres) commentLines(ind int) {
	r := p.R
	if p.afterBlock > 0 {
		// blank lines and comments with too much indentation would belong to the scalar
		n := p.afterBlock - 2
		p.afterBlock = 0
		if n < 0 || p.NoComments || !r.P(6) {
			return
		}
		p.sb.WriteString(pad(r.Intn(n+1)) + "# comment\n")
		p.Ev("style:comment-after-block-scalar")
	}
	if n, ok := p.huge(12); ok {
		l := "\n"
		if !p.NoComments && r.P(30) {
			l = core.Pick(r, []string{"# a\n", "#\n", "#: -\n"})
		}
		p.sb.WriteString(strings.Repeat(l, n))
	}
	for r.P(6) {
		if p.NoComments || r.Bool() {
			p.sb.WriteString("\n")
		} else {
			p.sb.WriteString(pad(r.Intn(4)) + "# comment" + core.Pick(r, []string{"", ": x", " - y", " 'z"}) + "\n")
			p.Ev("style:comment-line")
		}
	}
}

func anchorName(i int) string {
	return []string{"a", "b-", "C_", "", "x-y-", "-", "null", "_"}[i%8] + strconv.Itoa(i)
}

// props returns node properties ("&a !t" or "").
func (p *Pres) props(v V) (string, string) {
	r := p.R
	s, name := "", ""
	if !p.NoAlias && r.P(max(10, p.PropPct)) {
		name = anchorName(p.nAnchor)
		if p.nAnchor > 0 && r.P(25) {
			name = anchorName(r.Intn(p.nAnchor))
		}
		if p.pending[name] {
			name = anchorName(p.nAnchor)
		}
		p.nAnchor++
		s = "&" + name
		p.Ev("style:anchor")
	}
	if !p.NoTags && r.P(max(4, p.PropPct)) && v.K != KNull {
		t := map[Kind]string{KSeq: "!!seq", KMap: "!!map", KInt: "!!int", KUint: "!!int", KFloat: "!!float", KBool: "!!bool", KStr: "!!str", KTime: "!!timestamp"}[v.K]
		if v.K == KStr && r.Bool() {
			if p.handle && r.P(50) {
				return strings.TrimPrefix(s+" !e!", " ") + core.Pick(r, []string{"x", "a-b", "0", "y%21z"}), name
			}
			t = core.Pick(r, []string{"!", "!local", "!my-tag", "!-", "!a.b/c_D", "!x%21y", "!e:f", "!0", "!<tag:example.com,2024:x>", "!<!local-1>", "!<tag:x.y:[a],b>"})
		}
		if s == "" {
			s = t
		} else if r.Bool() {
			s += " " + t
		} else {
			s = t + " " + s
		}
		p.Ev("style:tag")
	}
	return s, name
}

// splitProps separates two properties by anything that may stand between them; n is the indentation around.
func (p *Pres) splitProps(ps string, n int) string {
	a, b, ok := strings.Cut(ps, " ")
	if !ok {
		return ps
	}
	switch {
	case n >= 0 && p.R.P(12):
		p.Ev("style:properties-on-two-lines")
		return a + p.eol() + pad(n+p.R.Range(1, 4)) + b
	case p.R.P(20):
		return a + p.blank() + b
	}
	return ps
}

// open: the anchor is written. After a redefinition no anchored collection is used any more: what the aliases in it
// mean when it is read through an alias is a known finding (see known_findings.jsonl, C09).
func (p *Pres) open(name string) {
	if name == "" {
		return
	}
	p.pending[name] = true
	if p.used[name] {
		p.Ev("style:anchor-redefined")
		p.redef++
		var keep []anchored
		for _, a := range p.anchors {
			if a.v.K != KSeq && a.v.K != KMap && a.name != name {
				keep = append(keep, a)
			}
		}
		p.anchors = keep
	}
	p.used[name] = true
	p.opened[name] = p.redef
}

func (p *Pres) close(name string, v V) {
	if name == "" {
		return
	}
	delete(p.pending, name)
	if (v.K == KSeq || v.K == KMap) && p.redef != p.opened[name] {
		return
	}
	p.anchors = append(p.anchors, anchored{name, v})
}

// tryAlias replaces *v by an alias.
func (p *Pres) tryAlias(v *V, scalarOnly bool) (string, bool) {
	if p.NoAlias || len(p.anchors) == 0 || !p.R.P(12) {
		return "", false
	}
	a := core.Pick(p.R, p.anchors)
	if p.pending[a.name] {
		return "", false
	}
	if scalarOnly && (a.v.K == KSeq || a.v.K == KMap || a.v.K == KNull) {
		return "", false
	}
	if a.v.Count() > 200 {
		return "", false
	}
	*v = a.v
	p.Ev("style:alias")
	return "*" + a.name, true
}

// after writes what follows an indicator (":", "-", "?", "---") including the line break. n is the indentation of
// the enclosing block collection.
func (p *Pres) after(v *V, n int, parentMap bool) {
	r := p.R
	if al, ok := p.tryAlias(v, false); ok {
		p.sb.WriteString(" " + al + p.eol())
		return
	}
	block := (v.K == KSeq || v.K == KMap) && len(v.Seq) > 0 && !p.NoBlock && !r.P(25)
	if !block {
		t := p.inline(v, n, false)
		if !strings.HasPrefix(t, "\n") && !strings.HasPrefix(t, " ") && !strings.HasPrefix(t, "\t") {
			switch {
			case r.P(5) && t[0] != '#' && n >= 0:
				p.Ev("style:value-on-next-line")
				p.sb.WriteString(p.eol())
				ab := p.afterBlock // of t, which is still to come
				p.afterBlock = 0
				p.commentLines(0)
				p.afterBlock = ab
				p.sb.WriteString(pad(n + r.Range(1, 5)))
			case parentMap && r.P(3):
				p.sb.WriteString(p.blank())
			default:
				p.sb.WriteString(p.gap())
			}
		}
		p.sb.WriteString(t)
		return
	}
	ps, name := p.props(*v)
	p.open(name)
	if ps != "" {
		p.sb.WriteString(" " + p.splitProps(ps, n))
	}
	p.sb.WriteString(p.eol())
	p.commentLines(0)
	m := n + r.Range(1, 4)
	if r.P(2) {
		m = n + r.Range(5, 20)
		p.Ev("style:wide-indentation")
	}
	if k, ok := p.huge(5); ok {
		m = n + k
	}
	if n < 0 {
		m = r.Range(0, 2)
	}
	if parentMap && v.K == KSeq && r.P(40) && n >= 0 {
		m = n
		p.Ev("style:same-indent-sequence")
	}
	if v.K == KSeq {
		p.seqEntries(v, m, false)
	} else {
		p.mapEntries(v, m, false)
	}
	p.close(name, *v)
}

func bi(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (p *Pres) seqEntries(v *V, m int, compact bool) {
	p.Ev("style:block-sequence")
	r := p.R
	for i := range v.Seq {
		if i > 0 || !compact {
			p.commentLines(m)
			p.sb.WriteString(pad(m))
		}
		p.sb.WriteString("-")
		e := &v.Seq[i]
		if (e.K == KSeq || e.K == KMap) && len(e.Seq) > 0 && !p.NoBlock && r.P(45) {
			// compact nested collection
			k := r.Range(1, 3)
			p.sb.WriteString(pad(k))
			p.Ev("style:compact")
			if e.K == KSeq {
				p.seqEntries(e, m+1+k, true)
			} else {
				p.mapEntries(e, m+1+k, true)
			}
			continue
		}
		p.after(e, m, false)
	}
}

func (p *Pres) mapEntries(v *V, m int, compact bool) {
	p.Ev("style:block-mapping")
	r := p.R
	for i := range v.Keys {
		if i > 0 || !compact {
			p.commentLines(m)
			p.sb.WriteString(pad(m))
		}
		k := &v.Keys[i]
		if al, ok := p.keyAlias(v, i); ok {
			p.sb.WriteString(al + " :")
			p.after(&v.Seq[i], m, true)
			continue
		}
		text, ok := p.implicitKey(k)
		if !ok || r.P(5) {
			p.Ev("style:explicit-key")
			p.sb.WriteString("?")
			save := p.NoAlias
			p.NoAlias = true
			if k.K == KNull {
				p.sb.WriteString(" ~\n")
			} else if (k.K == KSeq || k.K == KMap) && len(k.Seq) > 0 && r.P(60) && !p.NoBlock {
				p.sb.WriteString(" ")
				if k.K == KSeq {
					p.seqEntries(k, m+2, true)
				} else {
					p.mapEntries(k, m+2, true)
				}
			} else {
				p.after(k, m, false)
			}
			p.NoAlias = save
			e := &v.Seq[i]
			if e.K == KNull && r.P(40) {
				p.Ev("style:key-without-value")
				continue
			}
			p.commentLines(m)
			p.sb.WriteString(pad(m) + ":")
			if (e.K == KSeq || e.K == KMap) && len(e.Seq) > 0 && !p.NoBlock && r.P(30) {
				w := r.Range(1, 3)
				p.sb.WriteString(pad(w))
				p.Ev("style:compact-explicit-value")
				if e.K == KSeq {
					p.seqEntries(e, m+1+w, true)
				} else {
					p.mapEntries(e, m+1+w, true)
				}
				continue
			}
			p.after(e, m, true)
			continue
		}
		p.sb.WriteString(p.keyProps(*k) + text + ":")
		p.after(&v.Seq[i], m, true)
	}
}

// keyAlias makes the key an alias of an anchored string that is no other key of the mapping.
func (p *Pres) keyAlias(v *V, i int) (string, bool) {
	if !p.R.P(20) {
		return "", false
	}
	k := v.Keys[i]
	al, ok := p.tryAlias(&k, true)
	if !ok || k.K != KStr {
		return "", false
	}
	for j := range v.Keys {
		if j != i && (v.Keys[j].K != KStr || v.Keys[j].S == k.S) {
			return "", false
		}
	}
	if k.S == "<<" {
		return "", false
	}
	v.Keys[i] = k
	p.Ev("style:alias-key")
	return al, true
}

// implicitKey gives a one-line key.
func (p *Pres) implicitKey(k *V) (string, bool) {
	if k.K == KNull && p.R.Bool() {
		return "~", true
	}
	t := p.flowScalar(*k, true, false, 0)
	if k.K == KSeq || k.K == KMap {
		t = p.flowOneLine(k)
		if utf8.RuneCountInString(t) > 200 {
			return "", false
		}
		p.Ev("style:flow-key")
	}
	if strings.Contains(t, "\n") || utf8.RuneCountInString(t) > 900 {
		return "", false
	}
	if p.R.P(6) {
		t += " "
	}
	return t, true
}

// keyProps makes properties of an implicit key.
func (p *Pres) keyProps(k V) string {
	if k.K == KNull || !p.R.P(40) {
		return ""
	}
	ps, name := p.props(k)
	p.open(name)
	p.close(name, k)
	if ps == "" {
		return ""
	}
	p.Ev("style:key-properties")
	return ps + " "
}

// inline writes a scalar or a flow collection (with its properties) at the current place, with the line break.
func (p *Pres) inline(v *V, n int, key bool) string {
	r := p.R
	ps, name := p.props(*v)
	p.open(name)
	defer func() { p.close(name, *v) }()
	pre := ""
	if ps != "" {
		ps = p.splitProps(ps, n)
		pre = ps + p.blank()
		if r.P(10) && n >= 0 && v.K != KNull {
			pre = ps + p.eol() + pad(n+r.Range(1, 5))
			p.Ev("style:properties-on-own-line")
		}
	}
	switch v.K {
	case KSeq, KMap:
		return pre + p.flow(v, n+1, 0) + p.eol()
	case KNull:
		if r.P(50) && n >= 0 && (p.NoAlias || !p.NoEmptyFlow) {
			p.Ev("style:empty-null")
			if !p.NoAlias {
				p.EmptyFlow = true // an alias of it may stand in a flow collection
			}
			if ps != "" {
				p.Ev("style:empty-null-with-properties")
			}
			return ps + p.eol()
		}
		return pre + core.Pick(r, []string{"null", "~", "Null", "NULL"}) + p.eol()
	case KStr:
		if !p.NoBlock && r.P(45) {
			if t, ok := p.blockScalar(v.S, n); ok {
				p.afterBlock = n + 2
				return pre + t
			}
		}
	}
	return pre + p.flowScalar(*v, false, false, n+1) + p.eol()
}

// blockScalar writes s as a literal or folded scalar inside of a collection with indentation n.
func (p *Pres) blockScalar(s string, n int) (string, bool) {
	r := p.R
	if strings.Trim(s, "\n") == "" {
		if n < 0 || !r.P(40) {
			return "", false
		}
		p.Ev("style:block-scalar-of-breaks")
		chomp := "+"
		if s == "" {
			chomp = core.Pick(r, []string{"", "-", "+"})
		}
		t := core.Pick(r, []string{"|", ">"}) + chomp + core.Pick(r, []string{"", "", " ", " # comment"})
		if p.NoComments {
			t = strings.TrimSuffix(t, " # comment")
		}
		t += "\n"
		breaks, over := len(s), 1
		if chomp != "+" {
			breaks, over = r.Intn(3), 4
		}
		for ; breaks > 0; breaks-- {
			t += core.Pick(r, []string{"", "", pad(r.Intn(n + 1 + over))}) + "\n"
		}
		return t, true
	}
	for _, c := range s {
		if c == '\n' || c == '\t' {
			continue
		}
		if c < 0x20 || c == 0x7f || (c >= 0x80 && c < 0xa0) || c == '\u2028' || c == '\u2029' || c == '\ufeff' || c == utf8.RuneError || c > 0xffff && !unicode.IsPrint(c) || (c >= 0xfffe && c <= 0xffff) {
			return "", false
		}
	}
	body := strings.TrimRight(s, "\n")
	trail := len(s) - len(body)
	lines := strings.Split(body, "\n")
	// a line of blanks only could be taken for an empty one
	blanks := false
	for i, l := range lines {
		if l != "" && strings.Trim(l, " \t") == "" {
			if !anyNonEmpty(lines[:i]) || i == len(lines)-1 {
				return "", false
			}
			blanks = true
		}
	}
	first := ""
	for _, l := range lines {
		if l != "" {
			first = l
			break
		}
	}
	chomp := ""
	switch {
	case trail == 0:
		chomp = "-"
	case trail > 1:
		chomp = "+"
	default:
		if r.P(20) {
			chomp = "+"
		}
	}
	folded := r.P(40)
	if folded {
		// breaks around lines that start with white space are kept; two of them in a row are read with a break too
		// many, which the tests of the repository want
		last := false
		for _, l := range lines {
			if l == "" {
				continue
			}
			more := l[0] == ' ' || l[0] == '\t'
			if more && (last || blanks) {
				folded = false
			}
			last = more
		}
	}
	empty := func(m int) string {
		if r.P(15) {
			p.Ev("style:blanks-in-empty-line")
			return pad(r.Intn(m+1)) + "\n"
		}
		return "\n"
	}
	m := n + r.Range(1, 4)
	if n < 0 {
		m = r.Range(0, 3)
	}
	ind := ""
	if strings.HasPrefix(first, " ") || strings.HasPrefix(first, "\t") || r.P(10) || (lines[0] == "" && r.P(10)) {
		base := n
		if base < 0 {
			base = 0
		}
		if m <= base {
			m = base + 1
		}
		if m-base > 9 {
			return "", false
		}
		ind = strconv.Itoa(m - base)
		p.Ev("style:indentation-indicator")
	}
	if m == 0 {
		// document markers and directives at the start of a line
		for _, l := range lines {
			if strings.HasPrefix(l, "---") || strings.HasPrefix(l, "...") || strings.HasPrefix(l, "%") || strings.HasPrefix(l, "#") {
				m = 1
			}
		}
	}
	var sb strings.Builder
	h := "|"
	if folded {
		h = ">"
	}
	if r.Bool() {
		sb.WriteString(h + ind + chomp)
	} else {
		sb.WriteString(h + chomp + ind)
	}
	if !p.NoComments && r.P(8) {
		sb.WriteString(" # comment")
	}
	sb.WriteString("\n")
	if folded {
		p.Ev("style:folded")
		prev := ""
		for _, l := range lines {
			if l == "" {
				sb.WriteString(empty(m))
				continue
			}
			more := func(s string) bool { return s[0] == ' ' || s[0] == '\t' }
			if prev != "" && !more(prev) && !more(l) {
				sb.WriteString(empty(m)) // k newlines of content are k+1 breaks
			}
			if more(l) {
				p.Ev("style:folded-more-indented")
				sb.WriteString(pad(m) + l + "\n")
			} else {
				sb.WriteString(pad(m) + p.foldSpaces(l, "\n"+pad(m)) + "\n")
			}
			prev = l
		}
	} else {
		p.Ev("style:literal")
		for _, l := range lines {
			if l == "" {
				sb.WriteString(empty(m))
				continue
			}
			sb.WriteString(pad(m) + l + "\n")
		}
	}
	for i := 1; i < trail; i++ {
		sb.WriteString("\n")
	}
	p.Ev("style:chomp" + chomp)
	if trail <= 1 && chomp != "+" && r.P(10) {
		sb.WriteString("\n")
	}
	return sb.String(), true
}

func anyNonEmpty(ls []string) bool {
	for _, l := range ls {
		if l != "" {
			return true
		}
	}
	return false
}

// foldSpaces replaces some single spaces between words by a break.
func (p *Pres) foldSpaces(l string, brk string) string {
	if p.NoFold {
		return l
	}
	var sb strings.Builder
	rs := []rune(l)
	for i, c := range rs {
		if c == ' ' && i > 0 && i < len(rs)-1 && isWordRune(rs[i-1]) && isWordRune(rs[i+1]) && p.R.P(25) {
			sb.WriteString(brk)
			p.Ev("style:folded-line")
			continue
		}
		sb.WriteRune(c)
	}
	return sb.String()
}

func isWordRune(c rune) bool {
	return c < 0x80 && (unicode.IsLetter(c) || unicode.IsDigit(c))
}

// flowScalar writes a scalar in plain or quoted style. oneLine forbids breaks, inFlow the flow indicators; ind is the
// smallest indentation of continuation lines.
func (p *Pres) flowScalar(v V, oneLine, inFlow bool, ind int) string {
	r := p.R
	switch v.K {
	case KBool:
		if v.B {
			return core.Pick(r, []string{"true", "True", "TRUE"})
		}
		return core.Pick(r, []string{"false", "False", "FALSE"})
	case KInt:
		if v.I >= 0 && r.P(20) {
			return core.Pick(r, []string{"0x" + strconv.FormatInt(v.I, 16), "0o" + strconv.FormatInt(v.I, 8), "+" + strconv.FormatInt(v.I, 10)})
		}
		return strconv.FormatInt(v.I, 10)
	case KUint:
		if r.P(20) {
			return core.Pick(r, []string{"0x" + strconv.FormatUint(v.U, 16), "0x" + strings.ToUpper(strconv.FormatUint(v.U, 16)), "0o" + strconv.FormatUint(v.U, 8)})
		}
		return strconv.FormatUint(v.U, 10)
	case KFloat:
		switch {
		case math.IsNaN(v.F):
			return core.Pick(r, []string{".nan", ".NaN", ".NAN"})
		case math.IsInf(v.F, 1):
			return core.Pick(r, []string{".inf", ".Inf", ".INF", "+.inf"})
		case math.IsInf(v.F, -1):
			return core.Pick(r, []string{"-.inf", "-.Inf", "-.INF"})
		}
		f := core.Pick(r, []byte{'e', 'E', 'g', 'f'})
		if f == 'f' && math.Abs(v.F) > 1e20 {
			f = 'e'
		}
		return strconv.FormatFloat(v.F, f, -1, 64)
	case KTime:
		t := v.T.Format("2006-01-02T15:04:05.999999999Z07:00")
		return core.Pick(r, []string{t, "'" + t + "'", "\"" + t + "\""})
	case KNull:
		return core.Pick(r, []string{"null", "~"})
	}
	s := v.S
	switch r.Intn(3) {
	case 0:
		if plainSafe(s, inFlow) {
			p.Ev("style:plain")
			if !oneLine {
				return p.foldSpaces(s, "\n"+pad(max(ind, 1)+r.Intn(3)))
			}
			return s
		}
		if !oneLine && strings.Contains(s, "\n") && plainSafe(strings.ReplaceAll(s, "\n", ""), inFlow) {
			if t, ok := p.foldText(s, max(ind, 1), func(c rune) string { return string(c) }); ok && plainLines(t) {
				p.Ev("style:plain-multiline")
				return t
			}
		}
	case 1:
		if t, ok := p.singleQuoted(s, oneLine, ind); ok {
			p.Ev("style:single-quoted")
			return t
		}
	}
	p.Ev("style:double-quoted")
	return p.doubleQuoted(s, oneLine, ind)
}

// plainLines: the lines of a plain scalar may not look like anything else.
func plainLines(t string) bool {
	for i, l := range strings.Split(t, "\n") {
		l = strings.Trim(l, " \t")
		if l == "" {
			continue
		}
		if i > 0 && !isWordRune(rune(l[0])) || strings.ContainsAny(l, "#:") {
			return false
		}
	}
	return true
}

// plainSafe is a conservative approximation of which texts may be written without quotes.
func plainSafe(s string, inFlow bool) bool {
	if s == "" || s == "~" || strings.EqualFold(s, "null") {
		return false
	}
	if strings.Trim(s, " \t") != s || strings.HasPrefix(s, "---") || strings.HasPrefix(s, "...") {
		return false
	}
	if s == "=" || s == "<<" {
		return false
	}
	rs := []rune(s)
	for i, c := range rs {
		if c < 0x20 && c != '\t' || c == 0x7f || (c >= 0x80 && c < 0xa0) || c == '\u2028' || c == '\u2029' || c == '\ufeff' || c > 0xffff && !unicode.IsPrint(c) || (c >= 0xfffd && c <= 0xffff) || unicode.Is(unicode.Zs, c) && c != ' ' {
			return false
		}
		if c == ':' && (i+1 == len(rs) || rs[i+1] == ' ' || rs[i+1] == '\t' || inFlow && strings.ContainsRune(",[]{}:", rs[i+1])) {
			return false
		}
		if c == '#' && i > 0 && (rs[i-1] == ' ' || rs[i-1] == '\t') {
			return false
		}
		if strings.ContainsRune(",[]{}", c) && inFlow {
			return false
		}
	}
	switch rs[0] {
	case '-', '?', ':':
		if len(rs) == 1 || rs[1] == ' ' {
			return false
		}
		return isWordRune(rs[1])
	case ',', '[', ']', '{', '}', '#', '&', '*', '!', '|', '>', '\'', '"', '%', '@', '`':
		return false
	}
	return true
}

// foldBreaks writes s with folded spaces and breaks; ok is false when the text can not be folded exactly.
func (p *Pres) foldText(s string, ind int, esc func(rune) string) (string, bool) {
	rs := []rune(s)
	var sb strings.Builder
	for i := 0; i < len(rs); i++ {
		c := rs[i]
		word := func(j int) bool { return j >= 0 && j < len(rs) && isWordRune(rs[j]) }
		if quoted := esc('\'') != "'" || esc('"') != "\""; quoted && c == ' ' && (i == 0 && word(1) || i == len(rs)-1 && word(i-1)) && p.R.P(20) && !p.NoFold {
			sb.WriteString("\n" + pad(max(ind, 0)+p.R.Intn(3)))
			p.Ev("style:folded-at-quote")
			continue
		}
		if c == ' ' && word(i-1) && word(i+1) && p.R.P(20) && !p.NoFold {
			sb.WriteString(core.Pick(p.R, []string{"", "", "", " ", "\t", "  "}) + "\n" + pad(max(ind, 0)+p.R.Intn(3)))
			p.Ev("style:folded-line")
			continue
		}
		if c == '\n' {
			j := i
			for j < len(rs) && rs[j] == '\n' {
				j++
			}
			if !word(i-1) || !word(j) || p.NoFold {
				return "", false
			}
			sb.WriteString(strings.Repeat("\n", j-i+1) + pad(max(ind, 0)+p.R.Intn(3)))
			p.Ev("style:folded-break")
			i = j - 1
			continue
		}
		sb.WriteString(esc(c))
	}
	return sb.String(), true
}

func (p *Pres) singleQuoted(s string, oneLine bool, ind int) (string, bool) {
	for _, c := range s {
		if c == '\n' && !oneLine {
			continue
		}
		if c < 0x20 && c != '\t' || c == 0x7f || (c >= 0x80 && c < 0xa0) || c == '\u2028' || c == '\u2029' || c == '\ufeff' || c > 0xffff && !unicode.IsPrint(c) || (c >= 0xfffd && c <= 0xffff) {
			return "", false
		}
	}
	if ind == 0 {
		ind = 1
	}
	if oneLine {
		return "'" + strings.ReplaceAll(s, "'", "''") + "'", true
	}
	t, ok := p.foldText(s, ind, func(c rune) string {
		if c == '\'' {
			return "''"
		}
		return string(c)
	})
	if !ok {
		return "", false
	}
	return "'" + t + "'", true
}

var dqShort = map[rune]string{0: "0", 7: "a", 8: "b", 9: "t", 10: "n", 11: "v", 12: "f", 13: "r", 27: "e", '"': "\"", '\\': "\\", 0x85: "N", 0xa0: "_", 0x2028: "L", 0x2029: "P", '/': "/", ' ': " "}

func (p *Pres) dqRune(c rune) string {
	if p.NoEscape && isWordRune(c) {
		return string(c)
	}
	r := p.R
	must := c < 0x20 || c == '"' || c == '\\' || c == 0x7f || (c >= 0x80 && c < 0xa0) || c == '\u2028' || c == '\u2029' || c == '\ufeff' || c > 0xffff && !unicode.IsPrint(c) || (c >= 0xfffd && c <= 0xffff)
	if !must && !r.P(4) {
		return string(c)
	}
	p.Ev("style:escape")
	if c == '\t' && r.P(20) {
		p.Ev("style:escaped-tab")
		return "\\\t"
	}
	if s, ok := dqShort[c]; ok && r.P(70) {
		return "\\" + s
	}
	switch {
	case c < 0x100 && r.P(60):
		return fmt.Sprintf(core.Pick(r, []string{"\\x%02x", "\\x%02X"}), c)
	case c < 0x10000 && r.P(80):
		return fmt.Sprintf(core.Pick(r, []string{"\\u%04x", "\\u%04X"}), c)
	}
	return fmt.Sprintf("\\U%08X", c)
}

func (p *Pres) doubleQuoted(s string, oneLine bool, ind int) string {
	if ind == 0 {
		ind = 1
	}
	if !oneLine {
		if t, ok := p.foldText(s, ind, p.dqRune); ok {
			return "\"" + t + "\""
		}
	}
	var sb strings.Builder
	for _, c := range s {
		sb.WriteString(p.dqRune(c))
		if !oneLine && !p.NoFold && !p.NoEscape && p.R.P(2) {
			sb.WriteString("\\\n" + pad(ind))
			p.Ev("style:escaped-break")
		}
	}
	t := sb.String()
	// a blank after an escaped break would be stripped
	if strings.Contains(t, "\\\n"+pad(ind)+" ") || strings.Contains(t, "\\\n"+pad(ind)+"\t") {
		return p.doubleQuoted(s, true, ind)
	}
	return "\"" + t + "\""
}

// flow writes a flow collection; ind is the smallest indentation of continuation lines.
func (p *Pres) flow(v *V, ind, depth int) string {
	r := p.R
	p.Ev("style:flow")
	multi := r.P(25)
	low := 1
	if ind <= 0 && r.P(30) {
		low = 0
	}
	ws := func(must bool) string {
		switch {
		case multi && r.P(25):
			c := ""
			if !p.NoComments && r.P(20) {
				c = " # in flow"
				p.Ev("style:flow-comment")
			}
			if r.P(10) {
				c += "\n" + pad(r.Intn(3))
				p.Ev("style:flow-blank-line")
			}
			if low == 0 {
				p.Ev("style:flow-at-margin")
			}
			return c + "\n" + pad(max(ind, low)+r.Intn(3))
		case r.P(2):
			return p.blank()
		case must || r.P(60):
			return " "
		case r.P(5):
			return "  "
		}
		return ""
	}
	var sb strings.Builder
	if v.K == KSeq {
		sb.WriteString("[")
		for i := range v.Seq {
			sb.WriteString(ws(false))
			e := &v.Seq[i]
			if e.K == KMap && len(e.Keys) == 1 && r.P(30) {
				p.inMap = false
				sb.WriteString(p.flowPair(&e.Keys[0], &e.Seq[0], ind, depth, ws))
				p.Ev("style:flow-pair")
			} else {
				sb.WriteString(p.flowNode(e, ind, depth+1))
			}
			sb.WriteString(ws(false))
			if i < len(v.Seq)-1 || r.P(10) {
				sb.WriteString(",")
			}
		}
		if len(v.Seq) == 0 || true {
			sb.WriteString(ws(false))
		}
		sb.WriteString("]")
		return sb.String()
	}
	sb.WriteString("{")
	for i := range v.Keys {
		sb.WriteString(ws(false))
		if r.P(6) {
			sb.WriteString("? ")
			p.Ev("style:flow-explicit-key")
		}
		if al, ok := p.keyAlias(v, i); ok {
			sb.WriteString(al + " :" + ws(true) + p.flowNode(&v.Seq[i], ind, depth+1))
		} else {
			p.inMap = true
			sb.WriteString(p.flowPair(&v.Keys[i], &v.Seq[i], ind, depth, ws))
		}
		sb.WriteString(ws(false))
		if i < len(v.Keys)-1 || r.P(10) {
			sb.WriteString(",")
		}
	}
	sb.WriteString(ws(false))
	sb.WriteString("}")
	return sb.String()
}

func (p *Pres) flowPair(k, v *V, ind, depth int, ws func(bool) string) string {
	var kt string
	if k.K == KSeq || k.K == KMap {
		kt = p.flowOneLine(k)
	} else {
		kt = p.flowScalar(*k, true, true, ind)
	}
	quoted := strings.HasPrefix(kt, "\"") || strings.HasPrefix(kt, "'")
	kt = p.keyProps(*k) + kt
	if v.K == KNull && k.K != KSeq && k.K != KMap && !p.NoEmptyFlow && p.R.P(25) {
		p.Ev("style:flow-empty-value")
		p.EmptyFlow = true
		if depth >= 0 && p.R.Bool() && p.inMap {
			return kt
		}
		if p.R.P(40) {
			p.Ev("style:flow-empty-value-at-once")
			return kt + ":"
		}
		return kt + ": "
	}
	sep := " "
	if p.R.P(20) && (k.K == KSeq || k.K == KMap || quoted) {
		sep = ""
		p.Ev("style:json-key")
	} else if t := ws(true); !strings.Contains(t, "#") {
		sep = t
	}
	return kt + ":" + sep + p.flowNode(v, ind, depth+1)
}

func (p *Pres) flowNode(v *V, ind, depth int) string {
	if al, ok := p.tryAlias(v, false); ok {
		return al + " "
	}
	ps, name := p.props(*v)
	p.open(name)
	defer func() { p.close(name, *v) }()
	if ps != "" {
		ps = p.splitProps(ps, max(ind-1, 0))
		if p.R.P(8) {
			ps += "\n" + pad(max(ind, 1)+p.R.Intn(3))
			p.Ev("style:properties-on-own-line")
		} else {
			ps += p.blank()
		}
	}
	switch v.K {
	case KSeq, KMap:
		return ps + p.flow(v, ind, depth)
	}
	return ps + p.flowScalar(*v, false, true, ind)
}

// flowOneLine writes a collection on one line (used for keys).
func (p *Pres) flowOneLine(v *V) string {
	var sb strings.Builder
	sv := func(e *V) {
		if e.K == KSeq || e.K == KMap {
			sb.WriteString(p.flowOneLine(e))
		} else {
			sb.WriteString(p.flowScalar(*e, true, true, 0))
		}
	}
	if v.K == KSeq {
		sb.WriteString("[")
		for i := range v.Seq {
			if i > 0 {
				sb.WriteString(", ")
			}
			sv(&v.Seq[i])
		}
		sb.WriteString("]")
		return sb.String()
	}
	sb.WriteString("{")
	for i := range v.Keys {
		if i > 0 {
			sb.WriteString(", ")
		}
		sv(&v.Keys[i])
		sb.WriteString(": ")
		sv(&v.Seq[i])
	}
	sb.WriteString("}")
	return sb.String()
}
