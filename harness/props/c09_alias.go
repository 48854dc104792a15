package props

import (
	"errors"
	"fmt"
	"reflect"
	"strings"

	"github.com/KSpaceer/yamly"
	"gopkg.in/yaml.v3"

	"verifharness/core"
)

// aNode is a node of a document with anchors, aliases and merge keys.
type aNode struct {
	anchor string
	alias  string
	target *aNode
	kind   byte // 's'calar, 'l'ist, 'm'apping
	text   string
	val    any // scalars
	keys   []string
	sub    []*aNode
}

type aGen struct {
	r       *core.Rand
	scalars []string // names of anchors which are complete
	maps    []string
	lists   []string
	open    []string
	n       int
	redef   bool // anchors may be redefined; then anchored collections have neither aliases nor anchors inside (see the known finding)
	free    bool // anchored collections have them all the same: goyaml only
	noAlias int  // >0: inside of an anchored collection of a document with redefinitions
	ev      func(string)
	many    int    // items with anchors put first
	want    string // kind of a fault to plant: "", "cycle", "undefined"
	fault   string // planted fault
}

func (g *aGen) scalar() *aNode {
	r := g.r
	n := &aNode{kind: 's'}
	switch r.Intn(7) {
	case 0:
		n.text, n.val = core.Pick(r, []string{"null", "~"}), nil
	case 1:
		n.text, n.val = core.Pick(r, []string{"true", "True"}), true
	case 2:
		u := uint64(r.Intn(1000))
		n.text, n.val = fmt.Sprint(u), u
	case 3:
		i := -1 - int64(r.Intn(1000))
		n.text, n.val = fmt.Sprint(i), i
	case 4:
		f := float64(r.Intn(1000)) + 0.5
		n.text, n.val = fmt.Sprint(f), f
	default:
		s := core.Pick(r, []string{"gold", "silk", "iron", "stone", "glass"}) + fmt.Sprint(r.Intn(100)) + "z"
		n.val = s
		n.text = core.Pick(r, []string{s, "'" + s + "'", "\"" + s + "\""})
	}
	return n
}

func (g *aGen) name(list *[]string) string {
	all := append(append(append([]string{}, g.scalars...), g.maps...), g.lists...)
	if g.redef && len(all) > 0 && g.r.P(35) {
		n := core.Pick(g.r, all)
		g.ev("anchor-redefined")
		g.forget(n)
		return n
	}
	g.n++
	return fmt.Sprintf("%s%d", core.Pick(g.r, []string{"a", "base", "x_", "n-"}), g.n)
}

func (g *aGen) forget(n string) {
	for _, l := range []*[]string{&g.scalars, &g.maps, &g.lists} {
		var k []string
		for _, x := range *l {
			if x != n {
				k = append(k, x)
			}
		}
		*l = k
	}
}

func (g *aGen) node(depth int) *aNode {
	r := g.r
	if g.want != "" && g.fault == "" && r.P(20) {
		switch {
		case g.want == "cycle" && len(g.open) > 0:
			g.fault = "cycle"
			return &aNode{alias: core.Pick(r, g.open)}
		case g.want == "undefined":
			g.fault = "undefined"
			return &aNode{alias: core.Pick(r, []string{"nowhere", "a99", "base", "a"})}
		}
	}
	if g.noAlias == 0 && r.P(25) {
		var all []string
		all = append(append(append(all, g.scalars...), g.maps...), g.lists...)
		if len(all) > 0 {
			g.ev("alias")
			return &aNode{alias: core.Pick(r, all)}
		}
	}
	if depth <= 0 || r.P(25) {
		n := g.scalar()
		if g.noAlias == 0 && r.P(25) {
			n.anchor = g.name(nil)
			g.scalars = append(g.scalars, n.anchor)
		}
		return n
	}
	var n *aNode
	anchor := ""
	if g.noAlias == 0 && r.P(50) {
		anchor = g.name(nil)
		g.forget(anchor)
		g.open = append(g.open, anchor)
		if g.redef && !g.free {
			g.noAlias++
		}
	}
	if r.P(35) {
		n = &aNode{kind: 'l', anchor: anchor}
		for i := r.Intn(4); i >= 0; i-- {
			n.sub = append(n.sub, g.node(depth-1))
		}
	} else {
		n = g.mapping(depth)
		n.anchor = anchor
	}
	if anchor != "" {
		g.open = g.open[:len(g.open)-1]
		if g.redef && !g.free {
			g.noAlias--
		}
		g.forget(anchor)
		if n.kind == 'm' {
			g.maps = append(g.maps, anchor)
		} else {
			g.lists = append(g.lists, anchor)
		}
	}
	return n
}

var aKeys = []string{"k1", "k2", "k3", "k4", "k5", "k6", "host", "port"}

func (g *aGen) mapping(depth int) *aNode {
	r := g.r
	n := &aNode{kind: 'm'}
	seen := map[string]bool{}
	merge := r.P(45)
	cnt := r.Intn(5)
	at := r.Intn(cnt + 1)
	for i := 0; i <= cnt; i++ {
		if i == at && merge {
			n.keys = append(n.keys, "<<")
			n.sub = append(n.sub, g.mergeSource(depth))
			g.ev("merge-key")
		}
		k := core.Pick(r, aKeys)
		if i == cnt || seen[k] {
			continue
		}
		seen[k] = true
		n.keys = append(n.keys, k)
		n.sub = append(n.sub, g.node(depth-1))
	}
	if len(n.keys) == 0 {
		n.keys, n.sub = []string{"k9"}, []*aNode{g.scalar()}
	}
	return n
}

func (g *aGen) mergeOne(depth int) *aNode {
	if g.want == "cycle" && g.fault == "" && len(g.open) > 0 && g.r.P(20) {
		g.fault = "cycle"
		return &aNode{alias: core.Pick(g.r, g.open)}
	}
	if g.noAlias == 0 && len(g.maps) > 0 && g.r.P(75) {
		return &aNode{alias: core.Pick(g.r, g.maps)}
	}
	return g.mapping(min(depth-1, 1))
}

func (g *aGen) mergeSource(depth int) *aNode {
	if g.r.P(40) {
		g.ev("merge-list")
		n := &aNode{kind: 'l'}
		for i := g.r.Intn(3); i >= 0; i-- {
			n.sub = append(n.sub, g.mergeOne(depth))
		}
		return n
	}
	return g.mergeOne(depth)
}

// emit writes the node after an indicator.
func (n *aNode) emit(r *core.Rand, sb *strings.Builder, ind int, flow bool) {
	if n.alias != "" {
		sb.WriteString("*" + n.alias)
		if flow {
			sb.WriteString(" ")
		} else {
			sb.WriteString("\n")
		}
		return
	}
	pre := ""
	if n.anchor != "" {
		pre = "&" + n.anchor + " "
	}
	if n.kind == 's' {
		sb.WriteString(pre + n.text)
		if !flow {
			sb.WriteString("\n")
		}
		return
	}
	if !flow && r.P(65) && ind >= 0 {
		sb.WriteString(strings.TrimSuffix(pre, " ") + "\n")
		in := ind + r.Range(1, 3)
		for i, s := range n.sub {
			sb.WriteString(pad(in))
			if n.kind == 'l' {
				sb.WriteString("- ")
			} else {
				sb.WriteString(n.keys[i] + ": ")
			}
			s.emit(r, sb, in, false)
		}
		return
	}
	sb.WriteString(pre)
	o, cl := "[", "]"
	if n.kind == 'm' {
		o, cl = "{", "}"
	}
	sb.WriteString(o)
	for i, s := range n.sub {
		if i > 0 {
			sb.WriteString(", ")
		}
		if n.kind == 'm' {
			sb.WriteString(n.keys[i] + ": ")
		}
		s.emit(r, sb, ind+1, true)
	}
	sb.WriteString(cl)
	if !flow {
		sb.WriteString("\n")
	}
}

// size is the number of nodes with the aliases expanded.
func (n *aNode) size(env map[string]int) int {
	if n.alias != "" {
		return env[n.alias]
	}
	k := 1
	for _, s := range n.sub {
		k = min(k+s.size(env), 1<<30)
	}
	if n.anchor != "" {
		env[n.anchor] = k
	}
	return k
}

// eval gives the Go value; env holds the latest definition of each anchor.
func (n *aNode) eval(env map[string]any) any {
	if n.alias != "" {
		return env[n.alias]
	}
	var v any
	switch n.kind {
	case 's':
		v = n.val
	case 'l':
		l := make([]any, 0, len(n.sub))
		for _, s := range n.sub {
			l = append(l, s.eval(env))
		}
		v = l
	case 'm':
		m := map[string]any{}
		var merged []map[string]any
		for i, s := range n.sub {
			x := s.eval(env)
			if n.keys[i] != "<<" {
				m[n.keys[i]] = x
				continue
			}
			switch y := x.(type) {
			case map[string]any:
				merged = append(merged, y)
			case []any:
				for _, e := range y {
					merged = append(merged, e.(map[string]any))
				}
			}
		}
		for _, s := range merged {
			for k, x := range s {
				if _, ok := m[k]; !ok {
					m[k] = x
				}
			}
		}
		v = m
	}
	if n.anchor != "" {
		env[n.anchor] = v
	}
	return v
}

// plainV is the document as typed calls see it: merge keys are keys like any other.
func (n *aNode) plainV(env map[string]V) V {
	if n.alias != "" {
		return env[n.alias]
	}
	var v V
	switch n.kind {
	case 's':
		switch x := n.val.(type) {
		case nil:
			v = V{K: KNull}
		case bool:
			v = V{K: KBool, B: x}
		case uint64:
			v = V{K: KUint, U: x}
		case int64:
			v = V{K: KInt, I: x}
		case float64:
			v = V{K: KFloat, F: x}
		case string:
			v = Str(x)
		}
	case 'l', 'm':
		v.K = KSeq
		if n.kind == 'm' {
			v.K = KMap
		}
		for i, s := range n.sub {
			if n.kind == 'm' {
				v.Keys = append(v.Keys, Str(n.keys[i]))
			}
			v.Seq = append(v.Seq, s.plainV(env))
		}
	}
	if n.anchor != "" {
		env[n.anchor] = v
	}
	return v
}

// aliasDoc writes a document with anchors and aliases, now and then with a fault.
func aliasDoc(r *core.Rand, ev func(string), fault int) (*aGen, *aNode, string) {
	g := &aGen{r: r, ev: ev, redef: r.P(30)}
	if r.P(fault) {
		g.want = core.Pick(r, []string{"cycle", "cycle", "undefined"})
		g.redef = g.redef && r.P(40)
		g.free = g.redef
	}
	g.free = g.free || g.redef && r.P(40)
	root := &aNode{kind: 'l'}
	if r.Bool() {
		root.kind = 'm'
	}
	if r.P(20) {
		root.anchor = "root"
		g.open = append(g.open, "root")
	}
	k := r.Range(2, 5)
	if r.Intn(400) == 0 {
		k = r.Range(20, 150)
	}
	if g.want == "" && r.Intn(150) == 0 {
		// many anchors, to be called for long after
		for m := r.Range(40, 700); m > 0; m-- {
			n := g.scalar()
			if r.P(15) {
				n = &aNode{kind: 'm', keys: []string{core.Pick(r, aKeys)}, sub: []*aNode{n}}
			}
			n.anchor = g.name(nil)
			if n.kind == 'm' {
				g.maps = append(g.maps, n.anchor)
			} else {
				g.scalars = append(g.scalars, n.anchor)
			}
			if root.kind == 'm' {
				root.keys = append(root.keys, fmt.Sprintf("m%d", m))
			}
			root.sub = append(root.sub, n)
		}
		k += r.Range(10, 40)
		g.many = len(root.sub)
		g.ev("many-anchors")
	}
	for ; k > 0; k-- {
		if root.kind == 'm' {
			root.keys = append(root.keys, fmt.Sprintf("r%d", k))
		}
		root.sub = append(root.sub, g.node(3))
	}
	var sb strings.Builder
	sb.WriteString("---")
	if r.P(70) {
		if root.anchor != "" {
			sb.WriteString(" &root")
		}
		sb.WriteString("\n")
		for i, s := range root.sub {
			if root.kind == 'l' {
				sb.WriteString("- ")
			} else {
				sb.WriteString(root.keys[i] + ": ")
			}
			s.emit(r, &sb, 0, false)
		}
	} else {
		sb.WriteString(" ")
		root.emit(r, &sb, -1, false)
	}
	return g, root, sb.String()
}

func aliases(c *core.Ctx, i int) {
	r := c.R
	evs := map[string]int64{}
	g, root, src := aliasDoc(r, func(s string) { evs[s]++ }, 25)
	c.Input(src)

	if g.want != "" && g.fault == "" {
		c.Ev("no-fault-planted")
		return
	}
	if g.fault != "" {
		engines := Engines
		if g.free {
			engines = []Engine{GO}
		}
		faulty(c, engines, src, g.fault, root)
		return
	}
	if root.size(map[string]int{}) > 400+8*g.many {
		c.Ev("not-judged(expands too much)")
		return
	}
	want := root.eval(map[string]any{})
	wantV := root.plainV(map[string]V{})
	// the model is confirmed by yaml.v3
	var v3 any
	if err := yaml.Unmarshal([]byte(src), &v3); err != nil {
		c.Ev("not-judged(yaml.v3 rejects)")
		return
	}
	if !sameAny(v3, want) {
		c.Ev("not-judged(yaml.v3 disagrees with the model)")
		if dumpDisputed {
			c.Fail("disputed", "%v\nwant %v", v3, want)
		}
		return
	}
	if len(evs) > 0 {
		c.NonTrivial()
	}
	for k, n := range evs {
		c.EvN(k, n)
	}
	engines := Engines
	if g.free {
		engines = []Engine{GO}
		c.Ev("goyaml-only")
	}
	for _, e := range engines {
		d, err := e.NewDecoder([]byte(src))
		if err != nil {
			c.Fail("rejected", "%s: %v", e.Name, err)
			return
		}
		got := d.Any()
		if err := d.Error(); err != nil {
			c.Fail("any-error", "%s: Any(): %v", e.Name, err)
			return
		}
		if !sameAny(got, want) {
			c.Fail("any-differs", "%s: Any() = %v\nwant %v", e.Name, got, want)
			return
		}
		c.Ev("any-resolved:" + e.Name)
		if err := ReadAll(e, []byte(src), wantV, r); err != nil {
			c.Fail("reads-differently", "%s: typed calls: %v\nwant %v", e.Name, err, wantV)
			return
		}
		// piecewise: Any or a typed read per element of the root
		d, _ = e.NewDecoder([]byte(src))
		var st yamly.CollectionState
		if root.kind == 'm' {
			st = d.Mapping()
		} else {
			st = d.Sequence()
		}
		if !pieces(c, e, d, st, wantV, r, "$", 0) {
			return
		}
	}
}

// pieces reads the items of an opened collection, each in another way.
func pieces(c *core.Ctx, e Engine, d yamly.Decoder, st yamly.CollectionState, v V, r *core.Rand, path string, depth int) bool {
	for i := 0; st.HasUnprocessedItems(); i++ {
		if i >= len(v.Seq) {
			c.Fail("any-differs", "%s: more than %d items in %s", e.Name, len(v.Seq), path)
			return false
		}
		if v.K == KMap {
			if k := d.String(); k != v.Keys[i].S {
				c.Fail("reads-differently", "%s: key %d of %s is %q, want %q", e.Name, i, path, k, v.Keys[i].S)
				return false
			}
		}
		item, at := v.Seq[i], fmt.Sprintf("%s[%d]", path, i)
		switch x := r.Intn(6); {
		case x == 0:
			d.Skip()
			c.Ev("piece:skip")
		case x == 1:
			b := d.Raw()
			if d.Error() == nil {
				if err := rawMeans(e, b, item.merged()); err != nil {
					c.Fail("raw-differs", "%s: Raw() of %s: %v\n%s", e.Name, at, err, b)
					return false
				}
			}
			c.Ev("piece:raw")
			if depth > 0 {
				c.Ev("piece:deep-raw")
			}
		case x == 2:
			if err := ReadExpect(d, item, r, at); err != nil {
				c.Fail("reads-differently", "%s: %v", e.Name, err)
				return false
			}
			c.Ev("piece:typed")
		case x == 3 || item.K != KSeq && item.K != KMap:
			if got, w := d.Any(), item.merged(); d.Error() == nil && !sameAny(got, w) {
				c.Fail("any-differs", "%s: Any() of %s = %v\nwant %v", e.Name, at, got, w)
				return false
			}
			c.Ev("piece:any")
		default:
			var inner yamly.CollectionState
			if item.K == KMap {
				inner = d.Mapping()
			} else {
				inner = d.Sequence()
			}
			if d.Error() == nil && !pieces(c, e, d, inner, item, r, at, depth+1) {
				return false
			}
			c.Ev("piece:descend")
		}
		if err := d.Error(); err != nil {
			c.Fail("piece-error", "%s: %s: %v", e.Name, at, err)
			return false
		}
	}
	return true
}

// merged is the Go value with the merge keys applied.
func (v V) merged() any {
	switch v.K {
	case KNull:
		return nil
	case KBool:
		return v.B
	case KUint:
		return v.U
	case KInt:
		return v.I
	case KFloat:
		return v.F
	case KSeq:
		l := make([]any, 0, len(v.Seq))
		for _, e := range v.Seq {
			l = append(l, e.merged())
		}
		return l
	case KMap:
		m := map[string]any{}
		var sources []map[string]any
		for i, e := range v.Seq {
			x := e.merged()
			if v.Keys[i].S != "<<" {
				m[v.Keys[i].S] = x
				continue
			}
			switch y := x.(type) {
			case map[string]any:
				sources = append(sources, y)
			case []any:
				for _, z := range y {
					sources = append(sources, z.(map[string]any))
				}
			}
		}
		for _, src := range sources {
			for k, x := range src {
				if _, ok := m[k]; !ok {
					m[k] = x
				}
			}
		}
		return m
	}
	return v.S
}

// rawMeans: the bytes stand alone and denote the value w.
func rawMeans(e Engine, b []byte, w any) error {
	if w == nil {
		return nil
	}
	for _, x := range []Engine{e, GO} {
		d, err := x.NewDecoder(b)
		if err != nil {
			return fmt.Errorf("%s rejects: %w", x.Name, err)
		}
		got := d.Any()
		if d.Error() != nil {
			return fmt.Errorf("%s: %w", x.Name, d.Error())
		}
		if !sameAny(got, w) {
			return fmt.Errorf("%s reads %v, want %v", x.Name, got, w)
		}
	}
	return nil
}

func faulty(c *core.Ctx, engines []Engine, src, fault string, root *aNode) {
	bind(root, map[string]*aNode{})
	c.NonTrivial()
	c.Ev("fault:" + fault)
	for _, e := range engines {
		for mode := 0; mode < 4; mode++ {
			d, err := e.NewDecoder([]byte(src))
			if err != nil {
				if e.Name == YA.Name && fault != "undefined" {
					c.Fail("rejected", "%s: %v", e.Name, err)
					return
				}
				c.Ev("reported-at-once")
				continue
			}
			var what string
			switch mode {
			case 0:
				what = "Any()"
				if v := d.Any(); v != nil && d.Error() != nil {
					c.Fail("value-with-error", "%s: %s returned %v along with %v", e.Name, what, v, d.Error())
					return
				}
			case 1:
				what = "Raw()"
				if v := d.Raw(); v != nil && d.Error() != nil {
					c.Fail("value-with-error", "%s: %s returned %q along with %v", e.Name, what, v, d.Error())
					return
				}
				if fault == "cycle" && d.Error() == nil {
					c.Ev("cycle-kept-in-raw") // the anchor is within the subtree, so the text is the same cyclic document
					continue
				}
			case 2:
				what = "a walk over the document"
				steps := 0
				walkAll(d, root, &steps)
				if steps > 20000 {
					c.Fail("endless", "%s: the walk makes more than %d steps", e.Name, steps)
					return
				}
			}
			if mode == 3 {
				what = "a walk with subtrees taken"
				steps := 0
				wander(d, root, c.R, &steps, func(string) {})
				if d.Error() == nil {
					c.Ev("fault-not-reached")
					continue
				}
			}
			if d.Error() == nil {
				c.Fail("fault-accepted", "%s: %s of a document with a fault (%s) succeeds", e.Name, what, fault)
				return
			}
			if errors.Is(d.Error(), yamly.ErrEndOfStream) || errors.Is(d.Error(), yamly.ErrDenied) {
				c.Fail("wrong-class", "%s: %s: %v", e.Name, what, d.Error())
				return
			}
			c.Ev("fault-reported")
		}
	}
}

// bind finds the node each alias stands for.
func bind(n *aNode, anchors map[string]*aNode) {
	if n.alias != "" {
		n.target = anchors[n.alias]
	}
	if n.anchor != "" {
		anchors[n.anchor] = n
	}
	for _, s := range n.sub {
		bind(s, anchors)
	}
}

// walkAll reads the document along its structure, through the aliases.
func walkAll(d yamly.Decoder, n *aNode, steps *int) {
	*steps++
	if *steps > 20000 || d.Error() != nil {
		return
	}
	if n.alias != "" {
		if n.target != nil {
			walkAll(d, n.target, steps)
		} else {
			_ = d.String()
		}
		return
	}
	if n.kind == 's' {
		if n.val == nil {
			d.TryNull()
		} else {
			_ = d.String()
		}
		return
	}
	var st yamly.CollectionState
	if n.kind == 'm' {
		st = d.Mapping()
	} else {
		st = d.Sequence()
	}
	for i := 0; i < len(n.sub) && st.HasUnprocessedItems(); i++ {
		if n.kind == 'm' {
			_ = d.String()
		}
		walkAll(d, n.sub[i], steps)
	}
}

// wander reads a document along its structure with another kind of call at each node; the outcomes are not judged.
func wander(d yamly.Decoder, n *aNode, r *core.Rand, steps *int, call func(string)) {
	*steps++
	if *steps > 300 || d.Error() != nil {
		return
	}
	switch r.Intn(8) {
	case 0, 1:
		call("Raw")
		scribble(d.Raw())
		return
	case 2:
		call("Any")
		mutate(d.Any())
		return
	case 3:
		call("Skip")
		d.Skip()
		return
	}
	for n.alias != "" {
		if n = n.target; n == nil {
			_ = d.String()
			return
		}
	}
	var st yamly.CollectionState
	switch n.kind {
	case 's':
		call("String")
		if !d.TryNull() {
			_ = d.String()
		}
		return
	case 'm':
		st = d.Mapping()
	default:
		st = d.Sequence()
	}
	call("enter")
	for i := 0; i < len(n.sub) && *steps <= 300 && st.HasUnprocessedItems(); i++ {
		if n.kind == 'm' {
			_ = d.String()
		}
		wander(d, n.sub[i], r, steps, call)
	}
}

func sameAny(a, b any) bool { return reflect.DeepEqual(normAny(a), normAny(b)) }

func normAny(v any) any {
	switch x := v.(type) {
	case int:
		if x >= 0 {
			return uint64(x)
		}
		return int64(x)
	case int64:
		if x >= 0 {
			return uint64(x)
		}
		return x
	case []any:
		out := make([]any, len(x))
		for i := range x {
			out[i] = normAny(x[i])
		}
		return out
	case map[string]any:
		out := map[string]any{}
		for k, e := range x {
			out[k] = normAny(e)
		}
		return out
	case map[any]any:
		out := map[string]any{}
		for k, e := range x {
			out[fmt.Sprint(k)] = normAny(e)
		}
		return out
	}
	return v
}

func init() {
	core.Register(&core.Prop{ID: "C09", Quick: 40000, Thorough: 5000000, Run: aliases,
		MinEvents: []string{"alias", "merge-key", "merge-list", "anchor-redefined", "any-resolved:yayamls", "any-resolved:goyaml", "fault:cycle", "fault:undefined", "fault-reported", "piece:raw", "piece:skip", "piece:any", "piece:typed", "piece:descend", "piece:deep-raw", "goyaml-only"},
		Fixed: []core.FixedCase{{Name: "alias-in-reused-collection", Run: func(c *core.Ctx) {
			src := "- &a one\n- &c [*a]\n- &a two\n- *c\n"
			c.Input(src)
			c.NonTrivial()
			for _, e := range Engines {
				d, err := e.NewDecoder([]byte(src))
				if err != nil {
					c.Fail("rejected", "%s: %v", e.Name, err)
					return
				}
				want := []any{"one", []any{"one"}, "two", []any{"one"}}
				if got := d.Any(); d.Error() != nil || !sameAny(got, want) {
					c.Fail("late-binding", "%s: Any() = %v, %v, want %v", e.Name, got, d.Error(), want)
					return
				}
			}
		}}, {Name: "anchor-in-reused-collection", Run: func(c *core.Ctx) {
			src := "- &c [&a one]\n- &a two\n- *c\n- *a\n"
			c.Input(src)
			c.NonTrivial()
			for _, e := range Engines {
				d, err := e.NewDecoder([]byte(src))
				if err != nil {
					c.Fail("rejected", "%s: %v", e.Name, err)
					return
				}
				want := []any{[]any{"one"}, "two", []any{"one"}, "two"}
				if got := d.Any(); d.Error() != nil || !sameAny(got, want) {
					c.Fail("late-binding", "%s: Any() = %v, %v, want %v", e.Name, got, d.Error(), want)
					return
				}
			}
		}}},
		Rule: "random documents with anchors, redefined anchors, aliases and merge keys (single source, list of sources, inline sources, chains) in block and flow style; oracle: reference evaluation confirmed by yaml.v3, read with Any, with typed calls and piecewise with Skip/Raw/Any/typed calls at every depth; documents with a cyclic or undefined alias must end in an error on every way of reading; non-trivial: at least one alias, merge key or planted fault"})
}
