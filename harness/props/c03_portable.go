package props

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"gopkg.in/yaml.v3"

	"verifharness/core"
)

// v3Matches compares a yaml.v3 node with the model value. strict also compares the resolved type.
func v3Matches(n *yaml.Node, v V, strict bool, path string) error {
	bad := func(f string, a ...any) error { return &mismatch{path, fmt.Sprintf(f, a...)} }
	for n.Kind == yaml.AliasNode {
		n = n.Alias
	}
	want := map[Kind]yaml.Kind{KSeq: yaml.SequenceNode, KMap: yaml.MappingNode}[v.K]
	if want == 0 {
		want = yaml.ScalarNode
	}
	if n.Kind != want {
		return bad("node kind %d want %d for %v (value %q)", n.Kind, want, v, n.Value)
	}
	tag := n.ShortTag()
	if v.K != KSeq && v.K != KMap {
		if (tag == "!!null") != (v.K == KNull) {
			return bad("resolved to %s (%q), want %v", tag, n.Value, v)
		}
	}
	switch v.K {
	case KBool:
		if tag != "!!bool" || strings.ToLower(n.Value) != strconv.FormatBool(v.B) {
			return bad("%s %q want %v", tag, n.Value, v)
		}
	case KInt:
		var x int64
		if err := n.Decode(&x); tag != "!!int" || err != nil || x != v.I {
			return bad("%s %q want %v (%v)", tag, n.Value, v, err)
		}
	case KUint:
		var x uint64
		if err := n.Decode(&x); tag != "!!int" || err != nil || x != v.U {
			return bad("%s %q want %v (%v)", tag, n.Value, v, err)
		}
	case KFloat:
		var x float64
		if err := n.Decode(&x); (tag != "!!float" && tag != "!!int") || err != nil || (!floatSame(x, v.F) && !(x == 0 && v.F == 0)) {
			return bad("%s %q want %v (%v)", tag, n.Value, v, err)
		}
		if math.IsNaN(v.F) && tag != "!!float" {
			return bad("%s %q want %v", tag, n.Value, v)
		}
	case KStr:
		if n.Value != v.S {
			return bad("text %q want %q", n.Value, v.S)
		}
		if strict && tag != "!!str" {
			return bad("string %q resolved to %s", v.S, tag)
		}
	case KTime:
		t, err := parseTimeRef(n.Value)
		if err != nil || !t.Equal(v.T) {
			return bad("timestamp text %q want %v", n.Value, v)
		}
	case KSeq:
		if len(n.Content) != len(v.Seq) {
			return bad("%d elements want %d", len(n.Content), len(v.Seq))
		}
		for i := range v.Seq {
			if err := v3Matches(n.Content[i], v.Seq[i], strict, fmt.Sprintf("%s[%d]", path, i)); err != nil {
				return err
			}
		}
	case KMap:
		if len(n.Content) != 2*len(v.Keys) {
			return bad("%d entries want %d", len(n.Content)/2, len(v.Keys))
		}
		for i := range v.Keys {
			if err := v3Matches(n.Content[2*i], v.Keys[i], strict, fmt.Sprintf("%s.key%d", path, i)); err != nil {
				return err
			}
			if err := v3Matches(n.Content[2*i+1], v.Seq[i], strict, fmt.Sprintf("%s.%d", path, i)); err != nil {
				return err
			}
		}
	}
	return nil
}

func portable(c *core.Ctx, i int) {
	r := c.R
	e := core.Pick(r, []Engine{YA, YAUnquoted, GO, GO})
	o := GenOpts{TypedKeys: true, ComplexKeys: true}
	v := GenRoot(r, o)
	c.Input(v.String())
	if v.Count() > 1 {
		c.NonTrivial()
	}
	enc := e.NewEncoder()
	Insert(enc, v)
	src, err := enc.EncodeToBytes()
	if err != nil {
		c.Fail("encode-error", "%s: %v", e.Name, err)
		return
	}
	c.Ev("emitted-by:" + e.Name)
	// independent parser
	var n yaml.Node
	if err := yaml.Unmarshal(src, &n); err != nil {
		c.Fail("foreign-rejects", "yaml.v3 rejects the document of %s: %v\n--- emitted ---\n%s", e.Name, err, src)
		return
	}
	if n.Kind != yaml.DocumentNode || len(n.Content) != 1 {
		c.Fail("foreign-rejects", "yaml.v3 does not see one document\n--- emitted ---\n%s", src)
		return
	}
	if err := v3Matches(n.Content[0], v, e.Name != YAUnquoted.Name, "$"); err != nil {
		c.Fail("foreign-differs", "%s document means something else to yaml.v3: %v\n--- emitted ---\n%s", e.Name, err, src)
		return
	}
	c.Ev("agreed:yaml.v3")
	other := GO
	if e.Name == GO.Name {
		other = YA
	}
	if err := ReadAll(other, src, v, r); err != nil {
		c.Fail("cross-engine", "document of %s read by %s: %v\n--- emitted ---\n%s", e.Name, other.Name, err, src)
		return
	}
	c.Ev("agreed:" + other.Name)
}

func init() {
	core.Register(&core.Prop{ID: "C03", Quick: 150000, Thorough: 5000000, Run: portable,
		MinEvents: []string{"emitted-by:yayamls", "emitted-by:goyaml", "agreed:yaml.v3", "agreed:yayamls", "agreed:goyaml"},
		Rule:      "random value trees as in C01, encoded by one engine; the bytes are parsed by yaml.v3 and by the other engine and compared node by node (kind, resolved type, value) with the inserted value; non-trivial: more than one node"})
}
