package props

import (
	"strings"

	"gopkg.in/yaml.v3"

	"verifharness/core"
)

// v3Agrees tells whether yaml.v3 sees v in src.
func v3Agrees(src string, v V) error {
	var n yaml.Node
	if err := yaml.Unmarshal([]byte(src), &n); err != nil {
		return err
	}
	if len(n.Content) != 1 {
		if v.K == KNull {
			return nil
		}
		return &mismatch{"$", "no document"}
	}
	return v3Matches(n.Content[0], v, false, "$")
}

func presentation(c *core.Ctx, i int) {
	r := c.R
	if r.P(4) {
		tight(c)
		return
	}
	o := GenOpts{TypedKeys: true, ComplexKeys: true, MaxWidth: 3}
	if r.P(30) {
		o.Str = GenTameString
	}
	v := GenRoot(r, o)
	evs := map[string]bool{}
	p := NewPres(r, func(s string) { evs[s] = true })
	p.Handles = true
	if r.P(40) {
		p.NoTags = true
	}
	src := p.Document(&v)
	if r.P(4) {
		src = strings.ReplaceAll(src, "\n", "\r\n")
		evs["style:crlf"] = true
	}
	c.Input(src)
	ref := src
	if evs["style:directive"] { // yaml.v3 takes no other version than 1.1
		ref = strings.Replace(ref, "%YAML 1.2", "%YAML 1.1", 1)
	}
	v3err := v3Agrees(ref, v)
	if v3err != nil && dumpDisputed {
		c.Fail("disputed", "%v", v3err)
	}
	c.NonTrivial()
	for k := range evs {
		c.Ev(k)
	}
	if err := ReadAll(YA, []byte(src), v, r); err != nil {
		c.Fail("reads-differently", "yayamls: %v\n--- value ---\n%v\n--- yaml.v3 ---\n%v", err, v, v3err)
		return
	}
	if v3err != nil {
		// forms yaml.v3 does not know: the value is the generator's word only, and goyaml is not asked
		c.Ev("judged-by-the-model-alone")
		return
	}
	if err := ReadAll(GO, []byte(ref), v, r); err != nil {
		c.Fail("reads-differently", "goyaml: %v\n--- value ---\n%v", err, v)
		return
	}
	c.Ev("documents-understood")
}

var dumpDisputed = false

func init() {
	core.Register(&core.Prop{ID: "C04", Quick: 600000, Thorough: 3000000, Run: presentation,
		MinEvents: []string{"style:plain", "style:single-quoted", "style:double-quoted", "style:literal", "style:folded", "style:flow", "style:explicit-key", "style:alias", "style:tag", "style:comment", "style:compact", "style:document-start", "style:directive", "tight-flow-compared", "judged-by-the-model-alone", "documents-understood"},
		Rule:      "random values written in random presentation (block/flow/compact, five scalar styles with folding, escapes, chomping and indentation indicators, comments, anchors/aliases incl. redefinition, tags, explicit keys, document markers, BOM, CRLF); and flow collections with the least possible white space; the generator's value is the oracle for yayamls, confirmed by the independent yaml.v3 wherever that knows the form (goyaml is judged there only); distinct: by source text"})
}
