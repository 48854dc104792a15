package props

import (
	"bytes"
	"strings"

	"verifharness/core"
)

func roundTrip(variants ...Engine) func(c *core.Ctx, i int) {
	return func(c *core.Ctx, i int) {
		r := c.R
		e := core.Pick(r, variants)
		c.Ev("engine:" + e.Name)
		o := GenOpts{TypedKeys: true, ComplexKeys: true}
		v := GenRoot(r, o)
		if r.P(2) {
			v = GenDeep(r, o, r.Range(10, 60))
		}
		c.Input(v.String())
		if v.Count() > 1 {
			c.NonTrivial()
		}
		CountKinds(c, v)
		enc := e.NewEncoder()
		InsertMix(c, e, enc, v, r, false)
		var src []byte
		var err error
		switch r.Intn(3) {
		case 0:
			src, err = enc.EncodeToBytes()
		case 1:
			var s string
			s, err = enc.EncodeToString()
			src = []byte(s)
		default:
			var b bytes.Buffer
			err = enc.EncodeTo(&b)
			src = b.Bytes()
		}
		if err != nil {
			c.Fail("encode-error", "%s: encoding of a well-formed value failed: %v", e.Name, err)
			return
		}
		if strings.Contains(v.String(), "\\") {
			c.Ev("value-needs-escaping")
		}
		if err := ReadAll(e, src, v, r); err != nil {
			c.Fail("round-trip", "%s: %v\n--- emitted ---\n%s", e.Name, err, src)
			return
		}
		c.Ev("documents-read-back")
	}
}

// binaryText: strings which are no valid UTF-8.
func binaryText(e Engine) []core.FixedCase {
	return []core.FixedCase{{Name: "invalid-utf8", Run: func(c *core.Ctx) {
		for _, s := range []string{"\xff", "a\xffb", "\xed\xa0\x80"} {
			c.Input(s)
			enc := e.NewEncoder()
			enc.InsertString(s)
			src, err := enc.EncodeToBytes()
			if err != nil {
				continue // refusing is no loss
			}
			d, err := e.NewDecoder(src)
			if err != nil {
				c.Fail("binary-text", "%s: the document written for %q is rejected: %v", e.Name, s, err)
				return
			}
			if got := d.String(); got != s || d.Error() != nil {
				c.Fail("binary-text", "%s: %q is read back as %q, error %v", e.Name, s, got, d.Error())
				return
			}
		}
		c.Ev("fixed-case")
	}}}
}

func init() {
	core.Register(&core.Prop{ID: "C01", Quick: 200000, Thorough: 6000000, Run: roundTrip(YA, YAUnquoted), Fixed: binaryText(YA),
		Rule: "random value trees (nulls, booleans, 8..64-bit integers at type edges, floats incl. NaN/Inf/-0/subnormals, timestamps with zones and nanoseconds, hostile strings, nested sequences/mappings, complex keys) inserted, encoded through a random sink and read back call by call; non-trivial: more than one node; distinct: by value"})
	core.Register(&core.Prop{ID: "C02", Quick: 200000, Thorough: 6000000, Run: roundTrip(GO, GOUnquoted), Fixed: binaryText(GO),
		Rule: "as C01, goyaml engine"})
}
