package props

import (
	"fmt"

	"gopkg.in/yaml.v3"

	"verifharness/core"
)

func Anyable(v V) bool                               { return anyable(v) }
func AnyAccept(got any, v V, path string) error      { return anyAccept(got, v, path) }
func V3Matches(n *yaml.Node, v V, strict bool) error { return v3Matches(n, v, strict, "$") }

// V3Doc parses a single document.
func V3Doc(src []byte) (*yaml.Node, error) {
	var n yaml.Node
	if err := yaml.Unmarshal(src, &n); err != nil {
		return nil, err
	}
	if n.Kind == 0 {
		return &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!null"}, nil
	}
	if len(n.Content) != 1 {
		return nil, fmt.Errorf("%d documents", len(n.Content))
	}
	return n.Content[0], nil
}

// Align puts the entries of v whose order is not determined into the order of the document.
func Align(v V, n *yaml.Node) V {
	for n.Kind == yaml.AliasNode {
		n = n.Alias
	}
	switch {
	case v.K == KSeq && n.Kind == yaml.SequenceNode && len(v.Seq) == len(n.Content):
		out := v
		out.Seq = nil
		for i := range v.Seq {
			out.Seq = append(out.Seq, Align(v.Seq[i], n.Content[i]))
		}
		return out
	case v.K == KMap && n.Kind == yaml.MappingNode && 2*len(v.Seq) == len(n.Content):
		out := v
		out.Seq, out.Keys = nil, nil
		used := make([]bool, len(v.Keys))
		for i := range v.Keys {
			at := -1
			if v.Unordered {
				for j := range v.Keys {
					if !used[j] && v3Matches(n.Content[2*i], Align(v.Keys[j], n.Content[2*i]), true, "") == nil {
						at = j
						break
					}
				}
				for j := range v.Keys {
					if at < 0 && !used[j] && v3Matches(n.Content[2*i], Align(v.Keys[j], n.Content[2*i]), false, "") == nil {
						at = j
					}
				}
			} else {
				at = i
			}
			if at < 0 {
				return v
			}
			used[at] = true
			out.Keys = append(out.Keys, Align(v.Keys[at], n.Content[2*i]))
			out.Seq = append(out.Seq, Align(v.Seq[at], n.Content[2*i+1]))
		}
		return out
	}
	return v
}

// PresentV writes v in some presentation that yaml.v3 confirms; ok is false if it does not.
// Aliases in it may change the value, which is returned.
func PresentV(r *core.Rand, v V) (string, V, bool) {
	v = v.Clone()
	p := NewPres(r, func(string) {})
	p.NoEmptyFlow, p.NoAlias = true, r.P(40)
	src := p.Document(&v)
	n, err := V3Doc([]byte(src))
	if err != nil || v3Matches(n, v, false, "$") != nil {
		return src, v, false
	}
	return src, v, true
}

func Damage(r *core.Rand, src string) string { return damage(r, src) }

func (v V) Clone() V {
	out := v
	out.Seq, out.Keys = nil, nil
	for _, e := range v.Seq {
		out.Seq = append(out.Seq, e.Clone())
	}
	for _, e := range v.Keys {
		out.Keys = append(out.Keys, e.Clone())
	}
	return out
}
