package props

import (
	"gopkg.in/yaml.v3"

	"github.com/KSpaceer/yamly/engines/yayamls/ast"
	"github.com/KSpaceer/yamly/engines/yayamls/schema"
)

// shape is what a parsed tree looks like: 's' sequence, 'm' mapping, 't' scalar, 'n' null, 'a' alias, 'd' stream.
type shape struct {
	k   byte
	sub []*shape // elements; for mappings key, value, key, value...
}

func shapeOfAST(n ast.Node) *shape {
	switch x := n.(type) {
	case *ast.StreamNode:
		s := &shape{k: 'd'}
		for _, d := range x.Documents() {
			s.sub = append(s.sub, shapeOfAST(d))
		}
		return s
	case *ast.ContentNode:
		return shapeOfAST(x.Content())
	case *ast.SequenceNode:
		s := &shape{k: 's'}
		for _, d := range x.Entries() {
			if e, ok := d.(*ast.MappingEntryNode); ok { // single pair
				s.sub = append(s.sub, &shape{k: 'm', sub: []*shape{shapeOfAST(e.Key()), shapeOfAST(e.Value())}})
				continue
			}
			s.sub = append(s.sub, shapeOfAST(d))
		}
		return s
	case *ast.MappingNode:
		s := &shape{k: 'm'}
		for _, d := range x.Entries() {
			if e, ok := d.(*ast.MappingEntryNode); ok {
				s.sub = append(s.sub, shapeOfAST(e.Key()), shapeOfAST(e.Value()))
			}
		}
		return s
	case *ast.AliasNode:
		return &shape{k: 'a'}
	case *ast.NullNode:
		return &shape{k: 'n'}
	case *ast.TextNode:
		if schema.IsNull(x) {
			return &shape{k: 'n'}
		}
		return &shape{k: 't'}
	}
	return &shape{k: 'n'}
}

func shapeOfNode(n *yaml.Node) *shape {
	switch n.Kind {
	case yaml.DocumentNode:
		if len(n.Content) > 0 {
			return shapeOfNode(n.Content[0])
		}
		return &shape{k: 'd'}
	case yaml.SequenceNode, yaml.MappingNode:
		s := &shape{k: 's'}
		if n.Kind == yaml.MappingNode {
			s.k = 'm'
		}
		for _, d := range n.Content {
			s.sub = append(s.sub, shapeOfNode(d))
		}
		return s
	case yaml.AliasNode:
		return &shape{k: 'a'}
	case yaml.ScalarNode:
		if n.ShortTag() == "!!null" {
			return &shape{k: 'n'}
		}
		return &shape{k: 't'}
	}
	return &shape{k: 'd'}
}
