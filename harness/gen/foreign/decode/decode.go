// Package decode has the name of a package the generated code imports.
package decode

type Thing struct {
	ID   int64 `yaml:"id"`
	Tags []string
}
