// Package time stands in a directory whose name can be troublesome for an import.
package time

type Time struct {
	H, M uint8
	Zone string `yaml:"zone,omitempty"`
}
