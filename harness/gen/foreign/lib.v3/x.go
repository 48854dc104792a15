// Package lib stands in a directory whose name can be troublesome for an import.
package lib

type P struct {
	N int `yaml:"n"`
	M map[string]Q
}

type Q uint16
