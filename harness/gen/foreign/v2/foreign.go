// Package foreign holds types of another package, in a directory whose name is not the package's.
package foreign

type Point struct {
	X, Y int
	Name string `yaml:"name,omitempty"`
}

type Level uint8

type Box struct {
	P     *Point `yaml:"p"`
	Lev   Level  `yaml:"lev"`
	Items []Point
}
