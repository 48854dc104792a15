package core

import (
	"bytes"
	"encoding/binary"
	"errors"
	"runtime/coverage"
)

// BasicBlocks runs f and counts the basic blocks of instrumented code it executed. It needs a build with
// -cover -covermode=atomic, otherwise it returns an error; f is run in any case.
func BasicBlocks(f func()) (uint64, error) {
	err := coverage.ClearCounters()
	f()
	if err != nil {
		return 0, err
	}
	var b bytes.Buffer
	if err := coverage.WriteCounters(&b); err != nil {
		return 0, err
	}
	return sumCounters(b.Bytes())
}

// sumCounters reads a counter data file (internal/coverage): header of 32 bytes, segment header, string table,
// arguments, then for each function its number of counters, package, function and the counters.
func sumCounters(b []byte) (sum uint64, err error) {
	bad := errors.New("unexpected format of coverage counters")
	if len(b) < 48+16 {
		return 0, bad
	}
	flavor := b[24]
	n := binary.LittleEndian.Uint64(b[32:])
	off := 48 + int(binary.LittleEndian.Uint32(b[40:])) + int(binary.LittleEndian.Uint32(b[44:]))
	next := func() (v uint64) {
		if err != nil {
			return 0
		}
		if flavor == 1 {
			if off+4 > len(b) {
				err = bad
				return 0
			}
			v = uint64(binary.LittleEndian.Uint32(b[off:]))
			off += 4
			return v
		}
		if off > len(b) {
			err = bad
			return 0
		}
		v, k := binary.Uvarint(b[off:])
		if k <= 0 {
			err = bad
			return 0
		}
		off += k
		return v
	}
	for ; n > 0 && err == nil; n-- {
		k := next()
		next()
		next()
		for ; k > 0 && err == nil; k-- {
			sum += next()
		}
	}
	return sum, err
}
