package props

import (
	"fmt"
	"strings"

	"github.com/KSpaceer/yamly/engines/yayamls/pkg/cpaccessor"

	"verifharness/core"
)

// counter is a stream of increasing numbers that records how far it was read.
type counter struct{ base, n int }

func (s *counter) Next() int { s.n++; return s.base + s.n }

// accessor runs a random history of calls against a list model of the checkpointing accessor.
func accessor(c *core.Ctx, i int) {
	r := c.R
	a := cpaccessor.NewCheckpointingAccessor[int]()
	s := &counter{base: 0}
	a.SetStream(s)
	pos, far := 0, 0 // elements behind, and the most ever behind
	var cps []int
	var log strings.Builder
	n := r.Range(4, 40)
	if r.P(5) {
		n = r.Range(100, 400)
	}
	if r.P(1) {
		n = r.Range(1000, 4000)
	}
	long := r.Intn(4000) == 0
	if long {
		n = r.Range(5000, 40000)
	}
	next, set, back, com := r.Range(1, 6), r.Range(0, 4), r.Range(0, 4), r.Range(0, 3)
	if long { // far ahead of the checkpoints
		next, set, back, com = r.Range(1000, 20000), r.Range(1, 3), 1, r.Intn(2)
		c.Ev("long-history")
	}
	cur := func() int {
		if pos == 0 {
			return 0
		}
		return s.base + pos
	}
	depth := 0
	for k := 0; k < n && !c.Failed(); k++ {
		switch x := r.Intn(next + set + back + com); {
		case !long && r.P(1):
			s = &counter{base: s.base + 100000}
			a.SetStream(s)
			pos, far, cps = 0, 0, nil
			log.WriteString("|")
			c.Ev("stream-replaced")
		case x < next:
			log.WriteString("n")
			pos++
			if pos > far {
				far = pos
			} else {
				c.Ev("next-from-buffer")
			}
			if got := a.Next(); got != cur() {
				c.Fail("next", "after %s Next gives element %d, want %d", log.String(), got-s.base, pos)
			}
			c.Ev("next")
		case x < next+set:
			log.WriteString("c")
			if pos < far {
				c.Ev("checkpoint-inside-buffer")
			}
			a.SetCheckpoint()
			cps = append(cps, pos)
			if len(cps) > depth {
				depth = len(cps)
			}
			c.Ev("checkpoint")
		case x < next+set+back:
			if pos == 0 && len(cps) == 0 || len(cps) > 0 && cps[len(cps)-1] == 0 {
				if len(cps) == 0 {
					continue
				}
				log.WriteString("r")
				pos = 0
				cps = cps[:len(cps)-1]
				a.Rollback() // there is no element before: the value is of no account
				c.Ev("rollback-to-start")
				continue
			}
			log.WriteString("r")
			if len(cps) > 0 {
				pos = cps[len(cps)-1]
				cps = cps[:len(cps)-1]
				c.Ev("rollback")
			} else {
				c.Ev("rollback-without-checkpoint")
			}
			if got := a.Rollback(); got != cur() {
				c.Fail("rollback", "after %s Rollback gives element %d, want %d", log.String(), got-s.base, pos)
			}
		default:
			log.WriteString("m")
			if pos < far {
				c.Ev("commit-inside-buffer")
			}
			a.Commit()
			if len(cps) > 0 {
				cps = cps[:len(cps)-1]
			}
			c.Ev("commit")
		}
		if s.n != far {
			c.Fail("read-ahead", "after %s the stream was read %d times, want %d", log.String(), s.n, far)
		}
	}
	c.Input(log.String())
	if depth > 1 {
		c.NonTrivial()
		c.Ev(fmt.Sprintf("nested-checkpoints:%d", min(depth, 9)))
	}
}

func init() {
	core.Register(&core.Prop{ID: "C20", Quick: 2000000, Thorough: 20000000, Run: accessor,
		MinEvents: []string{"next-from-buffer", "checkpoint-inside-buffer", "commit-inside-buffer", "rollback", "rollback-to-start", "rollback-without-checkpoint", "stream-replaced", "nested-checkpoints:4"},
		Rule:      "random histories of Next, SetCheckpoint, Rollback, Commit and SetStream on the real accessor; after each call the element returned and how far the underlying stream was read are compared with a list and a stack of positions; non-trivial: at least two checkpoints were open at once; distinct: by history"})
}
