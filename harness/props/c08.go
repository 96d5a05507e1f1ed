package props

import (
	"strings"

	"verif/pbt"

	j "github.com/grepsuzette/joeson"
)

var c08 = &pbt.Prop{
	ID: "C08",
	Rule: "A case is a text and sequences of operations on 2 character streams, run in turns; each result, and the offset, line and column after each operation, are compared with a cursor over the text. " +
		"Non-trivial: at least 3 operations moved a cursor.",
	Assumptions: []string{
		"reading until a delimiter which is not found: the documentation of the interface and the code disagree, both behaviours are accepted",
		"peeking characters is only compared where the bytes before (or after) the cursor are valid UTF-8, as peeking back is documented to panic otherwise",
	},
	Families: []pbt.Family{
		pbt.Fam("short", 1200000, 9600000, genStream(10, 14, false), checkStream),
		pbt.Fam("bytes", 600000, 4800000, genStream(14, 14, true), checkStream),
		pbt.Fam("long", 160000, 1280000, genStream(120, 60, false), checkStream),
		pbt.Fam("large", 2400, 40000, genLargeStream(false), checkLargeStream),
	},
}

type StreamCase struct {
	Text  pbt.Text `json:"text"`
	Other pbt.Text `json:"other,omitempty"`
	Ops   []Op     `json:"ops"`
	Ops2  []Op     `json:"ops2,omitempty"`
}

func genStream(size, ops int, bytes bool) func(*rapidT) StreamCase {
	return func(t *rapidT) StreamCase {
		c := StreamCase{Text: pbt.Text(genStreamText(t, "text", size, bytes)), Ops: genOps(t, ops)}
		c.Other = c.Text
		if pbt.Chance(t, "two", 30) {
			c.Other = pbt.Text(genStreamText(t, "other", size, bytes))
			c.Ops2 = genOps(t, ops)
		}
		return c
	}
}

func checkStream(c StreamCase, r *pbt.R) error {
	s := j.NewRuneStream(string(c.Text))
	m := plainCursor(string(c.Text))
	if s.Pos() != 0 {
		return errf("the initial offset is %d", s.Pos())
	}
	if s.Length() != len(c.Text) {
		return errf("Length() is %d instead of %d", s.Length(), len(c.Text))
	}
	other := j.NewRuneStream(string(c.Other))
	mo := plainCursor(string(c.Other))
	half := len(c.Ops) / 2
	r.Exec()
	if e := m.run(c.Ops[:half], s); e != nil {
		return e
	}
	if e := mo.run(c.Ops2, other); e != nil {
		return errf("another stream: %v", e)
	}
	if e := m.run(c.Ops[half:], s); e != nil {
		return e
	}
	if other.Pos() != mo.pos {
		return errf("operations on a stream moved another one")
	}
	for _, op := range c.Ops {
		r.Class(op.K)
	}
	r.ClassIf(strings.Contains(string(c.Text), "\n"), "several lines")
	r.ClassIf(m.pos == len(c.Text), "ends at the end")
	r.NonTrivialIf(m.moved+mo.moved >= 3)
	return nil
}
