package props

import (
	"sort"
	"strings"

	"verif/pbt"

	j "github.com/grepsuzette/joeson"
)

// LargeStreamCase is a large text: pieces, each repeated. Every is the distance
// between tokens (0: a character stream), Gap the space between them.
type LargeStreamCase struct {
	Pieces []Repeated `json:"pieces"`
	Every  int        `json:"every,omitempty"`
	Gap    int        `json:"gap,omitempty"`
	Ops    []Op       `json:"ops"`
}

type Repeated struct {
	S pbt.Text `json:"s"`
	N int      `json:"n"`
}

func (c LargeStreamCase) text() string {
	var b strings.Builder
	for _, p := range c.Pieces {
		b.WriteString(strings.Repeat(string(p.S), p.N))
	}
	return b.String()
}

var largePieces = []string{"a", "ab", "\n", "a\n", "é", "世界 ", "abc def\n", " ", "é\n", "x1 = 2;\n\n", "𝄞"}

func genLargeStream(tokens bool) func(*rapidT) LargeStreamCase {
	return func(t *rapidT) LargeStreamCase {
		var c LargeStreamCase
		most := pbt.Pick(t, "most", []int{300, 3000, 30000, 100000})
		for n := 1 + pbt.Uniform(t, "pieces", 4); n > 0; n-- {
			p := Repeated{S: pbt.Text(pbt.Pick(t, "piece", largePieces)), N: 1}
			if pbt.Chance(t, "repeated", 70) {
				p.N += pbt.Uniform(t, "n", most/len(p.S))
			}
			c.Pieces = append(c.Pieces, p)
		}
		if tokens {
			c.Every = 1 + pbt.Uniform(t, "every", pbt.Pick(t, "tokens", []int{8, 300, 70000}))
			if n := len(c.text()); n/c.Every > 5000 {
				c.Every = n/5000 + 1
			}
			c.Gap = pbt.Uniform(t, "gap", 4)
		}
		c.Ops = genOps(t, 12)
		for i, op := range c.Ops {
			switch op.K {
			case "set", "where", "setbad":
				c.Ops[i].N = []int{pbt.Uniform(t, "at", 1<<20)}
			case "peekr":
				if pbt.Bool(t, "far") {
					c.Ops[i].N = []int{pbt.Uniform(t, "n", 200000) - 100000}
				}
			case "peekl":
				if len(op.N) > 0 && pbt.Bool(t, "far") {
					c.Ops[i].N = append(op.N, pbt.Uniform(t, "n", 20000)-10000)
				}
			case "str", "until":
				if pbt.Bool(t, "far") {
					c.Ops[i].N = []int{op.N[0], pbt.Uniform(t, "len", 70000), pbt.Uniform(t, "skip", 70000)}
				}
			}
		}
		return c
	}
}

func checkLargeStream(c LargeStreamCase, r *pbt.R) error {
	text := c.text()
	var s j.CodeStream
	var m *cursor
	if c.Every > 0 {
		var spans [][2]int
		for i := 0; i < len(text); i += c.Every + c.Gap {
			spans = append(spans, [2]int{i, min(len(text), i+c.Every)})
		}
		s, m = tokensOf(text, spans)
	} else {
		s, m = j.NewRuneStream(text), plainCursor(text)
	}
	m.index()
	r.Exec()
	if s.Length() != len(text) {
		return errf("Length() is %d instead of %d", s.Length(), len(text))
	}
	e := m.run(c.Ops, s)
	if e != nil {
		return errf("%v\npieces: %v tokens of %d bytes, %d apart", e, c.Pieces, c.Every, c.Gap)
	}
	r.ClassIf(len(text) >= 1<<16, "64 kB or more")
	r.ClassIf(len(m.starts) > 256, "more than 256 lines")
	r.NonTrivialIf(len(text) > 1000 && m.moved >= 2)
	return nil
}

// index makes lineCol not depend on the size of the source.
func (c *cursor) index() {
	c.starts = []int{0}
	for i := 0; i < len(c.source); i++ {
		if c.source[i] == '\n' {
			c.starts = append(c.starts, i+1)
		}
	}
}

// sampled gives the offsets which are looked at in the end: all of them, unless
// there are many.
func (c *cursor) sampled() []int {
	var r []int
	step := len(c.place)/400 + 1
	if c.starts == nil {
		step = 1
	}
	for p := 0; p < len(c.place); p += step {
		r = append(r, p)
	}
	return append(r, len(c.place)-1)
}

func (c *cursor) indexed(p int) (int, int) {
	line := sort.SearchInts(c.starts, p+1) - 1
	return line, p - c.starts[line]
}
