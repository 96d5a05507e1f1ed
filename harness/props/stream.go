package props

import (
	"fmt"
	"regexp"
	"strings"
	"unicode/utf8"

	"verif/model"
	"verif/pbt"

	j "github.com/grepsuzette/joeson"
)

// Op is an operation on a stream. Arguments which have to be related to the
// text at the cursor are described relatively to it.
type Op struct {
	K string   `json:"k"`
	N []int    `json:"n,omitempty"`
	T pbt.Text `json:"t,omitempty"`
}

var streamRegexps = []string{"a+", "[ab]*", "b|ab", "^a", "\\n", "[^\\n]*", "é*", ".", "[\\s\\S]", "[\\s\\S]{3}", "$", "\\w+", "(?i)A+", "a$", "\\s+b", "世|界", "\\d*x", "b", "(?m)a$", "[^a]", "(a|ab)(c|bcd)?", "x*?", "\\bа?", "\\n[a-z]"}

var runeTests = []struct {
	name string
	f    func(rune) bool
}{
	{"any", func(rune) bool { return true }},
	{"none", func(rune) bool { return false }},
	{"letter", func(r rune) bool { return r >= 'a' && r <= 'z' }},
	{"wide", func(r rune) bool { return r > 127 }},
	{"newline", func(r rune) bool { return r == '\n' }},
	{"not newline", func(r rune) bool { return r != '\n' }},
	{"error", func(r rune) bool { return r == utf8.RuneError }},
	{"even", func(r rune) bool { return r%2 == 0 }},
}

var textPieces = []string{"a", "b", "ab", "abc", "\n", "\n", "\n\n", " ", "é", "世界", "x1", "A", "\r\n", "\t", "aa", "", "\u2028", "𝄞", "bcd", "\x00", "\uFFFD", "\v", "\f", "\u0085", "\u2029", "\r", "\uFEFF"}

func genStreamText(t *rapidT, label string, max int, bytes bool) string {
	n := pbt.Uniform(t, label+".n", max+1)
	var b strings.Builder
	if pbt.Chance(t, label+".bom", 4) {
		b.WriteString("\uFEFF")
	}
	for i := 0; i < n; i++ {
		if bytes && pbt.Chance(t, label+".raw", 12) {
			b.WriteString(pbt.Pick(t, label+".byte", []string{"\xff", "\xc3", "\xe4\xb8", "\x80", "\xf0\x9d"}))
		} else {
			b.WriteString(pbt.Pick(t, label+".piece", textPieces))
		}
	}
	return b.String()
}

var opKinds = []string{"set", "set", "setbad", "str", "str", "str", "lit", "re", "re", "re", "rune", "rune", "until", "until", "peekr", "peekr", "peekl", "peekl", "where", "print"}

func genOps(t *rapidT, max int) []Op {
	n := 1 + pbt.Uniform(t, "ops", max)
	var r []Op
	for i := 0; i < n; i++ {
		op := Op{K: pbt.Pick(t, "op", opKinds)}
		switch op.K {
		case "set", "where", "setbad":
			op.N = []int{pbt.Uniform(t, "at", 997)}
		case "str", "until":
			op.N = []int{pbt.Uniform(t, "mode", 6), pbt.Uniform(t, "len", 12), pbt.Uniform(t, "skip", 10)}
		case "lit":
			op.T = pbt.Text(pbt.Pick(t, "lit", textPieces))
		case "re":
			op.T = pbt.Text(pbt.Pick(t, "re", streamRegexps))
		case "rune":
			op.N = []int{pbt.Uniform(t, "test", len(runeTests))}
		case "peekr":
			op.N = []int{pbt.Uniform(t, "n", 27) - 13}
		case "peekl":
			for k := pbt.Uniform(t, "args", 4); k > 0; k-- {
				op.N = append(op.N, pbt.Uniform(t, "n", 13)-6)
			}
		}
		r = append(r, op)
	}
	return r
}

// cursor is the model of a stream: a text, an offset in it, and the place in
// another text (the same for a character stream) of each offset.
type cursor struct {
	work   string
	source string
	pos    int
	place  []int // of each offset in work, in source; -1: not specified
	moved  int
	starts []int // of the lines of a large source
}

func (c *cursor) lineCol(pos int) (int, int, bool) {
	p := c.place[pos]
	if p < 0 {
		return 0, 0, false
	}
	if c.starts != nil {
		l, col := c.indexed(p)
		return l, col, true
	}
	l, col := model.LineCol(c.source, p)
	return l, col, true
}

func plainCursor(text string) *cursor {
	c := &cursor{work: text, source: text}
	for i := 0; i <= len(text); i++ {
		c.place = append(c.place, i)
	}
	return c
}

var reSGR = regexp.MustCompile("\x1b\\[[0-9;]*m")

// checkPrint: what a stream prints of itself tells its offset, its length and the
// text around.
func checkPrint(c *cursor, printed string) error {
	at := c.place[c.pos]
	if at < 0 {
		return nil
	}
	text := reSGR.ReplaceAllString(printed, "")
	if want := fmt.Sprintf("%d/%d", at, len(c.source)); !strings.Contains(text, want) {
		return errf("Print() returned %q instead of something with %s", clip(text, 200), want)
	}
	if want := c.source[max(0, at-20):at] + "|" + c.source[at:min(len(c.source), at+40)]; !strings.Contains(text, want) {
		return errf("Print() returned %q instead of something with %q", clip(text, 200), want)
	}
	return nil
}

func clamp(n, lo, hi int) int { return max(lo, min(n, hi)) }

// needle makes an argument for MatchString and GetUntil out of the text.
func (c *cursor) needle(mode, n, skip int) string {
	rest := c.work[c.pos:]
	n = min(n, len(rest))
	switch mode {
	case 0, 1: // what is at the cursor
		return rest[:n]
	case 2: // what is at the cursor, but the last byte
		if n == 0 {
			return "~"
		}
		return rest[:n-1] + "~"
	case 3: // longer than what remains
		return rest + "a"
	case 4: // something located after
		skip = min(skip, len(rest))
		return rest[skip:min(len(rest), skip+n%4)]
	}
	// something located before
	skip = min(skip, c.pos)
	return c.work[c.pos-skip : min(len(c.work), c.pos-skip+1+n%3)]
}

// apply runs an operation on the stream and on the model.
func (c *cursor) apply(op Op, s j.CodeStream) error {
	old := c.pos
	rest := c.work[c.pos:]
	switch op.K {
	case "set":
		c.pos = op.N[0] % (len(c.work) + 1)
		if op.N[0]%7 == 0 {
			c.pos = len(c.work)
		}
		s.SetPos(c.pos)
	case "setbad":
		n := op.N[0]
		bad := []int{-1, len(c.work) + 1, -1 - n, len(c.work) + 1 + n, -1 << 62, 1 << 62}[n%6]
		if pbt.Catch(func() { s.SetPos(bad) }) == nil {
			return errf("SetPos(%d) was accepted for a text of %d bytes", bad, len(c.work))
		}
	case "str", "lit":
		var needle string
		if op.K == "lit" {
			needle = string(op.T)
		} else {
			needle = c.needle(op.N[0], op.N[1], op.N[2])
		}
		want := strings.HasPrefix(rest, needle)
		did, m := s.MatchString(needle)
		if did != want || (want && m != needle) {
			return errf("MatchString(%q) returned %v, %q instead of %v", needle, did, m, want)
		}
		if want {
			c.pos += len(needle)
		}
	case "re":
		re := regexp.MustCompile(string(op.T))
		loc := regexp.MustCompile(`\A(?:` + string(op.T) + `)`).FindStringIndex(rest)
		did, m := s.MatchRegexp(*re)
		if did != (loc != nil) || (did && m != rest[:loc[1]]) {
			return errf("MatchRegexp(%q) returned %v, %q; expected location %v", string(op.T), did, m, loc)
		}
		if loc != nil {
			c.pos += loc[1]
		}
	case "rune":
		test := runeTests[op.N[0]]
		r, size := utf8.DecodeRuneInString(rest)
		want := size > 0 && test.f(r)
		did, m := s.MatchRune(test.f)
		if did != want || (want && m != r) {
			return errf("MatchRune(%s) returned %v, %q instead of %v, %q", test.name, did, m, want, r)
		}
		if want {
			c.pos += size
		}
	case "until":
		needle := c.needle(op.N[0], op.N[1], op.N[2])
		i := strings.Index(rest, needle)
		got := s.GetUntil(needle)
		if i >= 0 {
			c.pos += i + len(needle)
			if got != rest[:i+len(needle)] {
				return errf("GetUntil(%q) returned %q instead of %q", needle, got, rest[:i+len(needle)])
			}
		} else if !(got == "" && s.Pos() == old || got == rest && s.Pos() == len(c.work)) {
			// 2 documented behaviours: "" without moving, or all the rest
			return errf("GetUntil(%q), which is not found, returned %q and moved to %d", needle, got, s.Pos())
		} else {
			c.pos = s.Pos()
		}
	case "peekr":
		n := op.N[0]
		if n <= 0 {
			if before := c.work[:c.pos]; utf8.ValidString(before) {
				r := []rune(before)
				if want := string(r[max(0, len(r)+n):]); s.PeekRunes(n) != want {
					return errf("PeekRunes(%d) returned %q instead of %q", n, s.PeekRunes(n), want)
				}
			}
		} else if utf8.ValidString(rest) {
			r := []rune(rest)
			if want := string(r[:min(n, len(r))]); s.PeekRunes(n) != want {
				return errf("PeekRunes(%d) returned %q instead of %q", n, s.PeekRunes(n), want)
			}
		}
	case "peekl":
		line, _, ok := c.lineCol(c.pos)
		if !ok {
			break
		}
		lo, hi := 0, 0
		if len(op.N) > 1 {
			lo, hi = op.N[0], op.N[0]
		}
		for _, n := range op.N {
			lo, hi = min(lo, n), max(hi, n)
		}
		lines := strings.Split(c.source, "\n")
		from, to := max(0, line+lo), min(len(lines)-1, line+hi)
		want := ""
		if from <= to {
			want = strings.Join(lines[from:to+1], "\n")
		}
		if got := s.PeekLines(op.N...); got != want {
			return errf("PeekLines(%v) on line %d returned %q instead of %q", op.N, line, got, want)
		}
	case "where":
		p := op.N[0] % (len(c.work) + 1)
		if line, col, ok := c.lineCol(p); ok && (s.PosToLine(p) != line || s.PosToCol(p) != col) {
			return errf("offset %d is said to be at line %d, column %d instead of %d, %d", p, s.PosToLine(p), s.PosToCol(p), line, col)
		}
	case "print":
		if e := checkPrint(c, s.Print()); e != nil {
			return e
		}
		_ = s.PrintDebug()
	default:
		panic("BUG in harness: operation " + op.K)
	}
	if s.Pos() != c.pos {
		return errf("the offset is %d instead of %d (it was %d)", s.Pos(), c.pos, old)
	}
	if line, col, ok := c.lineCol(c.pos); ok && (s.Line() != line || s.Col() != col) {
		return errf("at offset %d, line %d and column %d are reported instead of %d, %d", c.pos, s.Line(), s.Col(), line, col)
	}
	if s.Code() != c.source {
		return errf("the code changed: %q", clip(s.Code(), 100))
	}
	if c.pos != old {
		c.moved++
	}
	return nil
}

// run applies operations, and finally looks at all the offsets.
func (c *cursor) run(ops []Op, s j.CodeStream) error {
	for i, op := range ops {
		at := c.pos
		var e error
		if p := pbt.Catch(func() { e = c.apply(op, s) }); p != nil {
			e = errf("unexpected panic: %v", p)
		}
		if e != nil {
			return errf("operation %d, %s, at offset %d: %v\ntext: %q", i, fmt.Sprint(op), at, e, clip(c.work, 300))
		}
	}
	return c.everywhere(s)
}

func (c *cursor) everywhere(s j.CodeStream) error {
	for _, p := range c.sampled() {
		if line, col, ok := c.lineCol(p); ok && (s.PosToLine(p) != line || s.PosToCol(p) != col) {
			return errf("offset %d is said to be at line %d, column %d instead of %d, %d\ntext: %q", p, s.PosToLine(p), s.PosToCol(p), line, col, clip(c.work, 300))
		}
	}
	return nil
}
