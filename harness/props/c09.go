package props

import (
	"sort"
	"strings"
	"unicode/utf8"

	"verif/model"
	"verif/pbt"

	j "github.com/grepsuzette/joeson"
)

var c09 = &pbt.Prop{
	ID: "C09",
	Rule: "A case is a source text, tokens taken from it (most often in order, separated by skipped characters) and operations on the stream, compared with a cursor over the concatenated tokens which knows the place of each byte in the source; or a grammar, and a source made by inserting skipped characters into texts for it: parsing the tokens must have the outcome of parsing the concatenated text, with lines and columns of the source. " +
		"Non-trivial: at least 2 tokens not adjacent in the source, and 2 operations moved the cursor (or the parse was accepted, or failed after the first token).",
	Assumptions: []string{
		"tokens are not empty, and their offsets in the concatenation are the sums of the lengths of the ones before",
		"the end of the tokens is located right after the last token in the source",
		"offsets (not lines and columns) of nodes and errors of parsed tokens are left alone: they are offsets into the concatenated tokens",
	},
	Families: []pbt.Family{
		pbt.Fam("cursor", 80000, 640000, genTokens(16, 14), checkTokens),
		pbt.Fam("long", 12000, 96000, genTokens(100, 50), checkTokens),
		pbt.Fam("large", 1000, 12000, genLargeStream(true), checkLargeStream),
		pbt.Fam("parse", 14000, 112000, genTokenParse(func(t *rapidT) GCase {
			g := model.GenGrammar(t, model.GenOpts{MaxRules: 6, Depth: 3, Callbacks: []int{model.CBNone, model.CBNode}})
			return GCase{G: g, Texts: model.GenTexts(t, g, 4)}
		}), checkTokenParse),
		pbt.Fam("parse-rich", 10000, 80000, genTokenParse(genRich([]int{model.CBNode, model.CBNone}, 4)), checkTokenParse),
		pbt.Fam("parse-left-recursive", 8000, 64000, genTokenParse(genLR([]int{model.CBNode, model.CBNone}, false)), checkTokenParse),
	},
}

// TokensCase: Cuts are the boundaries of tokens, in turns begin and end.
type TokensCase struct {
	Text   pbt.Text `json:"text"`
	Spans  [][2]int `json:"spans"`
	Ops    []Op     `json:"ops"`
	Sorted bool     `json:"sorted"`
}

func genTokens(size, ops int) func(*rapidT) TokensCase {
	return func(t *rapidT) TokensCase {
		text := genStreamText(t, "text", size, false)
		c := TokensCase{Text: pbt.Text(text), Ops: genOps(t, ops), Sorted: pbt.Chance(t, "sorted", 85)}
		if text == "" {
			return c
		}
		n := pbt.Uniform(t, "tokens", 1+min(len(text), size/2))
		if c.Sorted {
			// cut points
			cuts := []int{}
			for i := 0; i < 2*n; i++ {
				cuts = append(cuts, pbt.Uniform(t, "cut", len(text)+1))
			}
			sort.Ints(cuts)
			for i := 0; i+1 < len(cuts); i += 1 + pbt.Uniform(t, "gap", 2) {
				if cuts[i] < cuts[i+1] {
					c.Spans = append(c.Spans, [2]int{cuts[i], cuts[i+1]})
				}
			}
		} else {
			for i := 0; i < n; i++ {
				a := pbt.Uniform(t, "from", len(text))
				c.Spans = append(c.Spans, [2]int{a, a + 1 + pbt.Uniform(t, "len", min(6, len(text)-a))})
			}
		}
		return c
	}
}

func tokensOf(text string, spans [][2]int) (*j.TokenStream, *cursor) {
	c := &cursor{source: text}
	var tokens []j.Token
	end := 0
	for _, sp := range spans {
		tokens = append(tokens, j.Token{Repr: text[sp[0]:sp[1]], OriginalOffset: sp[0], WorkOffset: len(c.work)})
		c.work += text[sp[0]:sp[1]]
		for i := sp[0]; i < sp[1]; i++ {
			c.place = append(c.place, i)
		}
		end = sp[1]
	}
	c.place = append(c.place, end)
	return j.NewTokenStream(text, tokens), c
}

func checkTokens(c TokensCase, r *pbt.R) error {
	ts, m := tokensOf(string(c.Text), c.Spans)
	r.Exec()
	if ts.Pos() != 0 || ts.Length() != len(c.Text) {
		return errf("initial offset %d, length %d of a source of %d bytes", ts.Pos(), ts.Length(), len(c.Text))
	}
	if e := m.run(c.Ops, ts); e != nil {
		return errf("%v\ntokens: %v\nsource: %q", e, c.Spans, string(c.Text))
	}
	gaps := gapsOf(c.Spans)
	r.ClassIf(gaps > 0, "tokens apart")
	r.ClassIf(!c.Sorted, "tokens in any order")
	r.ClassIf(strings.Contains(string(c.Text), "\n"), "several lines")
	r.NonTrivialIf(gaps > 0 && m.moved >= 2)
	return nil
}

func gapsOf(spans [][2]int) (n int) {
	for i := 1; i < len(spans); i++ {
		if spans[i][0] != spans[i-1][1] {
			n++
		}
	}
	return
}

// TokenParseCase: the texts are what is tokenized; a source is made from each by
// inserting junk between tokens, whose lengths are in a tape.
type TokenParseCase struct {
	GCase
	Tapes [][]int `json:"tapes"`
}

func genTokenParse(gen func(*rapidT) GCase) func(*rapidT) TokenParseCase {
	return func(t *rapidT) TokenParseCase {
		c := TokenParseCase{GCase: gen(t)}
		for range c.Texts {
			c.Tapes = append(c.Tapes, pbt.FullTape(t, "tape", 16))
		}
		return c
	}
}

var junk = []string{" ", "\n", "  \n", "// é\n", "\t", "/* a\nb */", "\n\n", "世"}

// spread makes a source where the text is scattered.
func spread(text string, tape []int) (string, [][2]int) {
	r := &pbt.TapeReader{T: tape}
	var b strings.Builder
	var spans [][2]int
	for text != "" {
		if k := r.Next(2 * len(junk)); k < len(junk) && !r.Done() {
			b.WriteString(junk[k])
		}
		n := len(text)
		if !r.Done() {
			n = min(n, 1+r.Next(5))
		}
		for n < len(text) && !utf8.RuneStart(text[n]) {
			n++
		}
		spans = append(spans, [2]int{b.Len(), b.Len() + n})
		b.WriteString(text[:n])
		text = text[n:]
	}
	if len(tape) > 0 && tape[len(tape)-1]%3 == 0 {
		b.WriteString(junk[tape[0]%len(junk)])
	}
	return b.String(), spans
}

func checkTokenParse(c TokenParseCase, r *pbt.R) error {
	gm := BuildWith(c.G, nil, options(c.Opt))
	for i, text := range c.Texts {
		text := string(text)
		if p, _, ok := interp(c.G, text); !ok || p.Grown > 200 {
			continue
		}
		source, spans := spread(text, c.Tapes[i])
		ts, m := tokensOf(source, spans)
		if m.work != text {
			panic("BUG in harness: tokens")
		}
		r.Exec()
		want := ToOutcome(gm.ParseString(text))
		got := ToOutcome(gm.ParseTokens(ts))
		fail := func(f string, a ...any) error {
			return errf("%s\ntext: %q\nsource: %q\ngrammar:\n%s", errf(f, a...), text, source, Describe(c.G))
		}
		if want.OK != got.OK || want.Nil != got.Nil || want.Short != got.Short {
			return fail("parsing tokens: %s; parsing the text: %s", got, want)
		}
		if want.OK {
			a, b := FromAst(want.Ast), FromAst(got.Ast)
			if e := sameLines(a, b, m); e != nil {
				return fail("%v", e)
			}
			r.NonTrivialIf(gapsOf(spans) > 0)
			r.Class("accepted")
		} else if !want.Nil {
			if want.N < 0 {
				return fail("the error has no position: %s", want)
			}
			line, col, _ := m.lineCol(want.N)
			if got.Line != line || got.Col != col {
				return fail("the error is reported at line %d, column %d of the source instead of %d, %d", got.Line, got.Col, line, col)
			}
			r.NonTrivialIf(gapsOf(spans) > 0 && want.N > 0)
			r.ClassIf(line > 0, "error not on the first line")
		}
	}
	return nil
}

// sameLines walks 2 productions of the same shape: b's lines are in the source.
func sameLines(a, b *model.Val, m *cursor) error {
	if a == nil || b == nil {
		return nil
	}
	if a.K == 'N' && a.End <= len(m.work) && a.End >= 0 {
		if line, _, _ := m.lineCol(a.End); b.Line != line {
			return errf("the node of %s, which ends at offset %d, is at line %d of the source instead of %d", a.Rule, a.End, b.Line, line)
		}
	}
	for i := range a.A {
		if i < len(b.A) {
			if e := sameLines(a.A[i], b.A[i], m); e != nil {
				return e
			}
		}
	}
	return nil
}
