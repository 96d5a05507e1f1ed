package props

import (
	"strings"

	"verif/model"
	"verif/pbt"
)

var c07 = &pbt.Prop{
	ID: "C07",
	Rule: "A case is a generated grammar and texts, most of them edited derivations; each text which is not matched must yield an error (never a partial tree), whose offset, line and column are compared with the ones computed from the reference interpreter. " +
		"Non-trivial: an error whose offset is not 0.",
	Assumptions: []string{
		"rules which are not cached (SkipCache) do not count as matched, as the code documents",
		"grammars with left recursion: only that the offset is not before the end of the match nor after the text, and that line and column are those of the offset",
	},
	Families: []pbt.Family{
		pbt.Fam("position", 9000, 130000, genErrors(model.GenOpts{MaxRules: 6, Depth: 3}, 6), checkC07),
		pbt.Fam("plain", 6000, 90000, genErrors(model.GenOpts{MaxRules: 6, Depth: 3, Plain: true, NoRegex: true, Callbacks: []int{model.CBNone, model.CBPicky, model.CBNode}}, 6), checkC07),
		pbt.Fam("rich", 4000, 60000, genRichErrors, checkC07),
		pbt.Fam("skip", 3000, 40000, genErrors(model.GenOpts{MaxRules: 6, Depth: 3, Skip: true}, 6), checkC07),
		pbt.Fam("left-recursive", 3000, 50000, genLR([]int{model.CBNone, model.CBNode}, true), checkC07LR),
		pbt.Fam("multiline", 3000, 40000, genStatements, checkC07),
	},
}

func genErrors(o model.GenOpts, n int) func(*rapidT) GCase {
	return func(t *rapidT) GCase {
		g := model.Declared(t, model.GenGrammar(t, o))
		c := GCase{G: g, Opt: pbt.Uniform(t, "opt", 16)}
		for i := 0; i < n; i++ {
			text := model.GenText(t, g)
			if pbt.Chance(t, "suffix", 40) {
				text += pbt.Text(strings.Repeat(pbt.Pick(t, "junk", model.Alphabet), 1+pbt.Uniform(t, "times", 2)))
			}
			c.Texts = append(c.Texts, text)
		}
		return c
	}
}

func genRichErrors(t *rapidT) GCase {
	c := genRich([]int{model.CBNone, model.CBNone, model.CBPicky, model.CBNode}, 6)(t)
	for i := range c.Texts {
		if pbt.Chance(t, "suffix", 40) {
			c.Texts[i] += pbt.Text(pbt.Pick(t, "junk", model.Alphabet))
		}
	}
	return c
}

func checkC07(c GCase, r *pbt.R) error {
	gm := BuildWith(c.G, nil, options(c.Opt))
	for _, text := range c.Texts {
		text := string(text)
		_, want, ok := interp(c.G, text)
		if !ok {
			r.Class("reference too slow")
			continue
		}
		if want.OK || text == "" {
			continue
		}
		r.Exec()
		got := ToOutcome(gm.ParseString(text))
		if e := wantError(got, text, want.Furthest); e != nil {
			return errf("%v\n(matched: %v, stopped at %d)\ntext: %q\ngrammar:\n%s", e, want.Matched, want.Stop, text, Describe(c.G))
		}
		r.ClassIf(want.Matched, "partially matched")
		r.ClassIf(want.Furthest > want.Stop, "furthest is after the stop")
		r.ClassIf(want.Furthest > want.Stop+4096, "furthest is far after the stop")
		line, col := model.LineCol(text, want.Furthest)
		r.ClassIf(line > 0, "not on the first line")
		r.ClassIf(line > 0 && col > 0, "inside a line which is not the first")
		r.NonTrivialIf(want.Furthest > 0)
	}
	return nil
}

func wantError(got Outcome, text string, n int) error {
	switch {
	case got.OK:
		return errf("a text which is not matched was accepted: %s", got)
	case got.Nil:
		return errf("nil instead of an error")
	case got.N < 0 && got.Line == 0:
		return errf("the error has no position: %q", clip(got.Msg, 200))
	}
	line, col := model.LineCol(text, n)
	if got.N != n || got.Line != line || got.Col != col {
		return errf("the error is reported at %d (line %d, col %d) instead of %d (line %d, col %d)", got.N, got.Line, got.Col, n, line, col)
	}
	return nil
}

func checkC07LR(c GCase, r *pbt.R) error {
	gm := BuildWith(c.G, nil, options(c.Opt))
	for _, text := range c.Texts {
		text := string(text)
		_, want, ok := interp(c.G, text)
		if !ok || want.OK || text == "" {
			continue
		}
		r.Exec()
		got := ToOutcome(gm.ParseString(text))
		if got.OK || got.Nil || got.N < want.Stop || got.N > len(text) {
			return errf("%s, while the match stopped at %d\ntext: %q\ngrammar:\n%s", got, want.Stop, text, Describe(c.G))
		}
		if e := wantError(got, text, got.N); e != nil {
			return errf("%v\ntext: %q\ngrammar:\n%s", e, text, Describe(c.G))
		}
		r.NonTrivialIf(got.N > 0)
	}
	return nil
}

// genStatements makes a fixed kind of grammar, lines of statements, and texts of
// several lines with an error somewhere.
func genStatements(t *rapidT) GCase {
	g := &model.Grammar{Rules: []model.Rule{
		{Name: "S", E: model.St(model.R("LINE"), model.R("_NL"))},
		{Name: "LINE", E: model.Al(model.Sq(model.R("KEY"), model.R("_"), model.S("="), model.R("_"), model.R("VALUE")), model.R("COMMENT"), model.S(""))},
		{Name: "KEY", E: model.Pl(model.C("a-zé世"), nil)},
		{Name: "VALUE", E: model.Al(model.Pl(model.C("0-9"), nil), model.Sq(model.S("\""), model.St(model.C("^\""), nil), model.S("\"")), model.Sq(model.S("("), model.R("VALUE"), model.S(")")))},
		{Name: "COMMENT", E: model.Sq(model.S("#"), model.St(model.C("^\\n"), nil))},
		{Name: "_", E: model.St(model.C(" \\t"), nil)},
		{Name: "_NL", E: model.S("\n")},
	}}
	var b strings.Builder
	open, end := "", ""
	if pbt.Chance(t, "block", 40) {
		// nothing is matched unless the whole is
		g.Rules = append([]model.Rule{{Name: "B", E: model.Sq(model.S("{"), model.R("S"), model.S("}"))}}, g.Rules...)
		open, end = "{", "}"
	}
	n := 1 + pbt.Uniform(t, "lines", 8)
	if pbt.Chance(t, "many", 5) {
		n = 20 + pbt.Uniform(t, "manylines", 100)
	} else if pbt.Chance(t, "huge", 3) {
		n = 300 + pbt.Uniform(t, "hugelines", 3000)
	}
	b.WriteString(open)
	good := []string{"a=1", "", "é = \"x\ny\"", "# 世界", "ab=((2))", "世=\"\"", "a = 12", "a=\"\n\n\"", "k=(\"é\")", "#\r\v\f\u0085\u2028\u2029\ufeff", "a=\"\ufeff\v\u2028\r\u0085\""}
	lines := append([]string{"\tx=1", "\r", "a=1 ", "a=1\r"}, good...)
	if n > 12 && pbt.Chance(t, "goodlines", 70) {
		lines = good
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString("\n")
		}
		b.WriteString(pbt.Pick(t, "line", lines))
	}
	if pbt.Chance(t, "longline", 3) {
		long := pbt.Pick(t, "long", []int{0, 1 << 8, 1 << 12, 1 << 15, 1 << 16, 1<<16 + 1<<15}) + 200 + pbt.Uniform(t, "more", 200)
		switch pbt.Uniform(t, "longkind", 4) {
		case 0:
			b.WriteString("\n#" + strings.Repeat("x", long))
		case 1:
			b.WriteString("\n#" + strings.Repeat("x", long) + "\na=")
		case 2: // the error is at the end of the long line
			b.WriteString("\n" + strings.Repeat("é", long/2) + "@")
		case 3:
			b.WriteString("\na=" + strings.Repeat("1", long) + "é")
		}
	}
	b.WriteString(end)
	text := b.String()
	m := &pbt.TapeReader{T: pbt.FullTape(t, "edits", 16)}
	texts := []pbt.Text{pbt.Text(text), pbt.Text(model.Mutate(text, m, 1)), pbt.Text(model.Mutate(text, m, 2)), pbt.Text(text + pbt.Pick(t, "tail", []string{"\n", "@", "\n@", "=", "\n\n a"}))}
	return GCase{G: g, Texts: texts, Opt: pbt.Uniform(t, "opt", 16)}
}
