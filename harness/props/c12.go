package props

import (
	"fmt"
	"sort"
	"strings"

	"verif/model"
	"verif/pbt"

	j "github.com/grepsuzette/joeson"
)

var c12 = &pbt.Prop{
	ID: "C12",
	Rule: "Family layout: a generated grammar is written in its plainest spelling and in random ones (spaces, newlines, redundant parentheses, pipes and escapes, other notations of a same range); all must compile to the same structure and give the same outcomes as the reference on generated texts. " +
		"Family precedence: a rule text made of elements and operators is read by an independent parser of the rule language, and must compile to the same structure as the fully parenthesized rule; it is then parsed with, against the reference. " +
		"Non-trivial: at least two spellings differ and the rule has at least 3 parts; respectively an accepted rule with at least two different operators.",
	Assumptions: []string{
		"the structure of a rule is compared in the form joeson prints it",
		"white space is the space and the newline, as the rule language defines it",
	},
	Families: []pbt.Family{
		pbt.Fam("layout", 7000, 100000, genLayout(func(t *rapidT) *model.Grammar {
			return model.GenGrammar(t, model.GenOpts{MaxRules: 4, Depth: 4, Shapes: true, Labels: true, MaxRange: 12})
		}), checkLayout),
		pbt.Fam("rich", 4000, 60000, genLayout(func(t *rapidT) *model.Grammar {
			return model.GenRich(t, nil, pbt.Chance(t, "labels", 60))
		}), checkLayout),
		pbt.Fam("precedence", 8000, 100000, genSoup, checkPrecedence),
	},
}

type LayoutCase struct {
	G     *model.Grammar `json:"g"`
	Tapes [][]int        `json:"tapes"`
	Texts []pbt.Text     `json:"texts"`
	Opt   int            `json:"opt,omitempty"`
}

func genLayout(gen func(*rapidT) *model.Grammar) func(*rapidT) LayoutCase {
	return func(t *rapidT) LayoutCase {
		g := gen(t)
		c := LayoutCase{G: g, Opt: pbt.Uniform(t, "opt", 64)}
		for i := 0; i < 3; i++ {
			c.Tapes = append(c.Tapes, pbt.FullTape(t, "layout", 30))
		}
		c.Texts = shortened(model.GenTexts(t, g, 4), 300)
		return c
	}
}

func checkLayout(c LayoutCase, r *pbt.R) error {
	opts := quickly()
	if c.Opt == 63 {
		opts = muted()
	}
	compiler := sharedJoeson.Get()
	gms := []*j.Grammar{BuildWith(c.G, nil, opts)}
	varied := false
	for _, rule := range c.G.Rules {
		plain := model.Render(rule.E, nil)
		want, ok, why := compile(compiler, plain)
		if !ok {
			return errf("the rule %q is not accepted: %s", plain, why)
		}
		for _, tape := range c.Tapes {
			spelled := model.Render(rule.E, model.FreeLayout(tape))
			r.Exec()
			got, ok, why := compile(compiler, spelled)
			if !ok {
				return errf("the rule %q is accepted, not %q: %s", plain, spelled, why)
			}
			if got != want {
				return errf("%q compiles to\n%s\nbut %q compiles to\n%s", plain, want, spelled, got)
			}
			varied = varied || spelled != plain && rule.E.Size() > 2
		}
		if full, ok, why := compile(compiler, model.Parenthesized(rule.E)); !ok || full != want {
			return errf("%q compiles to\n%s\nbut %q compiles to\n%s (%s)", plain, want, model.Parenthesized(rule.E), full, why)
		}
	}
	var spelled []string
	for _, tape := range c.Tapes {
		lines := Lines(c.G, model.FreeLayout(tape), &Recorder{}, nil)
		gms = append(gms, j.GrammarWithOptionsFromLines("gm", opts, lines))
		var b strings.Builder
		for _, rule := range c.G.Rules {
			fmt.Fprintf(&b, "%s: %q\n", rule.Name, model.Render(rule.E, model.FreeLayout(tape)))
		}
		spelled = append(spelled, b.String())
	}
	for _, text := range c.Texts {
		text := string(text)
		_, want, ok := interp(c.G, text)
		if !ok {
			continue
		}
		var first Outcome
		for i, gm := range gms {
			r.Exec()
			got := ToOutcome(gm.ParseString(text))
			how := "plain"
			if i > 0 {
				how = spelled[i-1]
			}
			if e := compare(want, got, text, "short"); e != nil {
				return errf("%v\ntext: %q\ngrammar:\n%sspelled: %s", e, text, Describe(c.G), how)
			}
			if i == 0 {
				first = got
			} else if !got.Same(first) {
				return errf("%s instead of %s\ntext: %q\ngrammar:\n%sspelled: %s", got, first, text, Describe(c.G), how)
			}
		}
		r.ClassIf(want.OK, "accepted")
	}
	r.ClassIf(varied, "spellings differ")
	r.NonTrivialIf(varied)
	return nil
}

var soupElems = []string{"'a'", "'b'", "A", "B", "_", "[a-c]", "[b]", "/b+/", "(A | 'c')", "('a' B)", "('a'?)", "(B)", "(A*)", "((A))", "(?'b')", "(?A | B)", "(w: B)", "( w:A | B)", "A('b')"}
var soupOps = []string{" ", " ", " ", "\n", "", " | ", "|", " | ", "* ", "+ ", "?", "?", "*'b'", "+B ", "{1,2}", "*A{,3} ", " x:", " y:", " !", " !", "| !", "|x:", " ?", " | ?", "? ", "*", "+", "{2,}", "| |", " ? "}
var soupFirst = []string{"", "", "", "!", "x:", "|", "?", " ", "| |", "\n", "x:!"}
var soupLast = []string{"", "", "", "?", "*", "+", " |", "{,1}", "*'a'", "\n", "||"}

// genSoup makes one rule, from elements and operators.
func genSoup(t *rapidT) TextsCase {
	r := &pbt.TapeReader{T: pbt.FullTape(t, "soup", 30)}
	var b strings.Builder
	b.WriteString(repeated(r, soupFirst[r.Next(len(soupFirst))]))
	opened := 0
	for n := 1 + pbt.Uniform(t, "n", 7); n > 0; n-- {
		if n > 1 && r.Next(6) == 5 {
			b.WriteString("(")
			opened++
		}
		b.WriteString(soupElems[r.Next(len(soupElems))])
		if opened > 0 && r.Next(3) == 2 {
			b.WriteString(")")
			opened--
		}
		if n > 1 {
			b.WriteString(repeated(r, soupOps[r.Next(len(soupOps))]))
		}
	}
	b.WriteString(strings.Repeat(")", opened))
	b.WriteString(repeated(r, soupLast[r.Next(len(soupLast))]))
	c := TextsCase{Texts: []pbt.Text{pbt.Text(b.String())}}
	if e, ok := model.ParseRule(b.String()); ok {
		if g := soupGrammar(e); g != nil {
			c.Texts = append(c.Texts, shortened(model.GenTexts(t, g, 4), 300)...)
		}
	}
	for i := 0; i < 2; i++ {
		m := &pbt.TapeReader{T: pbt.FullTape(t, "text", 10)}
		var w strings.Builder
		for n := m.Next(8); n > 0; n-- {
			w.WriteString([]string{"a", "b", "c", "a", "b", " "}[m.Next(6)])
		}
		c.Texts = append(c.Texts, pbt.Text(w.String()))
	}
	return c
}

// soupGrammar makes a grammar of the rule; nil when it is not one for the reference
func soupGrammar(e *model.Expr) *model.Grammar {
	g := &model.Grammar{Rules: []model.Rule{
		{Name: "S", E: e},
		{Name: "A", E: model.S("a")},
		{Name: "B", E: model.Al(model.S("bb"), model.S("b"))},
		{Name: "_", E: model.St(model.S(" "), nil)},
	}}
	idx := g.Index()
	ok := true
	e.Walk(func(k *model.Expr) {
		if k.K == model.Ref {
			if i, known := idx[k.S]; !known || i == 0 {
				ok = false // words written next to each other
			}
		}
		if k.L != "" || k.K == model.Group {
			ok = false // labels on anything: only the structure is compared
		}
	})
	if !ok {
		return nil
	}
	return g
}

func checkPrecedence(c TextsCase, r *pbt.R) error {
	text := string(c.Texts[0])
	e, ok := model.ParseRule(text)
	opts := quickly()
	r.Exec()
	got, gotOK, why := compile(sharedJoeson.Get(), text)
	if ok != gotOK {
		return errf("the rule language says rule: %v; compiled: %v (%s)\ntext: %q", ok, gotOK, why, text)
	}
	if !ok {
		r.Class("not a rule")
		return nil
	}
	full := model.Parenthesized(e)
	want, ok, why := compile(sharedJoeson.Get(), full)
	if !ok {
		return errf("the rule %q is not accepted: %s", full, why)
	}
	if got != want {
		return errf("%q compiles to\n%s\nbut, with all parentheses, %q compiles to\n%s", text, got, full, want)
	}
	kinds := map[string]bool{}
	e.Walk(func(k *model.Expr) {
		if len(k.E) > 0 {
			kinds[k.K] = true
		}
	})
	var names []string
	for k := range kinds {
		names = append(names, k)
	}
	sort.Strings(names)
	r.Class("operators: " + strings.Join(names, " "))
	r.NonTrivialIf(len(kinds) > 1)
	// what the rule accepts
	g := soupGrammar(e)
	if g == nil {
		return nil
	}
	lines := []j.Line{j.O(j.Named("S", text)), j.I(j.Named("A", "'a'")), j.I(j.Named("B", "'bb' | 'b'")), j.I(j.Named("_", "' '*"))}
	gm := j.GrammarWithOptionsFromLines("gm", opts, lines)
	for _, in := range c.Texts[1:] {
		_, want, ok := interp(g, string(in))
		if !ok {
			continue
		}
		r.Exec()
		out := ToOutcome(gm.ParseString(string(in)))
		if e := compare(want, out, string(in), "accept"); e != nil {
			return errf("%v\ntext: %q\nrule: %q", e, string(in), text)
		}
		r.ClassIf(want.OK && in != "", "accepted a text")
	}
	return nil
}
