package props

import (
	"verif/model"
	"verif/pbt"

	"pgregory.net/rapid"
)

var c01 = &pbt.Prop{
	ID: "C01",
	Rule: "A case is a generated grammar (1-12 rules over all operators) with texts derived from it, edited derivations and random texts; every text is parsed by joeson and by the reference interpreter. " +
		"Non-trivial: at least one text is accepted and at least one rejected by the reference, and the grammar uses an operator other than a string.",
	Assumptions: []string{
		"grammars without left recursion (C03 covers these)",
		"Go's regexp is trusted to match character classes and regular expressions",
		"a reference model is wrong in the same way as the code only where both were derived from the same documentation",
	},
	Families: []pbt.Family{
		pbt.Fam("grammar", 12000, 160000, genC01(model.GenOpts{MaxRules: 6, Depth: 3}, 5), checkC01),
		pbt.Fam("rich", 4000, 60000, genRich(nil, 6), checkC01),
		pbt.Fam("plain", 4000, 80000, genC01(model.GenOpts{MaxRules: 4, Depth: 3, Plain: true, NoRegex: true}, 6), checkC01),
		pbt.Fam("lists", 3000, 40000, genLists, checkC01),
		pbt.Fam("wide", 1500, 20000, genWide, checkC01),
		pbt.Fam("big", 800, 12000, genC01(model.GenOpts{MaxRules: 14, Depth: 4, MaxRange: 9}, 6), checkC01),
	},
}

func genC01(o model.GenOpts, n int) func(*rapid.T) GCase {
	return func(t *rapid.T) GCase {
		g := model.Declared(t, model.GenGrammar(t, o))
		return GCase{G: g, Texts: model.GenTexts(t, g, n), Opt: pbt.Uniform(t, "opt", 16)}
	}
}

func checkC01(c GCase, r *pbt.R) error {
	gm := BuildWith(c.G, nil, options(c.Opt))
	features(c.G, r)
	yes, no := 0, 0
	for _, text := range c.Texts {
		_, want, ok := interp(c.G, string(text))
		if !ok {
			r.Class("reference too slow")
			continue
		}
		r.Exec()
		got := ToOutcome(gm.ParseString(string(text)))
		if e := compare(want, got, string(text), "accept"); e != nil {
			return errf("%v\ntext: %q\ngrammar:\n%s", e, string(text), Describe(c.G))
		}
		if want.OK {
			yes++
			r.ClassIf(text == "", "empty text accepted")
		} else {
			no++
			r.ClassIf(want.Matched, "prefix matched")
		}
	}
	r.ClassIf(yes > 0, "some accepted")
	r.ClassIf(no > 0, "some rejected")
	r.NonTrivialIf(yes > 0 && no > 0 && interesting(c.G))
	return nil
}

func interesting(g *model.Grammar) bool {
	for _, rule := range g.Rules {
		if rule.E.K != model.Str {
			return true
		}
	}
	return false
}
