package props

import (
	"verif/model"
	"verif/pbt"

	j "github.com/grepsuzette/joeson"
)

var c02 = &pbt.Prop{
	ID: "C02",
	Rule: "A case is a generated grammar restricted to shapes whose production the documentation defines, with texts; the production of every accepted text is compared with the one of the reference interpreter. " +
		"Non-trivial: at least one text is accepted and its production is not a bare string.",
	Assumptions: []string{
		"grammars without left recursion (C03 covers these)",
		"groups made only of uncaptured elements, and labels of groups, inside a sequence: their production is not generated (2 known findings cover the documented ones)",
	},
	Families: []pbt.Family{
		pbt.Fam("shapes", 9000, 130000, genC01(model.GenOpts{MaxRules: 5, Depth: 3, Shapes: true}, 5), checkC02),
		pbt.Fam("rich", 5000, 60000, genRich([]int{model.CBNone}, 6), checkC02),
		pbt.Fam("labels", 10000, 140000, genC01(model.GenOpts{MaxRules: 4, Depth: 3, Shapes: true, Labels: true, NoRegex: true}, 6), checkC02),
		pbt.Fam("callbacks", 4000, 60000, genC01(model.GenOpts{MaxRules: 5, Depth: 3, Shapes: true, Labels: true, Callbacks: []int{model.CBNone, model.CBNode, model.CBConcat, model.CBPass}}, 5), checkC02),
		pbt.Fam("lists", 2000, 20000, genLists, checkC02),
		pbt.Fam("merged", 3000, 40000, func(t *rapidT) GCase {
			g := model.Declared(t, model.GenMerged(t, []int{model.CBNone, model.CBNode}))
			return GCase{G: g, Texts: model.GenTexts(t, g, 6), Opt: pbt.Uniform(t, "opt", 16)}
		}, checkC02),
		pbt.Fam("wide", 1500, 20000, genWide, checkC02),
		pbt.Fam("big", 1000, 15000, genC01(model.GenOpts{MaxRules: 12, Depth: 4, Shapes: true, Labels: true, MaxRange: 8}, 6), checkC02),
	},
	Findings: []pbt.Finding{
		{ID: "group-of-strings", Probe: func() error {
			return wantShape([]string{"T (' ' 'b')", "[a-z]"}, "t b", `"t"`)
		}},
		{ID: "label-on-group", Probe: func() error {
			return wantShape([]string{"x:(T T) T", "[a-z]"}, "abc", `{x:["a","b"]}`)
		}},
	},
}

func wantShape(rules []string, text, want string) error {
	gm := j.GrammarWithOptionsFromLines("gm", muted(), []j.Line{
		j.O(j.Named("S", rules[0])), j.I(j.Named("T", rules[1])),
	})
	if o := ToOutcome(gm.ParseString(text)); o.Short != want {
		return errf("%s on %q: production %s instead of %s", rules[0], text, o.Short, want)
	}
	return nil
}

func checkC02(c GCase, r *pbt.R) error {
	gm := BuildWith(c.G, nil, options(c.Opt))
	features(c.G, r)
	for _, text := range c.Texts {
		_, want, ok := interp(c.G, string(text))
		if !ok {
			r.Class("reference too slow")
			continue
		}
		if !want.OK {
			r.Class("rejected")
			continue
		}
		r.Exec()
		got := ToOutcome(gm.ParseString(string(text)))
		if e := compare(want, got, string(text), "short"); e != nil {
			return errf("%v\ntext: %q\ngrammar:\n%s", e, string(text), Describe(c.G))
		}
		r.Class("accepted")
		kinds := map[byte]bool{}
		want.V.Walk(func(v *model.Val) { kinds[v.K] = true })
		for k := range kinds {
			r.Class("production has " + string(rune(k)))
		}
		r.NonTrivialIf(len(kinds) > 1 || !kinds['S'])
	}
	return nil
}
