package props

import (
	"strings"

	"verif/model"
	"verif/pbt"

	j "github.com/grepsuzette/joeson"
	"github.com/grepsuzette/joeson/helpers"
)

var c11 = &pbt.Prop{
	ID: "C11",
	Rule: "Family texts: texts in or close to the rule language are compiled by the handcompiled grammar and by 1 to 4 generations of the self-hosted one (each compiled by the previous one): same acceptance, same structure. " +
		"Families grammars: a generated grammar, with callbacks and in a random layout, is built by each generation; same productions, spans, positions of error and invocations on generated texts, and what the reference says. " +
		"Family generations: a random chain of compilers ends with the same table of rules. " +
		"Non-trivial: an accepted rule of more than one element and a refused one; respectively an accepted and a rejected text.",
	Assumptions: []string{
		"structures are compared in the form joeson prints them, and by what the grammars do",
		"how a text which is not a rule is refused (nil, parse error or panic) is not compared",
	},
	Families: []pbt.Family{
		pbt.Fam("texts", 9000, 100000, func(t *rapidT) TextsCase {
			c := TextsCase{}
			for i := 0; i < 5; i++ {
				c.Texts = append(c.Texts, pbt.Text(genRuleText(t)))
			}
			return c
		}, checkC11Texts),
		pbt.Fam("grammars", 4000, 50000, genLayout(func(t *rapidT) *model.Grammar {
			return model.GenGrammar(t, model.GenOpts{MaxRules: 5, Depth: 3, Shapes: true, Labels: true, Skip: true, Callbacks: anyCallback, MaxRange: 12})
		}), checkC11Grammars),
		pbt.Fam("rich", 2500, 35000, genLayout(func(t *rapidT) *model.Grammar {
			return model.GenRich(t, []int{model.CBNode, model.CBNone, model.CBPicky}, pbt.Chance(t, "labels", 60))
		}), checkC11Grammars),
		pbt.Fam("left-recursive", 2000, 25000, func(t *rapidT) LayoutCase {
			g := model.GenLR(t, []int{model.CBNode, model.CBNone}, pbt.Chance(t, "labels", 30))
			c := LayoutCase{G: g, Tapes: [][]int{pbt.FullTape(t, "layout", 30)}}
			for i := 0; i < 4; i++ {
				c.Texts = append(c.Texts, model.GenLRText(t, g))
			}
			return c
		}, checkC11Grammars),
		pbt.Fam("generations", 48, 400, func(t *rapidT) BootCase {
			c := BootCase{Text: pbt.Text(genExprText(t, nil))}
			for n := 1 + pbt.Uniform(t, "n", 6); n > 0; n-- {
				c.From = append(c.From, pbt.Uniform(t, "from", 3))
			}
			return c
		}, checkC11Chain),
	},
}

// selfHosted compiles the self-hosted grammar with another compiler.
func selfHosted(by *j.Grammar) *j.Grammar {
	return j.GrammarWithOptionsFromLines("i", j.GrammarOptions{TraceOptions: j.Mute(), LazyGrammar: helpers.LazyFromValue(by)}, j.IntentionRules())
}

var generationsCache []*j.Grammar

// generations are the handcompiled grammar and those that descend from it.
func generations() []*j.Grammar {
	if generationsCache == nil {
		gms := []*j.Grammar{j.NewJoesonWithOptions(j.Mute())}
		for i := 0; i < 4; i++ {
			gms = append(gms, selfHosted(gms[i]))
		}
		generationsCache = gms
	}
	return generationsCache
}

func checkC11Texts(c TextsCase, r *pbt.R) error {
	good, bad := 0, 0
	for _, text := range c.Texts {
		text := string(text)
		e, rule := model.ParseRule(text)
		first := ""
		for i, gm := range generations() {
			if i == 3 {
				continue // the 3rd one is only a link of the chain
			}
			r.Exec()
			s, ok, why := compile(gm, text)
			if ok != rule {
				return errf("the rule language says rule: %v; generation %d: %v (%s)\ntext: %q", rule, i, ok, why, text)
			}
			if i == 0 {
				first = s
			} else if s != first {
				return errf("%q compiles to\n%s\nbut with generation %d to\n%s", text, first, i, s)
			}
		}
		if rule && e.Size() > 1 {
			good++
		}
		if !rule {
			bad++
		}
	}
	r.ClassIf(good > 0, "some rules")
	r.ClassIf(bad > 0, "some refused")
	r.NonTrivialIf(good > 0 && bad > 0)
	return nil
}

func checkC11Grammars(c LayoutCase, r *pbt.R) error {
	var lay *model.Layout
	if len(c.Tapes) > 0 && c.Opt%4 > 0 {
		lay = model.FreeLayout(c.Tapes[0])
	}
	type built struct {
		gm  *j.Grammar
		rec *Recorder
	}
	var gms []built
	for i, gen := range generations() {
		if i == 2 || i == 3 {
			continue
		}
		rec := &Recorder{}
		var l *model.Layout
		if lay != nil {
			l = model.FreeLayout(c.Tapes[0])
		}
		used := false
		opts := j.GrammarOptions{TraceOptions: j.Mute(), LazyGrammar: helpers.LazyFromFunc(func() *j.Grammar {
			used = true
			return gen
		})}
		gms = append(gms, built{j.GrammarWithOptionsFromLines("gm", opts, Lines(c.G, l, rec, nil)), rec})
		if !used {
			return errf("the rules were not compiled with the grammar which LazyGrammar gives\ngrammar:\n%s", Describe(c.G))
		}
	}
	yes, no := 0, 0
	for _, text := range c.Texts {
		text := string(text)
		_, want, ok := interp(c.G, text)
		if !ok {
			continue
		}
		if want.OK {
			yes++
		} else {
			no++
		}
		var first Outcome
		var log []model.Event
		for i, b := range gms {
			b.rec.Log = nil
			r.Exec()
			got := ToOutcome(b.gm.ParseString(text))
			if e := compare(want, got, text, "short"); e != nil {
				return errf("%v\ntext: %q\ncompiler %d\ngrammar:\n%s", e, text, i, Describe(c.G))
			}
			if i == 0 {
				first, log = got, b.rec.Log
				continue
			}
			if !got.Same(first) {
				return errf("%s instead of %s\ntext: %q\ncompiler %d\ngrammar:\n%s", got, first, text, i, Describe(c.G))
			}
			if e := sameLog(log, b.rec.Log); e != nil {
				return errf("%v\ntext: %q\ncompiler %d\ngrammar:\n%s", e, text, i, Describe(c.G))
			}
		}
	}
	r.ClassIf(yes > 0, "some accepted")
	r.ClassIf(no > 0, "some rejected")
	r.NonTrivialIf(yes > 0 && no > 0)
	return nil
}

// BootCase: each compiler of the chain is compiled by the previous one (From 0),
// by the handcompiled grammar (1), or by the previous one after it failed (2).
type BootCase struct {
	From []int    `json:"from"`
	Text pbt.Text `json:"text"`
}

func checkC11Chain(c BootCase, r *pbt.R) error {
	ref := generations()[1]
	table := capture(ref.PrintRules)
	cur := j.NewJoesonWithOptions(j.Mute())
	want, _, _ := compile(cur, string(c.Text))
	for i, f := range c.From {
		switch f {
		case 1:
			cur = j.NewJoesonWithOptions(j.Mute())
		case 2:
			pbt.Catch(func() { cur.ParseString("a ( 'b'") })
			pbt.Catch(func() { cur.ParseString("/(/") })
		}
		cur = selfHosted(cur)
		r.Exec()
		if got := capture(cur.PrintRules); got != table {
			return errf("generation %d of %v has another table of rules:\n%s\ninstead of\n%s", i+1, c.From, got, table)
		}
		if cur.CountRules() != ref.CountRules() || !cur.IsReady() {
			return errf("generation %d of %v has %d rules instead of %d", i+1, c.From, cur.CountRules(), ref.CountRules())
		}
		if got, ok, why := compile(cur, string(c.Text)); !ok || got != want {
			return errf("generation %d of %v compiles %q to\n%s\ninstead of\n%s\n%s", i+1, c.From, c.Text, got, want, why)
		}
	}
	r.NonTrivialIf(len(c.From) > 1 && strings.TrimSpace(string(c.Text)) != "")
	return nil
}
