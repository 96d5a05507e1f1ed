package props

import (
	"fmt"

	"verif/model"
	"verif/pbt"

	j "github.com/grepsuzette/joeson"
	"pgregory.net/rapid"
)

var anyCallback = []int{model.CBNone, model.CBNode, model.CBPass, model.CBPicky, model.CBConcat}

var c14 = &pbt.Prop{
	ID: "C14",
	Rule: "A case is a generated grammar with callbacks on its rules and a few texts: the complete list of invocations (rule, production, end position) and the outcome are compared with the reference interpreter, for the 3 signatures and for a callback which panics at a chosen invocation. " +
		"Non-trivial: at least 3 invocations, or a callback refused a production, or a panic was raised.",
	Assumptions: []string{
		"grammars without left recursion",
		"callbacks which return a parse error are not generated, as the documentation and the code disagree on their effect",
	},
	Families: []pbt.Family{
		pbt.Fam("rich", 5000, 80000, genRichCalls([]int{model.CBNode, model.CBNode, model.CBPass, model.CBConcat, model.CBNone, model.CBPicky}, 4), checkC14),
		pbt.Fam("rich-panic", 3000, 50000, genRichCalls([]int{model.CBNode, model.CBNode, model.CBNone, model.CBNode, model.CBPicky}, 3), checkPanic),
		pbt.Fam("log", 6000, 80000, genCalls(model.GenOpts{MaxRules: 6, Depth: 3, Shapes: true, Labels: true, Callbacks: anyCallback}, 4), checkC14),
		pbt.Fam("picky", 4000, 60000, genCalls(model.GenOpts{MaxRules: 6, Depth: 3, Shapes: true, Plain: true, NoRegex: true, Callbacks: []int{model.CBPicky, model.CBPicky, model.CBNode}}, 4), checkC14),
		pbt.Fam("panic", 2500, 35000, genCalls(model.GenOpts{MaxRules: 6, Depth: 3, Shapes: true, Callbacks: []int{model.CBNode, model.CBPass, model.CBPicky}}, 3), checkPanic),
		pbt.Fam("big", 700, 10000, genCalls(model.GenOpts{MaxRules: 14, Depth: 4, Shapes: true, Labels: true, Callbacks: anyCallback}, 4), checkC14),
	},
}

// CallCase: Sigs choose the signature of each callback; At is the invocation
// which panics.
type CallCase struct {
	GCase
	At   int `json:"at,omitempty"`
	Kind int `json:"kind,omitempty"`
}

// genRichCalls: callbacks over grammars in the style of real ones.
func genRichCalls(cbs []int, n int) func(*rapid.T) CallCase {
	return func(t *rapid.T) CallCase {
		g := model.Twins(t, model.Declared(t, model.Growing(t, model.GenRich(t, cbs, pbt.Chance(t, "labels", 50)))))
		c := CallCase{GCase: GCase{G: g, Texts: model.GenTexts(t, g, n), Opt: pbt.Uniform(t, "opt", 16)}}
		c.Sigs = rapid.SliceOfN(rapid.IntRange(0, 2), 1, 5).Draw(t, "sigs")
		c.At = 1 + pbt.Uniform(t, "at", 12)
		c.Kind = pbt.Uniform(t, "kind", 3)
		return c
	}
}

func genCalls(o model.GenOpts, n int) func(*rapid.T) CallCase {
	return func(t *rapid.T) CallCase {
		g := model.Twins(t, model.Declared(t, model.Growing(t, model.GenGrammar(t, o))))
		c := CallCase{GCase: GCase{G: g, Texts: model.GenTexts(t, g, n), Opt: pbt.Uniform(t, "opt", 16)}}
		c.Sigs = rapid.SliceOfN(rapid.IntRange(0, 2), 1, 5).Draw(t, "sigs")
		c.At = 1 + pbt.Uniform(t, "at", 6)
		c.Kind = pbt.Uniform(t, "kind", 3)
		return c
	}
}

// sameLog compares invocations; an End of -1 was not observable.
func sameLog(want, got []model.Event) error {
	for i := 0; i < len(want) || i < len(got); i++ {
		switch {
		case i >= len(want):
			return errf("invocation %d: callback of %s with %s at %d, but the reference makes only %d", i, got[i].Rule, got[i].It, got[i].End, len(want))
		case i >= len(got):
			return errf("only %d invocations; then the reference calls %s with %s at %d", i, want[i].Rule, want[i].It, want[i].End)
		}
		w, g := want[i], got[i]
		if w.Rule != g.Rule || w.It != g.It || g.End >= 0 && w.End != g.End {
			return errf("invocation %d: callback of %s with %s at %d, the reference calls %s with %s at %d", i, g.Rule, g.It, g.End, w.Rule, w.It, w.End)
		}
	}
	return nil
}

func checkC14(c CallCase, r *pbt.R) error {
	for pass, sigs := range [][]int{c.Sigs, {0}} {
		rec := &Recorder{}
		gm := j.GrammarWithOptionsFromLines("gm", options(c.Opt), Lines(c.G, nil, rec, sigs))
		for _, text := range c.Texts {
			in, want, ok := interp(c.G, string(text))
			if !ok {
				r.Class("reference too slow")
				continue
			}
			r.Exec()
			rec.Log = nil
			got := ToOutcome(gm.ParseString(string(text)))
			e := compare(want, got, string(text), "short")
			if e == nil {
				e = sameLog(in.Log, rec.Log)
			}
			if e != nil {
				return errf("%v\ntext: %q signatures: %v\ngrammar:\n%s", e, string(text), sigs, Describe(c.G))
			}
			if pass == 0 {
				refused := 0
				for _, ev := range in.Log {
					if cbOf(c.G, ev.Rule) == model.CBPicky && model.Picky(ev.It) {
						refused++
					}
				}
				r.ClassIf(refused > 0, "refused productions")
				r.ClassIf(refused > 0 && want.OK, "accepted though a production was refused")
				r.ClassIf(len(in.Log) > 2, "3 invocations or more")
				r.NonTrivialIf(len(in.Log) > 2 || refused > 0)
			}
		}
	}
	return nil
}

func cbOf(g *model.Grammar, rule string) int {
	for _, r := range g.Rules {
		if r.Name == rule {
			return r.CB
		}
	}
	return 0
}

func checkPanic(c CallCase, r *pbt.R) error {
	rec := &Recorder{}
	gm := j.GrammarWithOptionsFromLines("gm", options(c.Opt), Lines(c.G, nil, rec, []int{0, 1}))
	for _, text := range c.Texts {
		in, want, ok := interp(c.G, string(text))
		if !ok {
			continue
		}
		r.Exec()
		n := 0
		var raised any
		rec.Log = nil
		rec.Extra = func(rule string, it j.Ast, ctx *j.ParseContext) {
			n++
			if n == c.At {
				switch c.Kind {
				case 0:
					raised = ctx.Error("refused " + rule)
				case 1:
					raised = j.NewParseError(ctx, "refused "+rule)
				default:
					raised = "a string " + rule
				}
				panic(raised)
			}
		}
		var res j.Ast
		p := pbt.Catch(func() { res = gm.ParseString(string(text)) })
		rec.Extra = nil
		where := fmt.Sprintf("\ntext: %q invocation: %d\ngrammar:\n%s", string(text), c.At, Describe(c.G))
		log := in.Log
		if c.At <= len(log) {
			r.NonTrivial()
			r.Class("panicked")
			log = log[:c.At]
			if p == nil {
				return errf("the panic of a callback did not reach the caller, got %s%s", ToOutcome(res), where)
			}
			if want, isErr := raised.(j.ParseError); isErr {
				got, isErr := p.(j.ParseError)
				if !isErr || got.ErrorString != want.ErrorString || got.String() != want.String() || !j.IsParseError(got) {
					return errf("a callback panicked with the parse error %q, the caller recovered %T %v%s", want.ErrorString, p, p, where)
				}
			} else if p != raised {
				return errf("a callback panicked with %v, the caller recovered %v%s", raised, p, where)
			}
			if e := sameLog(log, rec.Log); e != nil {
				return errf("%v%s", e, where)
			}
			// the grammar is usable afterwards
			rec.Log = nil
			res = gm.ParseString(string(text))
		} else if p != nil {
			return errf("panic %v%s", p, where)
		}
		e := compare(want, ToOutcome(res), string(text), "short")
		if e == nil {
			e = sameLog(in.Log, rec.Log)
		}
		if e != nil {
			return errf("%v%s", e, where)
		}
	}
	return nil
}
