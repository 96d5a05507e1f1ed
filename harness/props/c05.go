package props

import (
	"fmt"

	"verif/model"
	"verif/pbt"

	j "github.com/grepsuzette/joeson"
	"pgregory.net/rapid"
)

var c05 = &pbt.Prop{
	ID: "C05",
	Rule: "A case is 1 to 3 generated grammars (left-recursive ones included), texts, and a history of builds (again from the same declarations or not), failed builds, parses (plain, traced, of tokens, while a callback panics, or from inside a callback); every parse must have the outcome, the position of error and the invocations it has with a grammar built for the occasion, and the outcome of the reference interpreter. " +
		"Non-trivial: at least 3 parses with a same grammar, one of them failed or interrupted, and one accepted.",
	Assumptions: []string{
		"the grammar built for the occasion comes from fresh declarations, its texts being compiled by a compiler of its own",
	},
	Families: []pbt.Family{
		pbt.Fam("history", 3500, 50000, genHistory(func(t *rapidT) *model.Grammar {
			return model.Twins(t, linesOnly(model.Declared(t, model.GenGrammar(t, model.GenOpts{MaxRules: 5, Depth: 3, Shapes: true, Labels: true, Skip: true, Callbacks: anyCallback}))))
		}), checkHistory),
		pbt.Fam("rich", 3000, 40000, genHistory(func(t *rapidT) *model.Grammar {
			return model.Twins(t, linesOnly(model.Declared(t, model.GenRich(t, []int{model.CBNode, model.CBNone, model.CBPicky}, pbt.Chance(t, "labels", 50)))))
		}), checkHistory),
		pbt.Fam("left-recursive", 2500, 35000, genHistory(func(t *rapidT) *model.Grammar {
			return model.GenLR(t, []int{model.CBNone, model.CBNode}, pbt.Chance(t, "labels", 30))
		}), checkHistory),
	},
}

// Step of a history: G chooses the grammar, T the text.
type Step struct {
	K string `json:"k"`
	G int    `json:"g"`
	T int    `json:"t,omitempty"`
	N int    `json:"n,omitempty"`
}

type HistoryCase struct {
	Gs    []GCase `json:"gs"`
	Steps []Step  `json:"steps"`
}

var stepKinds = []string{"parse", "parse", "parse", "parse", "debug", "tokens", "panic", "panic", "inner", "build", "rebuild", "bad", "trace", "other", "many"}

var badRules = []string{"'a", "(A", "A B)", "[a", "/a", "a{1,", "*", "A | | ", "!", "x:", "/(/", "[z-a]", "", "A ->", "'a'{1,2", "?"}

func genHistory(gen func(*rapidT) *model.Grammar) func(*rapidT) HistoryCase {
	return func(t *rapidT) HistoryCase {
		c := HistoryCase{}
		for n := 1 + pbt.Uniform(t, "grammars", 3); n > 0; n-- {
			g := model.Growing(t, gen(t))
			gc := GCase{G: g, Opt: pbt.Uniform(t, "opt", 16), Texts: shortened(model.GenTexts(t, g, 4), 250)}
			gc.Sigs = rapid.SliceOfN(rapid.IntRange(0, 2), 1, 3).Draw(t, "sigs")
			c.Gs = append(c.Gs, gc)
		}
		for n := 4 + pbt.Uniform(t, "steps", 14); n > 0; n-- {
			c.Steps = append(c.Steps, Step{
				K: pbt.Pick(t, "step", stepKinds), G: pbt.Uniform(t, "g", len(c.Gs)),
				T: pbt.Uniform(t, "t", 4), N: pbt.Uniform(t, "n", 48),
			})
		}
		return c
	}
}

// linesOnly: histories build again from the same declarations, which lines holding a
// compiled parser do not allow.
func linesOnly(g *model.Grammar) *model.Grammar {
	for i, d := range g.Decl {
		if d >= model.DeclCompiled {
			g.Decl[i] = model.DeclInner
		}
	}
	return g
}

type expected struct {
	o   Outcome
	log []model.Event
	ok  bool
}

type live struct {
	c     GCase
	lines []j.Line
	rec   *Recorder
	gms   []*j.Grammar
	want  map[int]expected
}

func (l *live) build(fresh bool) {
	if fresh || l.lines == nil {
		l.rec = &Recorder{}
		l.lines = Lines(l.c.G, nil, l.rec, l.c.Sigs)
		l.gms = nil
	}
	l.gms = append(l.gms, j.GrammarWithOptionsFromLines("gm", options(l.c.Opt), l.lines))
}

// expect is what a grammar built for the occasion gives.
func (l *live) expect(i int) (expected, error) {
	if e, ok := l.want[i]; ok {
		return e, nil
	}
	text := string(l.c.Texts[i])
	p, want, ok := interp(l.c.G, text)
	e := expected{ok: ok && p.Grown < 200}
	if e.ok {
		rec := &Recorder{}
		gm := BuildWith(l.c.G, rec, quickly())
		e.o = ToOutcome(gm.ParseString(text))
		e.log = rec.Log
		if er := compare(want, e.o, text, "short"); er != nil {
			return e, errf("%v\ntext: %q\ngrammar:\n%s", er, text, Describe(l.c.G))
		}
	}
	l.want[i] = e
	return e, nil
}

func checkHistory(c HistoryCase, r *pbt.R) error {
	var gs []*live
	for _, g := range c.Gs {
		gs = append(gs, &live{c: g, want: map[int]expected{}})
	}
	accepted, failed, interrupted := 0, 0, 0
	count := map[*j.Grammar]int{}
	most := 0
	for n, st := range c.Steps {
		l := gs[st.G]
		if len(l.gms) == 0 {
			l.build(true)
		}
		k := st.T % len(l.c.Texts)
		text := string(l.c.Texts[k])
		fail := func(f string, a ...any) error {
			return errf("step %d (%s): %s\ntext: %q\nhistory: %s\ngrammar:\n%s", n, st.K, errf(f, a...), text, fmt.Sprint(c.Steps[:n+1]), Describe(l.c.G))
		}
		switch st.K {
		case "build":
			l.build(true)
			continue
		case "rebuild":
			l.build(false)
			continue
		case "bad":
			bad := badRules[st.N%len(badRules)]
			pbt.Catch(func() {
				j.GrammarWithOptionsFromLines("bad", quickly(), []j.Line{j.O(j.Named("Z", bad)), j.I(j.Named("A", "'a'"))})
			})
			continue
		}
		want, e := l.expect(k)
		if e != nil {
			return errf("step %d, with a grammar built for the occasion: %v", n, e)
		}
		if !want.ok {
			r.Class("reference too slow")
			continue
		}
		gm := l.gms[st.N%len(l.gms)]
		r.Exec()
		count[gm]++
		most = max(most, count[gm])
		rec := l.rec
		rec.Log, rec.Extra = nil, nil
		var got Outcome
		switch st.K {
		case "parse":
			got = ToOutcome(gm.ParseString(text))
		case "many":
			// many times, in turns with another text
			other := (k + st.N) % len(l.c.Texts)
			ew, e := l.expect(other)
			if e != nil {
				return errf("step %d, with a grammar built for the occasion: %v", n, e)
			}
			times := min(40+st.N*5, 1+4000/(1+len(text)+len(l.c.Texts[other])))
			for i := 0; i < times && ew.ok; i++ {
				if got := ToOutcome(gm.ParseString(text)); !got.Same(want.o) {
					return fail("time %d: %s; a grammar built for the occasion: %s", i, got, want.o)
				} else if e := sameLog(want.log, rec.Log); e != nil {
					return fail("time %d: %v", i, e)
				}
				rec.Log = nil
				if got := ToOutcome(gm.ParseString(string(l.c.Texts[other]))); !got.Same(ew.o) {
					return fail("time %d, text %q: %s; a grammar built for the occasion: %s", i, string(l.c.Texts[other]), got, ew.o)
				}
				rec.Log = nil
			}
			r.ClassIf(times > 60, "parsed more than 60 times")
			got = ToOutcome(gm.ParseString(text))
		case "other":
			// another grammar built meanwhile
			BuildWith(l.c.G, nil, quickly()).ParseString(text)
			got = ToOutcome(gm.ParseString(text))
		case "debug":
			got = ToOutcome(gm.ParseString(text, j.Debug{Bool: true}))
		case "trace":
			gm.TraceOptions.Stack = true
			got = ToOutcome(gm.ParseString(text))
			gm.TraceOptions.Stack = false
		case "tokens":
			ts, _ := tokensOf(text, [][2]int{{0, len(text)}})
			if text == "" {
				ts, _ = tokensOf(text, nil)
			}
			got = ToOutcome(gm.ParseTokens(ts))
		case "panic":
			left := 1 + st.N%6
			rec.Extra = func(rule string, it j.Ast, ctx *j.ParseContext) {
				left--
				if left == 0 {
					if ctx == nil || st.N%2 == 0 {
						panic("interrupted")
					}
					panic(ctx.Error("interrupted"))
				}
			}
			opts := []j.ParseOption{}
			if st.N%3 == 0 {
				opts = append(opts, j.Debug{Bool: true})
			}
			if pbt.Catch(func() { got = ToOutcome(gm.ParseString(text, opts...)) }) != nil {
				interrupted++
				continue
			}
		case "inner":
			// a callback parses something with the same grammar
			left := 1 + st.N%4
			other := (k + st.N) % len(l.c.Texts)
			ew, e := l.expect(other)
			if e != nil {
				return errf("step %d, with a grammar built for the occasion: %v", n, e)
			}
			var inner error
			rec.Extra = func(rule string, it j.Ast, ctx *j.ParseContext) {
				left--
				if left != 0 || !ew.ok {
					return
				}
				saved := rec.Log
				rec.Log = nil
				if in := ToOutcome(gm.ParseString(string(l.c.Texts[other]))); !in.Same(ew.o) {
					inner = fail("a parse of %q from inside a callback: %s; instead of %s", string(l.c.Texts[other]), in, ew.o)
				} else if e := sameLog(ew.log, rec.Log); e != nil {
					inner = fail("a parse of %q from inside a callback: %v", string(l.c.Texts[other]), e)
				}
				rec.Log = saved
				r.Class("parse from inside a callback")
			}
			got = ToOutcome(gm.ParseString(text))
			if inner != nil {
				return inner
			}
		default:
			panic("BUG in harness: step " + st.K)
		}
		rec.Extra = nil
		if !got.Same(want.o) {
			return fail("%s; a grammar built for the occasion: %s", got, want.o)
		}
		if e := sameLog(want.log, rec.Log); e != nil {
			return fail("%v", e)
		}
		if got.OK {
			accepted++
		} else {
			failed++
		}
		r.Class(st.K)
	}
	r.ClassIf(interrupted > 0, "interrupted by a callback")
	r.NonTrivialIf(most >= 3 && accepted > 0 && failed+interrupted > 0)
	return nil
}
