package props

import (
	"fmt"
	"strings"

	"verif/model"
	"verif/pbt"

	j "github.com/grepsuzette/joeson"
	"pgregory.net/rapid"
)

var c04 = &pbt.Prop{
	ID: "C04",
	Rule: "A case is a generated grammar, several random subsets of its rules flagged SkipCache, and texts: the outcome must be the one of the reference for every subset, and without flags the list of invocations must be exactly the one of an interpreter evaluating each rule at most once per position; grammars with nested common prefixes, exponential without a cache, must stay under rules times positions invocations. " +
		"Non-trivial: an accepted text during which the cache was useful (fewer evaluations with than without it).",
	Assumptions: []string{
		"only rules outside of left-recursive cycles are flagged SkipCache, as left recursion relies on the cache",
		"time is measured in callback invocations, and as CPU time of a whole case only to detect the absence of termination (45 s)",
	},
	Families: []pbt.Family{
		pbt.Fam("skip", 4500, 70000, genSkip(func(t *rapidT) *model.Grammar {
			return model.GenGrammar(t, model.GenOpts{MaxRules: 7, Depth: 3, Shapes: true, Callbacks: anyCallback})
		}), checkSkip),
		pbt.Fam("skip-rich", 3500, 50000, genSkip(func(t *rapidT) *model.Grammar {
			return model.GenRich(t, []int{model.CBNode, model.CBNone, model.CBPicky}, false)
		}), checkSkip),
		pbt.Fam("skip-merged", 2500, 35000, genSkip(func(t *rapidT) *model.Grammar {
			return model.GenMerged(t, []int{model.CBNode, model.CBNone, model.CBPicky})
		}), checkSkip),
		pbt.Fam("skip-left-recursive", 2500, 35000, genSkip(func(t *rapidT) *model.Grammar {
			return model.GenLR(t, []int{model.CBNone, model.CBNode}, false)
		}), checkSkip),
		pbt.Fam("once", 4000, 60000, genEnriched, checkOnce),
		pbt.Fam("chain", 1200, 16000, genChain, checkChain),
		pbt.Fam("long", 64, 640, genLongOnce, checkLongOnce),
		pbt.Fam("large", 24, 200, genLarge, checkLarge),
	},
}

// SkipCase: each element of Skips is a set of indexes of rules.
type SkipCase struct {
	GCase
	Skips [][]int `json:"skips"`
}

func genSkip(gen func(*rapidT) *model.Grammar) func(*rapidT) SkipCase {
	return func(t *rapidT) SkipCase {
		g := model.Declared(t, gen(t))
		c := SkipCase{GCase: GCase{G: g, Texts: model.GenTexts(t, g, 4), Opt: pbt.Uniform(t, "opt", 16)}}
		for i := 0; i < 2; i++ {
			var set []int
			pct := pbt.Pick(t, "pct", []int{100, 50, 25})
			for k := range g.Rules {
				if pbt.Chance(t, "skip", pct) {
					set = append(set, k)
				}
			}
			c.Skips = append(c.Skips, set)
		}
		return c
	}
}

func checkSkip(c SkipCase, r *pbt.R) error {
	_, lr := model.LeftGraph(c.G)
	rec := &Recorder{}
	plain := BuildWith(c.G, rec, options(c.Opt))
	type variant struct {
		g   *model.Grammar
		gm  *j.Grammar
		rec *Recorder
	}
	var variants []variant
	for _, set := range c.Skips {
		g := &model.Grammar{Rules: append([]model.Rule{}, c.G.Rules...), Pad: c.G.Pad, Decl: append([]int{}, c.G.Decl...)}
		for _, k := range set {
			if k < len(lr) && !lr[k] {
				g.Rules[k].Skip = true
				if k < len(g.Decl) && g.Decl[k] >= model.DeclCompiled {
					g.Decl[k] = model.DeclInner // those ignore the option
				}
			}
		}
		rc := &Recorder{Max: 200000}
		variants = append(variants, variant{g, BuildWith(g, rc, quickly()), rc})
	}
	anyLR := false
	for _, b := range lr {
		anyLR = anyLR || b
	}
	for _, text := range c.Texts {
		text := string(text)
		in, want, ok := interp(c.G, text)
		if !ok {
			r.Class("reference too slow")
			continue
		}
		rec.Log = nil
		base := ToOutcome(plain.ParseString(text))
		r.Exec()
		e := compare(want, base, text, "short")
		if e == nil && !anyLR {
			e = sameLog(in.Log, rec.Log)
		}
		if e != nil {
			return errf("%v\ntext: %q\ngrammar:\n%s", e, text, Describe(c.G))
		}
		for _, v := range variants {
			in2, want2, ok := interp(v.g, text)
			if !ok {
				r.Class("reference too slow without the cache")
				continue
			}
			v.rec.Log = nil
			got := ToOutcome(v.gm.ParseString(text))
			r.Exec()
			if got.OK != base.OK || got.Nil != base.Nil || got.Short != base.Short {
				return errf("without cache on some rules: %s; with it: %s\ntext: %q\ngrammar:\n%s", got, base, text, Describe(v.g))
			}
			if !anyLR {
				e := compare(want2, got, text, "short")
				if e == nil {
					e = sameLog(in2.Log, v.rec.Log)
				}
				if e == nil && !want2.OK && text != "" {
					e = wantError(got, text, want2.Furthest)
				}
				if e != nil {
					return errf("%v\ntext: %q\ngrammar:\n%s", e, text, Describe(v.g))
				}
			}
			r.ClassIf(in2.Evals > in.Evals, "the cache is useful")
			r.NonTrivialIf(want.OK && in2.Evals > in.Evals)
		}
	}
	return nil
}

// EnrichedCase is a grammar whose rules are wrapped in exponential alternatives.
func genEnriched(t *rapidT) GCase {
	var g *model.Grammar
	if pbt.Bool(t, "rich") {
		g = model.GenRich(t, []int{model.CBNode, model.CBPass, model.CBPicky, model.CBNode}, false)
	} else {
		g = model.GenGrammar(t, model.GenOpts{MaxRules: 12, Depth: 2, Shapes: true, Callbacks: []int{model.CBNode, model.CBPass}})
	}
	g = model.Declared(t, model.Enrich(g, &pbt.TapeReader{T: pbt.FullTape(t, "enrich", 14)}))
	return GCase{G: g, Texts: model.GenTexts(t, g, 4), Opt: pbt.Uniform(t, "opt", 16)}
}

func checkOnce(c GCase, r *pbt.R) error {
	rec := &Recorder{}
	gm := BuildWith(c.G, rec, options(c.Opt))
	for _, text := range c.Texts {
		text := string(text)
		in, want, ok := interp(c.G, text)
		if !ok {
			r.Class("reference too slow")
			continue
		}
		rec.Log = nil
		rec.Max = len(c.G.Rules)*(len(text)+1) + 1
		r.Exec()
		got := ToOutcome(gm.ParseString(text))
		e := compare(want, got, text, "short")
		if e == nil {
			e = sameLog(in.Log, rec.Log)
		}
		if e != nil {
			return errf("%v\ntext: %q\ngrammar:\n%s", e, text, Describe(c.G))
		}
		r.NonTrivialIf(want.OK && len(in.Log) > 3)
		r.ClassIf(len(in.Log) > 20, "more than 20 invocations")
	}
	return nil
}

// ChainCase is an exponential grammar and a text of a given size.
type ChainCase struct {
	Kind  int   `json:"kind"`
	Depth int   `json:"depth"`
	Tape  []int `json:"tape"`
	Cut   int   `json:"cut,omitempty"`
}

func genChain(t *rapid.T) ChainCase {
	return ChainCase{
		Kind:  pbt.Uniform(t, "kind", 7),
		Depth: 5 + pbt.Uniform(t, "depth", 45),
		Tape:  pbt.FullTape(t, "tape", 50),
		Cut:   pbt.Uniform(t, "cut", 4),
	}
}

func (c ChainCase) grammar() (*model.Grammar, string) {
	S, R, Sq, Al := model.S, model.R, model.Sq, model.Al
	g := &model.Grammar{}
	add := func(n string, e *model.Expr) {
		g.Rules = append(g.Rules, model.Rule{Name: n, E: e, CB: model.CBPass})
	}
	r := &pbt.TapeReader{T: c.Tape}
	var b strings.Builder
	switch c.Kind {
	case 0: // chain of rules, each tried 3 times at the same place
		suffix := ""
		for i := 0; i < c.Depth; i++ {
			next := R(fmt.Sprintf("C%d", i+1))
			add(fmt.Sprintf("C%d", i), Al(Sq(next, S("x")), Sq(next, S("y")), next))
			suffix = []string{"x", "y", "", ""}[r.Next(4)] + suffix
		}
		add(fmt.Sprintf("C%d", c.Depth), S("a"))
		b.WriteString("a" + suffix)
	case 1: // parentheses
		add("P", Al(Sq(S("("), R("P"), S(")"), S("x")), Sq(S("("), R("P"), S(")"), S("y")), Sq(S("("), R("P"), S(")")), S("a")))
		b.WriteString(strings.Repeat("(", c.Depth) + "a")
		for i := 0; i < c.Depth; i++ {
			b.WriteString(")" + []string{"x", "y", "", ""}[r.Next(4)])
		}
	case 2: // lookaheads
		add("L", Al(Sq(S("<"), model.Lo(Sq(R("L"), S("!"))), R("L"), S("!")), Sq(S("<"), model.No(Sq(R("L"), S("?"))), R("L"), S(".")), Sq(S("<"), R("L"), S("?")), S("a")))
		b.WriteString(strings.Repeat("<", c.Depth) + "a")
		for i := 0; i < c.Depth; i++ {
			b.WriteString([]string{"!", ".", "?"}[r.Next(3)])
		}
	case 3: // precedence of operators, right recursive
		k := 3 + c.Depth%10
		for i := 0; i < k; i++ {
			next, self := R(fmt.Sprintf("E%d", i+1)), R(fmt.Sprintf("E%d", i))
			add(fmt.Sprintf("E%d", i), Al(Sq(next, S(string(rune('A'+i))), self), next))
		}
		add(fmt.Sprintf("E%d", k), Al(Sq(S("("), R("E0"), S(")")), model.C("0-9")))
		n := 0
		for i := 0; i < c.Depth; i++ {
			if r.Next(3) == 0 && n < 20 {
				b.WriteString("(")
				n++
			}
			b.WriteString("1" + string(rune('A'+r.Next(k))))
		}
		b.WriteString("2" + strings.Repeat(")", n))
	case 4: // repetitions of optional things before an alternative which fails
		add("S", Al(Sq(model.St(R("I"), S(",")), S("!")), Sq(model.St(R("I"), S(",")), S("?")), model.St(R("I"), S(","))))
		add("I", Al(Sq(S("["), R("S"), S("]"), S("z")), Sq(S("["), R("S"), S("]")), S("a")))
		for i := 0; i < c.Depth; i++ {
			b.WriteString("[a,")
		}
		b.WriteString("a")
		for i := 0; i < c.Depth; i++ {
			b.WriteString("]" + []string{"z", "", ""}[r.Next(3)])
		}
	case 5: // left-recursive layers around parentheses
		g.Rules = append(g.Rules,
			model.Rule{Name: "E", E: Al(Sq(R("E"), S("+"), R("T")), Sq(R("E"), S("-"), R("T")), R("T")), CB: model.CBPass},
			model.Rule{Name: "T", E: Al(Sq(R("T"), S("*"), R("F")), R("F")), CB: model.CBPass},
			model.Rule{Name: "F", E: Al(Sq(S("("), R("E"), S(")"), S("!")), Sq(S("("), R("E"), S(")")), S("a")), CB: model.CBPass})
		d := c.Depth
		b.WriteString(strings.Repeat("(", d) + "a")
		for i := 0; i < d; i++ {
			b.WriteString([]string{"+a", "*a", "-a*a", ""}[r.Next(4)] + ")" + []string{"!", "", ""}[r.Next(3)])
		}
	case 6: // layers of left recursion over an operand which may be missing
		k := 2 + c.Depth%20
		g.Rules = append(g.Rules, model.Rule{Name: "S", E: Sq(R("E0"), model.Op(S(";"))), CB: model.CBPass})
		for i := 0; i < k; i++ {
			self, next := R(fmt.Sprintf("E%d", i)), R(fmt.Sprintf("E%d", i+1))
			g.Rules = append(g.Rules, model.Rule{Name: self.S, CB: model.CBNone,
				E: Al(Sq(self, S(string(rune('A'+i))), next), Sq(R("_EVAL"), next, S("!")), next)})
		}
		add(fmt.Sprintf("E%d", k), Al(Sq(S("("), R("E0"), S(")")), model.C("0-9")))
		g.Rules = append(g.Rules, model.Rule{Name: "_EVAL", E: model.St(S("?"), nil), CB: model.CBPass, Skip: true})
		n := r.Next(6)
		for i := 0; i < n; i++ {
			b.WriteString([]string{"1", "2!", "(3)", "(4!)", "", "("}[r.Next(6)] + string(rune('A'+r.Next(k))))
		}
		b.WriteString([]string{"1", "", "2!"}[r.Next(3)])
	}
	text := b.String()
	if c.Cut == 1 && len(text) > 1 {
		text = text[:len(text)-1]
	} else if c.Cut == 2 {
		text += "@"
	}
	return g, text
}

func checkChain(c ChainCase, r *pbt.R) error {
	g, text := c.grammar()
	in := model.NewInterp(g, text)
	in.Limit = 3000000
	want := in.Parse()
	if in.Exceeded {
		r.Class("reference too slow")
		return nil
	}
	rec := &Recorder{Max: len(g.Rules)*(len(text)+1) + 1}
	if c.Kind >= 5 {
		// each growth evaluates the rules of the cycle again
		rec.Max *= 12
	}
	gm := BuildWith(g, rec, quickly())
	r.Exec()
	got := ToOutcome(gm.ParseString(text))
	e := compare(want, got, text, "short")
	if e == nil && c.Kind < 5 {
		e = sameLog(in.Log, rec.Log)
	}
	if e != nil {
		return errf("%v\ntext: %q\ngrammar:\n%s", clip(e.Error(), 500), clip(text, 300), Describe(g))
	}
	r.ClassIf(want.OK, "accepted")
	r.Class(fmt.Sprintf("kind %d", c.Kind))
	r.NonTrivialIf(c.Depth >= 12)
	return nil
}

// LongOnceCase is a long text of items which are tried several times each.
type LongOnceCase struct {
	Kind int   `json:"kind"`
	N    int   `json:"items"`
	Tape []int `json:"tape"`
	Bad  int   `json:"bad"` // which item is wrong; negative: none
}

func genLongOnce(t *rapid.T) LongOnceCase {
	c := LongOnceCase{Kind: pbt.Uniform(t, "kind", 4), Tape: pbt.FullTape(t, "tape", 23), Bad: -1}
	c.N = 200 + pbt.Uniform(t, "items", 1800)
	if pbt.Chance(t, "longer", 25) {
		c.N *= 10
	}
	if pbt.Chance(t, "bad?", 30) {
		c.Bad = pbt.Uniform(t, "bad", c.N)
	}
	return c
}

func checkLongOnce(c LongOnceCase, r *pbt.R) error {
	S, R, Sq, Al, St := model.S, model.R, model.Sq, model.Al, model.St
	g := &model.Grammar{}
	add := func(n string, e *model.Expr, cb int) {
		g.Rules = append(g.Rules, model.Rule{Name: n, E: e, CB: cb})
	}
	word := model.Pl(model.C("a-c"), nil)
	tails := []string{"!", "?", ""}
	switch c.Kind {
	case 0:
		add("S", St(R("I"), S(";")), model.CBNone)
		add("I", Al(Sq(R("W"), S("!")), Sq(R("W"), S("?")), R("W")), model.CBNone)
	case 1:
		add("S", St(Sq(model.Lo(R("I")), model.No(Sq(R("I"), S("#"))), R("I")), S(";")), model.CBNone)
		add("I", Sq(R("W"), model.C("!?.")), model.CBPass)
		tails = []string{"!", "?", "."}
	case 2: // two items at once
		add("S", St(Al(Sq(R("I"), S(";"), R("I"), S("=")), Sq(R("I"), S(";"))), nil), model.CBNone)
		add("I", Al(Sq(R("W"), S("!")), R("W")), model.CBPass)
		tails = []string{";a=", "!;", ";"}
	case 3:
		add("S", St(R("I"), S(";")), model.CBNone)
		add("I", Al(Sq(R("V"), S("+"), R("V")), Sq(R("V"), S("-")), R("V")), model.CBNone)
		add("V", Al(Sq(R("W"), S("'")), R("W")), model.CBPass)
		tails = []string{"+a", "'-", "'", "'+b'", ""}
	}
	add("W", word, model.CBPass)
	tape := &pbt.TapeReader{T: c.Tape}
	var items []string
	for i := 0; i < 11; i++ {
		items = append(items, []string{"a", "bc", "abcab"}[tape.Next(3)]+tails[tape.Next(len(tails))])
	}
	var b strings.Builder
	for i := 0; i < c.N; i++ {
		if i > 0 && c.Kind != 2 {
			b.WriteByte(';')
		}
		if i == c.Bad {
			b.WriteByte('%')
		}
		b.WriteString(items[(i*i+i/7)%len(items)])
	}
	text := b.String()
	in := model.NewInterp(g, text)
	in.Limit = 5000000
	want := in.Parse()
	if in.Exceeded {
		return errf("BUG in harness: the reference is too slow")
	}
	rec := &Recorder{Max: len(g.Rules)*(len(text)+1) + 1}
	gm := BuildWith(g, rec, quickly())
	r.Exec()
	got := ToOutcome(gm.ParseString(text))
	e := compare(want, got, text, "short")
	if e == nil {
		e = sameLog(in.Log, rec.Log)
	}
	if e != nil {
		return errf("%v\nitems: %q, %d of them, wrong: %d\ngrammar:\n%s", clip(e.Error(), 500), items, c.N, c.Bad, Describe(g))
	}
	r.ClassIf(want.OK, "accepted")
	r.ClassIf(len(text) > 20000, "more than 20000 characters")
	r.NonTrivialIf(len(in.Log) > 200)
	return nil
}
