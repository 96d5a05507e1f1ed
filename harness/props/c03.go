package props

import (
	"strings"

	"verif/model"
	"verif/pbt"

	j "github.com/grepsuzette/joeson"
)

var c03 = &pbt.Prop{
	ID: "C03",
	Rule: "A case is a generated left-recursive grammar (1-3 layers; direct, indirect or hidden recursion; written as choices or as ranks) and texts: acceptance and production are compared with an interpreter which grows the match from the non-recursive alternatives; a second family compares with the equivalent iterative grammar, folded to the left. " +
		"Non-trivial: an accepted text where the left-recursive rule grew at least twice.",
	Assumptions: []string{
		"families but mutual: one rule of each left-recursive cycle is the head: the others are only referenced from inside of the cycle; mutual: chains of rules where each refers, at the left, to itself, to the next one and to the previous one; the start rule may also refer to the second one",
		"left recursion through a lookahead is not generated",
	},
	Families: []pbt.Family{
		pbt.Fam("grow", 11000, 150000, genLR(nil, false), checkC03),
		pbt.Fam("nodes", 6000, 90000, genLR([]int{model.CBNone, model.CBNode, model.CBNode, model.CBConcat}, false), checkC03),
		pbt.Fam("picky", 3000, 40000, genLR([]int{model.CBNone, model.CBNode, model.CBPicky}, false), checkC03),
		pbt.Fam("iterative", 5000, 70000, genIter, checkIter),
		pbt.Fam("mutual", 8000, 150000, genMutual, checkC03),
		pbt.Fam("long", 240, 2400, genLongLR, checkC03),
	},
}

// genLR: Opt&1 means ranks.
func genLR(callbacks []int, errors bool) func(*rapidT) GCase {
	return func(t *rapidT) GCase {
		g := model.Declared(t, model.GenLR(t, callbacks, pbt.Chance(t, "labels", 30)))
		c := GCase{G: g, Opt: pbt.Uniform(t, "opt", 16)}
		for i := 0; i < 5; i++ {
			text := model.GenLRText(t, g)
			if errors {
				text += pbt.Text(pbt.Pick(t, "tail", append([]string{"", "", "\n"}, model.LRAlphabet...)))
			}
			c.Texts = append(c.Texts, text)
		}
		return c
	}
}

// ranked writes the choices of rules as ranks.
func ranked(g *model.Grammar, rec *Recorder) []j.Line {
	var lines []j.Line
	for i, r := range g.Rules {
		var content any = model.Render(r.E, nil)
		if r.E.K == model.Alt && r.E.L == "" {
			var alts []j.Line
			for _, k := range r.E.E {
				alts = append(alts, j.O(model.Render(k, nil)))
			}
			content = alts
		}
		args := []any{j.Named(r.Name, content)}
		if cb := rec.Callback(r.Name, r.CB, 0); cb != nil {
			args = append(args, cb)
		}
		if r.Skip {
			args = append(args, j.SkipCache{Bool: true})
		}
		if i == 0 {
			lines = append(lines, j.O(args...))
		} else {
			lines = append(lines, j.I(args...))
		}
	}
	return lines
}

func buildLR(c GCase, rec *Recorder) *j.Grammar {
	if rec == nil {
		rec = &Recorder{}
	}
	if c.Opt&1 == 1 {
		return j.GrammarWithOptionsFromLines("gm", options(c.Opt), ranked(c.G, rec))
	}
	return BuildWith(c.G, rec, options(c.Opt+1))
}

func checkC03(c GCase, r *pbt.R) error {
	gm := buildLR(c, nil)
	_, lr := model.LeftGraph(c.G)
	n := 0
	for _, b := range lr {
		if b {
			n++
		}
	}
	r.ClassIf(n == 0, "no left recursion")
	r.ClassIf(n > 1, "several left-recursive rules")
	for _, text := range c.Texts {
		text := string(text)
		in := model.NewInterp(c.G, text)
		in.Limit = 600000
		want := in.Parse()
		if in.Exceeded {
			r.Class("reference too slow")
			continue
		}
		r.Exec()
		got := ToOutcome(gm.ParseString(text))
		if e := compare(want, got, text, "short"); e != nil {
			return errf("%v\ntext: %q\nranks: %v\ngrammar:\n%s", e, clip(text, 300), c.Opt&1 == 1, Describe(c.G))
		}
		r.ClassIf(want.OK, "accepted")
		r.ClassIf(!want.OK, "rejected")
		r.ClassIf(in.Grown > 1, "grew twice or more")
		r.NonTrivialIf(want.OK && in.Grown > 1)
	}
	return nil
}

// genIter: E: E TAILi | BASE, against E: BASE TAIL*. The texts are derived from the
// iterative grammar.
func genIter(t *rapidT) GCase {
	n := 1 + pbt.Uniform(t, "tails", 3)
	g := &model.Grammar{}
	add := func(name string, e *model.Expr) {
		g.Rules = append(g.Rules, model.Rule{Name: name, E: e, CB: model.CBNode})
	}
	tails := &model.Expr{K: model.Alt}
	add("E", nil)
	ops := []string{"+", "-", "+b", "*", "+-"}
	for i := 0; i < n; i++ {
		name := "TAIL" + string(rune('A'+i))
		tails.E = append(tails.E, model.R(name))
		op := model.S(pbt.Pick(t, "op", ops))
		var e *model.Expr
		switch pbt.Uniform(t, "tail", 6) {
		case 0, 1:
			e = model.Sq(op, model.R("BASE"))
		case 2:
			e = model.Sq(op, model.R("E"), model.S("]"))
		case 3:
			e = model.Sq(op, model.St(model.R("BASE"), model.S(",")))
		case 4:
			e = model.Sq(op, model.Op(model.R("E")))
		case 5:
			e = model.Sq(model.No(model.S("+b+")), op, model.C("a-c"), model.Lo(model.C("+*\\-")))
		}
		add(name, e)
	}
	add("BASE", model.Al(model.Sq(model.S("("), model.R("E"), model.S(")")), model.Pl(model.C("0-9"), nil), model.C("a-c"), model.Sq(model.S("-"), model.R("E"))))
	// the iterative one is stored; the left-recursive one is made from it
	g.Rules[0].E = model.Sq(model.R("BASE"), model.St(tails, nil))
	c := GCase{G: g, Opt: pbt.Uniform(t, "opt", 16)}
	for i := 0; i < 5; i++ {
		c.Texts = append(c.Texts, model.GenLRText(t, g))
	}
	return c
}

func checkIter(c GCase, r *pbt.R) error {
	tails := c.G.Rules[0].E.E[1].E[0]
	lr := &model.Grammar{Rules: append([]model.Rule{}, c.G.Rules...), Pad: c.G.Pad}
	e := &model.Expr{K: model.Alt}
	for _, k := range tails.E {
		e.E = append(e.E, model.Sq(model.R("E"), k))
	}
	e.E = append(e.E, model.R("BASE"))
	lr.Rules[0].E = e
	gmIter := BuildWith(c.G, nil, quickly())
	gmLR := buildLR(GCase{G: lr, Opt: c.Opt}, nil)
	for _, text := range c.Texts {
		text := string(text)
		r.Exec()
		it, rec := ToOutcome(gmIter.ParseString(text)), ToOutcome(gmLR.ParseString(text))
		where := errf("text: %q ranks: %v\niterative grammar:\n%sleft-recursive grammar:\n%s", text, c.Opt&1 == 1, Describe(c.G), Describe(lr))
		if it.OK != rec.OK {
			return errf("the iterative grammar: %s\nthe left-recursive grammar: %s\n%v", it, rec, where)
		}
		if !it.OK {
			continue
		}
		depth := 0
		want := fold(FromAst(it.Ast), &depth).Canon(false)
		if rec.Short != want {
			return errf("the left-recursive grammar yields %s instead of %s\n%v", rec.Short, want, where)
		}
		r.ClassIf(depth > 1, "nested twice to the left")
		r.NonTrivialIf(depth > 1)
	}
	return nil
}

// fold turns <E [base,[t1,t2]]> into <E [<E [<E base>,t1]>,t2]>
func fold(v *model.Val, depth *int) *model.Val {
	c := *v
	c.A = nil
	for _, x := range v.A {
		c.A = append(c.A, fold(x, depth))
	}
	if v.K == 'N' && v.Rule == "E" {
		seq := c.A[0]
		acc := &model.Val{K: 'N', Rule: "E", A: []*model.Val{seq.A[0]}}
		for i, tail := range seq.A[1].A {
			acc = &model.Val{K: 'N', Rule: "E", A: []*model.Val{model.Av(acc, tail)}}
			*depth = max(*depth, i+1)
		}
		return acc
	}
	return &c
}

// genLongLR repeats the operators of a sum many times.
func genLongLR(t *rapidT) GCase {
	g := model.GenLR(t, []int{model.CBNode, model.CBNone}, false)
	var b strings.Builder
	k := 20 + pbt.Uniform(t, "n", 400)
	if pbt.Chance(t, "longer", 8) {
		k = 900 + pbt.Uniform(t, "n", 1500)
	}
	if len(g.Rules) > 14 {
		// a long chain: its detours multiply the work of each step
		k = min(k, 60)
	}
	tape := pbt.FullTape(t, "tape", 7)
	b.WriteString("1")
	parts := []string{"+2", "-a", "*3", "/b", "'", ".abc", "[1]", "(a,1)", "^1", " + 2", "+ 4", "<b"}
	// keep to operators which the grammar has
	var have []string
	for _, p := range parts {
		gm := model.NewInterp(g, "1"+p)
		gm.Limit = 10000
		if res := gm.Parse(); res.OK {
			have = append(have, p)
		}
	}
	if len(have) == 0 {
		have = parts
	}
	for i := 0; i < k; i++ {
		b.WriteString(have[tape[i%len(tape)]%len(have)])
	}
	return GCase{G: g, Texts: []pbt.Text{pbt.Text(b.String())}, Opt: pbt.Uniform(t, "opt", 16)}
}

func genMutual(t *rapidT) GCase {
	g := model.GenMutual(t, []int{model.CBNone, model.CBNode})
	c := GCase{G: g, Opt: pbt.Uniform(t, "opt", 16)}
	for i := 0; i < 6; i++ {
		c.Texts = append(c.Texts, model.GenLRText(t, g))
	}
	return c
}
