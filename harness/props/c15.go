package props

import (
	"verif/model"
	"verif/pbt"

	j "github.com/grepsuzette/joeson"
)

var c15 = &pbt.Prop{
	ID: "C15",
	Rule: "A case is a generated grammar, with or without left recursion, where every rule builds a fresh node, and texts; in each accepted text the start, end, line, code and rule name of the origin given to every node of the tree are compared with the reference interpreter and with the text. " +
		"Non-trivial: the tree holds at least 3 nodes, one of them not starting at 0.",
	Assumptions: []string{"with a token stream, offsets are those in the tokenized text, lines and code those of the source", "every callback returns a fresh node, as nodes shared by several rules keep the origin given last"},
	Families: []pbt.Family{
		pbt.Fam("rich", 4000, 60000, genRich([]int{model.CBNode}, 5), checkC15),
		pbt.Fam("nodes", 6000, 80000, genC01(model.GenOpts{MaxRules: 6, Depth: 3, Shapes: true, Callbacks: []int{model.CBNode}}, 5), checkC15),
		pbt.Fam("labels", 4000, 60000, genC01(model.GenOpts{MaxRules: 6, Depth: 3, Shapes: true, Labels: true, Callbacks: []int{model.CBNode, model.CBNode, model.CBNode, model.CBConcat}}, 5), checkC15),
		pbt.Fam("left-recursive", 7000, 100000, genLR([]int{model.CBNode}, false), checkC15),
		pbt.Fam("big", 700, 10000, genC01(model.GenOpts{MaxRules: 14, Depth: 4, Shapes: true, Callbacks: []int{model.CBNode}}, 6), checkC15),
		pbt.Fam("statements", 1500, 20000, func(t *rapidT) GCase {
			c := genStatements(t)
			for i := range c.G.Rules {
				c.G.Rules[i].CB = model.CBNode
			}
			return c
		}, checkC15),
		pbt.Fam("ranks", 4000, 50000, genTree(func(t *rapidT) *model.Grammar {
			return model.GenRich(t, []int{model.CBNode}, pbt.Chance(t, "labels", 40))
		}), checkC15Ranks),
		pbt.Fam("ranks-choices", 3000, 40000, genTree(func(t *rapidT) *model.Grammar {
			g := genChoices(t)
			for i := range g.Rules {
				g.Rules[i].CB = model.CBNode
			}
			return g
		}), checkC15Ranks),
		pbt.Fam("tokens", 4000, 50000, genTokenParse(genRich([]int{model.CBNode}, 4)), checkC15Tokens),
		pbt.Fam("tokens-left-recursive", 3000, 40000, genTokenParse(genLR([]int{model.CBNode}, false)), checkC15Tokens),
	},
}

func checkC15(c GCase, r *pbt.R) error {
	gm := BuildWith(c.G, nil, options(c.Opt))
	for _, text := range c.Texts {
		text := string(text)
		_, want, ok := interp(c.G, text)
		if !ok {
			r.Class("reference too slow")
			continue
		}
		if !want.OK {
			continue
		}
		r.Exec()
		got := ToOutcome(gm.ParseString(text))
		e := compare(want, got, text, "spans")
		if e == nil {
			e = origins(got.Ast, text)
		}
		if e != nil {
			return errf("%v\ntext: %q\ngrammar:\n%s", e, text, Describe(c.G))
		}
		nodes, later, multi := 0, false, false
		want.V.Walk(func(v *model.Val) {
			if v.K == 'N' {
				nodes++
				later = later || v.Start > 0
				multi = multi || v.Line > 0
			}
		})
		r.ClassIf(nodes > 0, "accepted with nodes")
		r.ClassIf(multi, "nodes after the first line")
		r.NonTrivialIf(nodes >= 3 && later)
	}
	return nil
}

// checkC15Ranks declares the rules by a tree of lines. Its lines without callback
// pass nodes on and give them their own origin, so that only the origin given by the
// rule which built each node is looked at. Rules whose line is not named have the name
// of their rank and their index.
func checkC15Ranks(c TreeCase, r *pbt.R) error {
	x := newTree(c.G, &Recorder{}, c.Tape)
	gm := j.GrammarWithOptionsFromLines("gm", options(c.Opt), x.lines())
	for _, text := range c.Texts {
		text := string(text)
		_, want, ok := interp(c.G, text)
		if !ok || !want.OK {
			continue
		}
		r.Exec()
		ast := gm.ParseString(text)
		nodes, unnamed := 0, 0
		var e error
		eachNode(ast, func(v *Node) {
			nodes++
			v.O = v.First
			name := x.names[v.Rule].String()
			if name != v.Rule {
				unnamed++
			}
			switch {
			case e != nil:
			case v.Sets == 0:
				e = errf("the node of %s was given no origin", name)
			case v.O.Code != text:
				e = errf("the node of %s has code %q", name, v.O.Code)
			case v.O.RuleName != name:
				e = errf("the node of %s (%s) has rule name %q", name, v.Rule, v.O.RuleName)
			}
		})
		if e == nil {
			e = compare(want, ToOutcome(ast), text, "spans")
		}
		if e != nil {
			return errf("%v\ntext: %q\ngrammar:\n%slines:\n%s", e, text, Describe(c.G), x.out.String())
		}
		r.ClassIf(unnamed > 0, "node of an unnamed line")
		r.NonTrivialIf(nodes >= 3 && x.ranks > 0)
	}
	return nil
}

func eachNode(a j.Ast, f func(*Node)) {
	switch v := a.(type) {
	case *Node:
		f(v)
		eachNode(v.It, f)
	case *j.NativeArray:
		for _, x := range v.Array() {
			eachNode(x, f)
		}
	case *j.NativeMap:
		for _, k := range v.Keys() {
			eachNode(v.GetOrPanic(k), f)
		}
	}
}

// checkC15Tokens does it with the texts scattered in a source.
func checkC15Tokens(c TokenParseCase, r *pbt.R) error {
	gm := BuildWith(c.G, nil, options(c.Opt))
	for i, text := range c.Texts {
		text := string(text)
		_, want, ok := interp(c.G, text)
		if !ok || !want.OK {
			continue
		}
		source, spans := spread(text, c.Tapes[i])
		ts, m := tokensOf(source, spans)
		nodes, later := 0, false
		want.V.Walk(func(v *model.Val) {
			if v.K == 'N' {
				v.Line, _, _ = m.lineCol(v.End)
				nodes++
				later = later || v.Start > 0
			}
		})
		r.Exec()
		got := ToOutcome(gm.ParseTokens(ts))
		e := compare(want, got, text, "spans")
		if e == nil {
			e = origins(got.Ast, source)
		}
		if e != nil {
			return errf("%v\ntokenized text: %q\nsource: %q\ngrammar:\n%s", e, text, source, Describe(c.G))
		}
		r.ClassIf(gapsOf(spans) > 0, "tokens apart")
		r.NonTrivialIf(nodes >= 3 && later && gapsOf(spans) > 0)
	}
	return nil
}

// origins checks what the model does not tell: code, rule name, consistency of
// both ways to read an origin.
func origins(a j.Ast, text string) error {
	switch v := a.(type) {
	case *Node:
		switch {
		case v.Sets == 0:
			return errf("the node of %s was given no origin", v.Rule)
		case v.O.Code != text:
			return errf("the node of %s has code %q", v.Rule, v.O.Code)
		case v.O.RuleName != v.Rule:
			return errf("the node of %s has rule name %q", v.Rule, v.O.RuleName)
		case v.GetLine() != v.O.Line:
			return errf("the node of %s has line %d, its origin has %d", v.Rule, v.GetLine(), v.O.Line)
		}
		o := v.GetOrigin()
		if o != v.O {
			return errf("the node of %s reads the origin %+v instead of %+v", v.Rule, o, v.O)
		}
		return origins(v.It, text)
	case *j.NativeArray:
		for _, x := range v.Array() {
			if e := origins(x, text); e != nil {
				return e
			}
		}
	case *j.NativeMap:
		for _, k := range v.Keys() {
			if e := origins(v.GetOrPanic(k), text); e != nil {
				return e
			}
		}
	}
	return nil
}
