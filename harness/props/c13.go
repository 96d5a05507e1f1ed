package props

import (
	"fmt"
	"strings"

	"verif/model"
	"verif/pbt"

	j "github.com/grepsuzette/joeson"
)

var c13 = &pbt.Prop{
	ID: "C13",
	Rule: "A case is a generated grammar and a way to write it as a tree of lines: choices become ranks of 'o' lines (nested, named, unnamed or freshly named), a rule is declared by the 'o' line where it is an alternative, or by an 'i' line anywhere in the tree and in any order. The tree must give the outcome and the invocations of the flat grammar, whose choices are horizontal, and of the reference interpreter. " +
		"Non-trivial: the tree has a rank of at least two lines and an 'i' line or a rule declared in place, and a text is accepted.",
	Assumptions: []string{
		"spans are not compared either: a line without callback is a rule which passes the production of its expression, whose origin becomes the one of the line",
		"positions of errors are not compared between the two forms: each 'o' line is a rule of its own, so that there are more rules which may match",
		"invocations are compared when no rule is declared with SkipCache and there is no left recursion",
	},
	Families: []pbt.Family{
		pbt.Fam("grammar", 6000, 90000, genTree(func(t *rapidT) *model.Grammar {
			return model.GenGrammar(t, model.GenOpts{MaxRules: 7, Depth: 3, Shapes: true, Labels: true, Skip: true, Callbacks: anyCallback})
		}), checkTree),
		pbt.Fam("choices", 6000, 90000, genTree(genChoices), checkTree),
		pbt.Fam("rich", 3500, 50000, genTree(func(t *rapidT) *model.Grammar {
			return model.GenRich(t, []int{model.CBNode, model.CBNone, model.CBPicky}, pbt.Chance(t, "labels", 60))
		}), checkTree),
		pbt.Fam("left-recursive", 2500, 35000, func(t *rapidT) TreeCase {
			g := model.GenLR(t, []int{model.CBNode, model.CBNone}, pbt.Chance(t, "labels", 30))
			c := TreeCase{GCase: GCase{G: g}, Tape: pbt.FullTape(t, "tree", 40)}
			for i := 0; i < 4; i++ {
				c.Texts = append(c.Texts, model.GenLRText(t, g))
			}
			return c
		}, checkTree),
	},
}

type TreeCase struct {
	GCase
	Tape []int `json:"tape"`
}

func genTree(gen func(*rapidT) *model.Grammar) func(*rapidT) TreeCase {
	return func(t *rapidT) TreeCase {
		g := gen(t)
		return TreeCase{
			GCase: GCase{G: g, Texts: shortened(model.GenTexts(t, g, 4), 600), Opt: pbt.Uniform(t, "opt", 16)},
			Tape:  pbt.FullTape(t, "tree", 40),
		}
	}
}

// genChoices makes grammars which are mostly choices of references.
func genChoices(t *rapidT) *model.Grammar {
	n := 3 + pbt.Uniform(t, "n", 6)
	wide := pbt.Chance(t, "wide", 8)
	vast := pbt.Chance(t, "vast", 3)
	g := &model.Grammar{Rules: make([]model.Rule, n)}
	r := &pbt.TapeReader{T: pbt.FullTape(t, "choices", 120)}
	name := func(i int) string { return "R" + string(rune('a'+i)) }
	leaf := func() *model.Expr {
		return []*model.Expr{model.S("a"), model.S("ab"), model.S("b"), model.C("a-c"), model.Pl(model.C("bc"), nil), model.S("é"), model.S("c"), model.Sq(model.S("a"), model.C("ab")), model.St(model.S("b"), nil), model.Sq(model.No(model.S("ab")), model.C("ab"))}[r.Next(10)]
	}
	for i := n - 1; i >= 0; i-- {
		ref := func() *model.Expr {
			if i == n-1 {
				return leaf()
			}
			return model.R(name(i + 1 + r.Next(n-1-i)))
		}
		var alt func(depth int) *model.Expr
		alt = func(depth int) *model.Expr {
			e := &model.Expr{K: model.Alt}
			k := 2 + r.Next(3)
			if depth == 2 && wide {
				k = 6 + r.Next(30)
			}
			if depth == 2 && vast {
				k = 40 + r.Next(150)
			}
			for ; k > 0; k-- {
				switch x := r.Next(9); {
				case k > 4 && vast && depth == 2: // none hides the next ones
					e.E = append(e.E, model.S(fmt.Sprintf("k%d;", k)))
				case x < 3:
					e.E = append(e.E, ref())
				case x == 3 && depth > 0:
					e.E = append(e.E, alt(depth-1))
				case x == 4:
					e.E = append(e.E, model.Sq(ref(), ref()))
				case x == 5:
					e.E = append(e.E, model.Sq(model.S("("), ref(), model.S(")")))
				case x == 6:
					e.E = append(e.E, model.Sq(model.Lb("x", ref()), model.Lb("y", model.C("a-c"))))
				default:
					e.E = append(e.E, leaf())
				}
			}
			return e
		}
		rule := model.Rule{Name: name(i)}
		switch {
		case i == n-1:
			rule.E = leaf()
		case r.Next(5) == 4:
			rule.E = model.Sq(ref(), model.Op(ref()))
		case r.Next(9) == 8:
			rule.E = ref()
		default:
			rule.E = alt(2)
		}
		rule.CB = []int{model.CBNone, model.CBNode, model.CBNode, model.CBPicky, model.CBConcat}[r.Next(5)]
		g.Rules[i] = rule
	}
	return g
}

// nameOf is the name of a line: the one it was given, or its index in its rank.
type nameOf struct {
	given string
	rank  *nameOf
	index int
}

func (n *nameOf) String() string {
	if n.given != "" {
		return n.given
	}
	return fmt.Sprintf("%s[%d]", n.rank, n.index)
}

// treeOf writes a grammar as a tree of lines, following a tape.
type treeOf struct {
	g      *model.Grammar
	idx    map[string]int
	uses   map[string]int
	rec    *Recorder
	r      *pbt.TapeReader
	placed map[string]bool
	fresh  int
	names  map[string]*nameOf // of the line which declares each rule
	anon   any                // content of the last declared rule
	// what was used
	ranks, inplace, is, nested, freshly, single, unnamed, inside, compiled int
	out                                                                    strings.Builder // description
}

func newTree(g *model.Grammar, rec *Recorder, tape []int) *treeOf {
	x := &treeOf{g: g, idx: g.Index(), uses: map[string]int{}, rec: rec, r: &pbt.TapeReader{T: tape}, placed: map[string]bool{}, names: map[string]*nameOf{}}
	for _, rule := range g.Rules {
		rule.E.Walk(func(e *model.Expr) {
			if e.K == model.Ref {
				x.uses[e.S]++
			}
		})
	}
	return x
}

func (x *treeOf) say(depth int, f string, a ...any) {
	x.out.WriteString(strings.Repeat("  ", depth))
	fmt.Fprintf(&x.out, f, a...)
	x.out.WriteString("\n")
}

func (x *treeOf) lines() []j.Line {
	start := x.g.Rules[0]
	x.placed[start.Name] = true
	var lines []j.Line
	before := x.r.Next(3) == 1
	if before {
		lines = append(lines, x.rest(0)...)
	}
	if start.E.K == model.Alt && start.E.L == "" && start.CB == model.CBNone && !start.Skip && x.uses[start.Name] == 0 && x.r.Next(3) > 0 {
		lines = append(lines, x.rank(start.E, 0, &nameOf{given: "gm"})...)
	} else {
		lines = append(lines, j.O(x.decl(start, 0, "o")...))
	}
	return append(lines, x.rest(0)...)
}

// rest declares as 'i' lines what was not declared
func (x *treeOf) rest(depth int) []j.Line {
	var left []int
	for i, rule := range x.g.Rules {
		if !x.placed[rule.Name] {
			left = append(left, i)
		}
	}
	var lines []j.Line
	for len(left) > 0 {
		k := x.r.Next(len(left))
		rule := x.g.Rules[left[k]]
		left = append(left[:k], left[k+1:]...)
		if !x.placed[rule.Name] {
			x.placed[rule.Name] = true
			lines = append(lines, j.I(x.decl(rule, depth, "i")...))
		}
	}
	return lines
}

// decl gives the arguments of the line which declares a rule
func (x *treeOf) decl(rule model.Rule, depth int, kind string) []any {
	x.names[rule.Name] = &nameOf{given: rule.Name}
	content := x.content(rule.E, rule.Name, depth, kind, rule.CB)
	var opts []any
	if cb := x.rec.Callback(rule.Name, rule.CB, x.r.Next(3)); cb != nil {
		opts = append(opts, cb)
	}
	if rule.Skip {
		opts = append(opts, j.SkipCache{Bool: true})
	}
	lines, isRank := content.([]j.Line)
	how := x.r.Next(12)
	if text, ok := content.(string); ok && how >= 10 && !rule.Skip {
		x.say(depth+1, "compiled beforehand")
		x.compiled++
		quickly()
		content = sharedJoeson.Get().ParseString(text).(j.Parser)
	}
	if how == 9 || how == 11 {
		x.say(depth+1, "in a line inside of the line, which has the options")
		x.inside++
		if isRank {
			content = j.NewALine(lines)
		}
		content, opts, isRank = j.O(append([]any{content}, opts...)...), nil, false
	}
	args := append([]any{j.Named(rule.Name, content)}, opts...)
	x.anon = content
	if isRank {
		x.anon = j.NewALine(lines)
	}
	return args
}

func (x *treeOf) content(e *model.Expr, name string, depth int, kind string, cb int) any {
	if e.K == model.Alt && e.L == "" && x.r.Next(4) > 0 {
		x.say(depth, "%s %s: (callback %d)", kind, name, cb)
		return x.rank(e, depth+1, x.names[name])
	}
	if rankable(e) && x.r.Next(6) == 5 {
		x.single++
		x.say(depth, "%s %s: (callback %d, a rank of one line)", kind, name, cb)
		return x.rank(&model.Expr{K: model.Alt, E: []*model.Expr{e}}, depth+1, x.names[name])
	}
	text := model.Render(e, nil)
	x.say(depth, "%s %s: %s (callback %d)", kind, name, text, cb)
	if x.r.Next(8) == 7 {
		return j.O(text)
	}
	return text
}

// rankable tells whether e may be the only line of a rank.
func rankable(e *model.Expr) bool { return e.K != model.Alt && e.L == "" }

// rank writes a choice as lines
func (x *treeOf) rank(e *model.Expr, depth int, name *nameOf) []j.Line {
	x.ranks++
	var lines []j.Line
	for index, k := range e.E {
		line := &nameOf{rank: name, index: index}
		if x.r.Next(4) == 3 { // some rule is declared here
			for n, start := 0, x.r.Next(len(x.g.Rules)); n < len(x.g.Rules); n++ {
				rule := x.g.Rules[(start+n)%len(x.g.Rules)]
				if !x.placed[rule.Name] {
					x.placed[rule.Name] = true
					x.is++
					lines = append(lines, j.I(x.decl(rule, depth, "i")...))
					break
				}
			}
		}
		if k.K == model.Ref && k.L == "" && !x.placed[k.S] && k.S[0] != '_' && x.r.Next(3) > 0 {
			x.placed[k.S] = true
			x.inplace++
			rule := x.g.Rules[x.idx[k.S]]
			args := x.decl(rule, depth, "o")
			if x.uses[k.S] == 1 && x.r.Next(3) == 2 { // nothing needs its name
				x.unnamed++
				x.say(depth, "  (%s not being named)", k.S)
				args[0] = x.anon
				*x.names[k.S] = *line
			}
			lines = append(lines, j.O(args...))
			continue
		}
		var content any
		switch {
		case k.K == model.Alt && k.L == "" && x.r.Next(3) > 0:
			x.nested++
			x.say(depth, "o")
			content = j.NewALine(x.rank(k, depth+1, line))
		case rankable(k) && x.r.Next(10) == 9:
			x.nested++
			x.single++
			x.say(depth, "o (one line)")
			content = j.NewALine(x.rank(&model.Expr{K: model.Alt, E: []*model.Expr{k}}, depth+1, line))
		default:
			content = model.Render(k, nil)
			x.say(depth, "o %s", content)
		}
		if x.r.Next(4) == 3 {
			x.fresh++
			x.freshly++
			name := fmt.Sprintf("Unused%d", x.fresh)
			line.given = name
			x.say(depth, "  (named %s)", name)
			switch v := content.(type) {
			case string:
				content = j.Named(name, v)
			case j.ALine:
				content = j.Named(name, v.Array)
			}
		}
		lines = append(lines, j.O(content))
	}
	return lines
}

func checkTree(c TreeCase, r *pbt.R) error {
	rec, flatRec := &Recorder{}, &Recorder{}
	x := newTree(c.G, rec, c.Tape)
	lines := x.lines()
	gm := j.GrammarWithOptionsFromLines("gm", options(c.Opt), lines)
	flat := BuildWith(c.G, flatRec, quickly())
	_, lr := model.LeftGraph(c.G)
	logs := true
	for i, rule := range c.G.Rules {
		logs = logs && !rule.Skip && !lr[i]
	}
	accepted := false
	for _, text := range c.Texts {
		text := string(text)
		_, want, ok := interp(c.G, text)
		if !ok {
			r.Class("reference too slow")
			continue
		}
		r.Exec()
		rec.Log, flatRec.Log = nil, nil
		got := ToOutcome(gm.ParseString(text))
		horizontal := ToOutcome(flat.ParseString(text))
		e := compare(want, got, text, "short")
		if e == nil && (got.OK != horizontal.OK || got.Nil != horizontal.Nil || got.Short != horizontal.Short) {
			e = errf("%s with ranks, %s with choices", got, horizontal)
		}
		if e == nil && logs {
			e = sameLog(flatRec.Log, rec.Log)
		}
		if e != nil {
			return errf("%v\ntext: %q\ngrammar:\n%slines:\n%s", e, text, Describe(c.G), x.out.String())
		}
		accepted = accepted || want.OK
	}
	r.ClassIf(accepted, "accepted a text")
	r.ClassIf(x.ranks > 0, "rank")
	r.ClassIf(x.nested > 0, "unnamed nested rank")
	r.ClassIf(x.inplace > 0, "rule declared in place")
	r.ClassIf(x.is > 0, "'i' line inside a rank")
	r.ClassIf(x.single > 0, "rank of a single line")
	r.ClassIf(x.unnamed > 0, "callback on an unnamed line")
	r.ClassIf(x.inside > 0, "options on a line inside of another")
	r.ClassIf(x.compiled > 0, "rule compiled beforehand")
	r.ClassIf(x.freshly > 0, "named without being referenced")
	r.NonTrivialIf(accepted && x.ranks > 0 && x.inplace+x.is > 0)
	return nil
}
