package props

import (
	"fmt"
	"os"
	"regexp"
	"strconv"
	"strings"

	"verif/model"
	"verif/pbt"

	j "github.com/grepsuzette/joeson"
	"github.com/grepsuzette/joeson/helpers"
)

var c24 = &pbt.Prop{
	ID: "C24",
	Rule: "A case is a generated tree of lines (ranks in ranks, named and unnamed lines, rules in any spelling) and trace settings. The rules listed by PrintRules, by the Grammar and the Loop settings at the build, counted by CountRules and found by Walk must be those of the tree, each once, with its name, its rank and its expression in the notation of the reference; what the settings mute must not be printed; and neither listing nor walking may change the grammar. " +
		"Non-trivial: at least 6 rules, of which one has an operator other than a sequence.",
	Assumptions: []string{
		"the types of parsers, the columns cap, label and labels(), and the order of the rules are not compared",
	},
	Families: []pbt.Family{
		pbt.Fam("ranks", 5000, 70000, genListing, checkListing),
		pbt.Fam("walk", 3000, 40000, genListing, checkWalk),
		pbt.Fam("inspected", 2500, 35000, genInspected, checkInspected),
	},
}

// LineSpec is an 'o' or 'i' line: its content is an expression or a rank.
type LineSpec struct {
	In       bool        `json:"in,omitempty"` // an 'i' line
	Name     string      `json:"n,omitempty"`
	E        *model.Expr `json:"e,omitempty"`
	Rank     []*LineSpec `json:"rank,omitempty"`
	Wrap     bool        `json:"wrap,omitempty"` // an unnamed line in a line
	Compiled bool        `json:"compiled,omitempty"`
	CB       int         `json:"cb,omitempty"`
}

type ListingCase struct {
	Name                            string
	Lines                           []*LineSpec
	Tape                            []int // spelling
	Stack, Loop, Grammar, SkipSetup bool
	Compiler                        bool // the default compiler of rules, with the same settings
	Stop                            int  // where the walk is pruned
}

func genListing(t *rapidT) ListingCase {
	g := model.GenGrammar(t, model.GenOpts{MaxRules: 12, Depth: 4, Shapes: true, Labels: true, MaxRange: 12, Callbacks: anyCallback})
	if pbt.Chance(t, "rich", 25) {
		g = model.GenRich(t, []int{model.CBNode, model.CBNone}, pbt.Bool(t, "labels"))
	}
	c := ListingCase{
		Name: pbt.Pick(t, "name", []string{"gm", "listed", "g", "a-longer.name"}),
		Tape: pbt.FullTape(t, "layout", 30),
		Loop: pbt.Bool(t, "loop"), Grammar: pbt.Bool(t, "grammar"), SkipSetup: pbt.Bool(t, "skipsetup"), Stack: pbt.Chance(t, "stack", 20),
		Compiler: pbt.Chance(t, "compiler", 8),
		Stop:     pbt.Uniform(t, "stop", 40),
	}
	r := &pbt.TapeReader{T: pbt.FullTape(t, "tree", 90)}
	ranks := []*[]*LineSpec{&c.Lines}
	fresh := 0
	// a line goes anywhere in the tree
	put := func(l *LineSpec) {
		to := ranks[r.Next(len(ranks))]
		at := r.Next(len(*to) + 1)
		*to = append(*to, nil)
		copy((*to)[at+1:], (*to)[at:])
		(*to)[at] = l
		if l.E == nil {
			ranks = append(ranks, &l.Rank)
		}
	}
	for i, rule := range g.Rules {
		l := &LineSpec{Name: rule.Name, E: rule.E, CB: rule.CB, In: i > 0 && r.Next(3) > 0, Wrap: r.Next(9) == 8, Compiled: r.Next(9) == 8}
		if rule.E.K == model.Alt && rule.E.L == "" && r.Next(3) == 2 {
			l.E = nil
			put(l)
			for _, k := range rule.E.E {
				l.Rank = append(l.Rank, &LineSpec{E: k})
			}
			continue
		}
		put(l)
	}
	for i := r.Next(5); i > 0; i-- {
		l := &LineSpec{In: r.Next(3) == 2, Wrap: r.Next(9) == 8, Compiled: r.Next(9) == 8}
		if r.Next(3) == 2 || l.In {
			fresh++
			l.Name = fmt.Sprintf("Fresh%d", fresh)
		}
		if r.Next(3) > 0 {
			l.E = g.Rules[r.Next(len(g.Rules))].E
		} else {
			l.Rank = []*LineSpec{{E: model.R(g.Rules[0].Name)}}
		}
		put(l)
	}
	return c
}

func (c ListingCase) lines(rec *Recorder) []j.Line {
	lay := model.FreeLayout(c.Tape)
	var lines func(a []*LineSpec) []j.Line
	lines = func(a []*LineSpec) []j.Line {
		var r []j.Line
		for _, l := range a {
			var content any
			if l.E == nil {
				content = lines(l.Rank)
				if l.Name == "" || l.Wrap {
					content = j.NewALine(lines(l.Rank))
				}
				if l.Wrap {
					content = j.O(content)
				}
			} else {
				content = model.Render(l.E, lay)
				if l.Compiled {
					quickly()
					content = sharedJoeson.Get().ParseString(content.(string)).(j.Parser)
				}
				if l.Wrap {
					content = j.O(content)
				}
			}
			if l.Name != "" {
				content = j.Named(l.Name, content)
			}
			args := []any{content}
			if cb := rec.Callback(l.Name, l.CB, 0); cb != nil {
				args = append(args, cb)
			}
			if l.In {
				r = append(r, j.I(args...))
			} else {
				r = append(r, j.O(args...))
			}
		}
		return r
	}
	return lines(c.Lines)
}

// texts tells whether some rule is declared as a text.
func (c ListingCase) texts() bool {
	var any func(a []*LineSpec) bool
	any = func(a []*LineSpec) bool {
		for _, l := range a {
			if l.E != nil && !l.Compiled || any(l.Rank) {
				return true
			}
		}
		return false
	}
	return any(c.Lines)
}

func (c ListingCase) String() string {
	var b strings.Builder
	var show func(a []*LineSpec, depth int)
	show = func(a []*LineSpec, depth int) {
		for _, l := range a {
			b.WriteString(strings.Repeat("  ", depth) + map[bool]string{true: "i ", false: "o "}[l.In] + l.Name + ": ")
			if l.E != nil {
				b.WriteString(model.Render(l.E, nil))
			}
			b.WriteString("\n")
			show(l.Rank, depth+1)
		}
	}
	show(c.Lines, 1)
	return b.String()
}

// listed is a rule as listings show it.
type listed struct{ Name, Parent, Content string }

// expected lists the rules of the tree; top is the notation of the toplevel rank.
func (c ListingCase) expected() (rules map[string]listed, top string) {
	rules = map[string]listed{}
	var visit func(a []*LineSpec, name, shown string) string
	visit = func(a []*LineSpec, name, shown string) string {
		var outs []string
		for _, l := range a {
			n := l.Name
			if n == "" {
				n = name + "[" + strconv.Itoa(len(outs)) + "]"
			}
			if !l.In {
				outs = append(outs, n)
			}
			x := listed{Name: n, Parent: shown}
			if l.E != nil {
				x.Content = Notation(l.E)
			} else {
				x.Content = visit(l.Rank, n, n)
			}
			rules[n] = x
		}
		return "Rank(" + strings.Join(outs, ",") + ")"
	}
	top = visit(c.Lines, c.Name, "__grammar__")
	return rules, top
}

var printedEscapes = strings.NewReplacer("\r", `\r`, "\n", `\n`, "\t", `\t`)

// Notation is how joeson shows an expression, its own label left out.
func Notation(e *model.Expr) string {
	switch e.K {
	case model.Str:
		return "'" + helpers.Escape(e.S) + "'"
	case model.Cls:
		return "/[" + printedEscapes.Replace(e.S) + "]/"
	case model.Re:
		return "/" + printedEscapes.Replace(e.S) + "/"
	case model.Ref:
		return e.S
	case model.Seq, model.Alt:
		var b strings.Builder
		for i, k := range e.E {
			if i > 0 && e.K == model.Alt {
				b.WriteString(" |")
			}
			if i > 0 {
				b.WriteString(" ")
			}
			b.WriteString(labelled(k))
		}
		return "(" + b.String() + ")"
	case model.Opt:
		return labelled(e.E[0]) + "?"
	case model.Not:
		return "!" + labelled(e.E[0])
	case model.Look:
		return "(?" + labelled(e.E[0]) + ")"
	case model.Rep:
		s := labelled(e.E[0]) + "*"
		if e.J != nil {
			s += labelled(e.J)
		}
		if e.Min >= 0 || e.Max >= 0 {
			s += "{"
			if e.Min >= 0 {
				s += strconv.Itoa(e.Min)
			}
			s += ","
			if e.Max >= 0 {
				s += strconv.Itoa(e.Max)
			}
			s += "}"
		}
		return s
	}
	return "?"
}

func labelled(e *model.Expr) string {
	if e.L != "" {
		return e.L + ":" + Notation(e)
	}
	return Notation(e)
}

var reAnsi = regexp.MustCompile("\x1b\\[[0-9;]*m")
var reRow = regexp.MustCompile(`^\|\s+(\S+)\s+(\d+)\s+\S*joeson\S*\s`)
var reLoop = regexp.MustCompile(`^Loop (\d+):\t(.*)$`)

// spellRegexps removes what joeson adds to the regular expressions of the rules,
// and the labels it gives by itself.
func (c ListingCase) spellRegexps(s string) string {
	var visit func(a []*LineSpec)
	done := map[string]bool{}
	visit = func(a []*LineSpec) {
		for _, l := range a {
			visit(l.Rank)
			if l.E == nil {
				continue
			}
			l.E.Walk(func(e *model.Expr) {
				if e.K != model.Cls && e.K != model.Re {
					return
				}
				src := Notation(e)
				if done[src] {
					return
				}
				done[src] = true
				in := src[1 : len(src)-1]
				for _, w := range []string{"(" + in + ")", "(?:" + in + ")", `\A(?:` + in + ")", in} {
					s = strings.ReplaceAll(s, "/"+w+"/g", src)
				}
			})
		}
	}
	visit(c.Lines)
	return strings.NewReplacer("@:", "", "&:", "").Replace(s)
}

// table reads a listing: its rows by name. What is expected is told, since
// columns are only separated by spaces.
func (c ListingCase) table(out string, rules map[string]listed, top string) error {
	var name, content, count string
	seen := map[string]bool{}
	ids := map[string]bool{}
	for _, row := range strings.Split(c.spellRegexps(reAnsi.ReplaceAllString(out, "")), "\n") {
		if v, ok := strings.CutPrefix(row, "| name         : "); ok {
			name += v
		} else if v, ok := strings.CutPrefix(row, "| contentString: "); ok {
			content += v
		} else if v, ok := strings.CutPrefix(row, "| rules        : "); ok {
			count += v
		} else if m := reRow.FindStringSubmatch(row); m != nil {
			x, ok := rules[m[1]]
			if !ok {
				return errf("a rule is listed which was not declared: %q", row)
			}
			if seen[x.Name] {
				return errf("%s is listed twice", x.Name)
			}
			seen[x.Name] = true
			if n, _ := strconv.Atoi(m[2]); n >= len(rules) || ids[m[2]] {
				return errf("the number of the rule is wrong or given twice: %q", row)
			}
			ids[m[2]] = true
			row := strings.TrimRight(row, " ")
			want := strings.TrimRight(c.spellRegexps(x.Content), " ")
			before, ok := strings.CutSuffix(row, " "+want)
			if !ok {
				return errf("the expression of %s should be shown as\n%s\nbut its row is\n%s", x.Name, want, row)
			}
			if !strings.HasSuffix(strings.TrimRight(before, " "), " "+x.Parent) {
				return errf("%s belongs to %s, but its row is\n%s", x.Name, x.Parent, row)
			}
		}
	}
	if len(seen) != len(rules) {
		for n := range rules {
			if !seen[n] {
				return errf("%s is not listed (%d rules are, instead of %d)", n, len(seen), len(rules))
			}
		}
	}
	if name != c.Name || content != "GRAMMAR{"+top+"}" || count != strconv.Itoa(len(rules)) {
		return errf("the listing is headed by %q, %q, %q rules instead of %q, %q, %d", name, content, count, c.Name, "GRAMMAR{"+top+"}", len(rules))
	}
	return nil
}

func (c ListingCase) build(rec *Recorder) (gm *j.Grammar, printed string) {
	o := quickly()
	o.TraceOptions = &j.TraceOptions{Stack: c.Stack, Loop: c.Loop, Grammar: c.Grammar, SkipSetup: c.SkipSetup, FilterLine: -1}
	if c.Compiler {
		o.LazyGrammar = nil
	}
	lines := c.lines(rec)
	printed = capture(func() { gm = j.GrammarWithOptionsFromLines(c.Name, o, lines) })
	return gm, printed
}

func checkListing(c ListingCase, r *pbt.R) error {
	gm, printed := c.build(&Recorder{})
	rules, top := c.expected()
	where := func(e error) error {
		return errf("%v\nsettings: stack %v loop %v grammar %v skipsetup %v, own compiler %v\nlines of %s:\n%s", e, c.Stack, c.Loop, c.Grammar, c.SkipSetup, !c.Compiler, c.Name, c)
	}
	r.Exec()
	if !gm.IsReady() {
		return where(errf("the grammar is not ready"))
	}
	if n := gm.CountRules(); n != len(rules) {
		return where(errf("%d rules instead of %d", n, len(rules)))
	}
	if e := c.table(capture(gm.PrintRules), rules, top); e != nil {
		return where(e)
	}
	if s := reAnsi.ReplaceAllString(gm.String(), ""); s != "GRAMMAR{"+top+"}" {
		return where(errf("the grammar is shown as %q instead of %q", s, "GRAMMAR{"+top+"}"))
	}
	// what was printed by the build
	plain := reAnsi.ReplaceAllString(printed, "")
	const head = "+--------------- Grammar.Debug()"
	parts := strings.Split(plain, head)
	want := 0
	if c.Grammar {
		want++
		if c.Compiler && !c.SkipSetup {
			want++ // the one of joeson itself, first
		}
		if len(parts) > 1 {
			if e := c.table(parts[len(parts)-1], rules, top); e != nil {
				return where(errf("as printed at the build: %v", e))
			}
		}
	}
	// joeson need not be built when there is nothing to compile
	if n := len(parts) - 1; n != want && !(n == want-1 && c.Grammar && want == 2 && !c.texts()) {
		return where(errf("the build listed %d grammars instead of %d", len(parts)-1, want))
	}
	if !c.Grammar && !c.Loop && !(c.Stack && !c.SkipSetup) && printed != "" {
		return where(errf("the build printed %q", clip(printed, 300)))
	}
	if !c.Stack {
		loops := map[string]int{}
		n := 0
		for _, row := range strings.Split(c.spellRegexps(plain), "\n") {
			if m := reLoop.FindStringSubmatch(row); m != nil {
				n++
				loops[strings.TrimRight(m[2], " ")]++
			}
		}
		if c.Loop {
			for _, x := range rules {
				s := strings.TrimRight(c.spellRegexps(x.Name+": "+x.Content), " ")
				if loops[s] != 1 {
					return where(errf("the Loop setting printed %d times %q", loops[s], s))
				}
			}
		}
		silent := !c.Loop || !c.Compiler || c.SkipSetup
		if max := len(rules); silent && (n > max || !c.Loop && n > 0) {
			return where(errf("the Loop setting printed %d rules", n))
		}
	}
	operators := 0
	for _, l := range rules {
		if strings.ContainsAny(l.Content, "*?!|") {
			operators++
		}
	}
	r.ClassIf(c.Compiler, "joeson built for it")
	r.ClassIf(c.Grammar, "listed at the build")
	r.ClassIf(c.Loop, "loop")
	r.ClassIf(strings.Count(fmt.Sprint(rules), "Rank(") > 1, "ranks in ranks")
	r.NonTrivialIf(len(rules) >= 6 && operators > 0)
	return nil
}

// parts lists the notations of an expression and of its parts, parents first.
func parts(e *model.Expr, out *[]string) {
	*out = append(*out, Notation(e))
	for _, k := range e.E {
		parts(k, out)
	}
	if e.J != nil {
		parts(e.J, out)
	}
}

func checkWalk(c ListingCase, r *pbt.R) error {
	c.Compiler, c.Stack, c.Loop, c.Grammar = false, false, false, false
	gm, _ := c.build(&Recorder{})
	rules, _ := c.expected()
	exprs := map[string]*model.Expr{}
	var visit func(a []*LineSpec, name string)
	visit = func(a []*LineSpec, name string) {
		outs := 0
		for _, l := range a {
			n := l.Name
			if n == "" {
				n = name + "[" + strconv.Itoa(outs) + "]"
			}
			if !l.In {
				outs++
			}
			if l.E != nil {
				exprs[n] = l.E
			} else {
				visit(l.Rank, n)
			}
		}
	}
	visit(c.Lines, c.Name)
	before := capture(gm.PrintRules)
	show := func(p j.Parser) string { return c.spellRegexps(reAnsi.ReplaceAllString(p.String(), "")) }
	full := func(p j.Parser) string { return c.spellRegexps(reAnsi.ReplaceAllString(j.String(p), "")) }
	type event struct {
		node, parent j.Parser
		depth        int
		s            string
	}
	walk := func(from, parent j.Parser, stop func(n int, p j.Parser) bool) (events []event, err error) {
		var open []j.Parser
		n := 0
		pruned := false
		ret := j.Walk(from, parent, j.WalkPrepost{
			Pre: func(node, par j.Parser) string {
				want := parent
				if len(open) > 0 {
					want = open[len(open)-1]
				}
				if err == nil && !same(par, want) {
					err = errf("the parent given with %s is not the node being visited", show(node))
				}
				if err == nil && pruned {
					pruned = false
				}
				events = append(events, event{node, par, len(open), show(node)})
				n++
				if stop != nil && stop(n-1, node) {
					return "__stop__"
				}
				open = append(open, node)
				return ""
			},
			Post: func(node, par j.Parser) string {
				if err != nil {
					return ""
				}
				if len(open) == 0 || !same(open[len(open)-1], node) {
					err = errf("%s is left, which is not the last node entered", show(node))
					return ""
				}
				open = open[:len(open)-1]
				want := parent
				if len(open) > 0 {
					want = open[len(open)-1]
				}
				if !same(par, want) {
					err = errf("the parent given when %s is left is not the one of when it was entered", show(node))
				}
				return ""
			},
		})
		if err == nil && len(open) > 0 {
			err = errf("%s was not left", show(open[len(open)-1]))
		}
		if err == nil && !same(ret, from) {
			err = errf("the walk returned %s", show(ret))
		}
		return events, err
	}
	where := func(e error) error { return errf("%v\nlines of %s:\n%s", e, c.Name, c) }
	r.Exec()
	events, e := walk(gm, nil, nil)
	if e != nil {
		return where(e)
	}
	if len(events) == 0 || !same(events[0].node, gm) {
		return where(errf("the walk does not start with the grammar"))
	}
	// below each rule made of an expression are the parts of that expression
	found := map[string]int{}
	for i, ev := range events {
		if !j.IsRule(ev.node) {
			continue
		}
		s := full(ev.node)
		name, _, _ := strings.Cut(s, ": ")
		x, ok := rules[name]
		if !ok || ev.s != c.spellRegexps(x.Content) {
			return where(errf("the walk visits the rule %q, which was not declared", s))
		}
		found[name]++
		var got []string
		for k := i; k < len(events) && (k == i || events[k].depth > ev.depth); k++ {
			if !j.IsUndefined(events[k].node) {
				got = append(got, events[k].s)
			}
		}
		if ex := exprs[name]; ex != nil {
			var want []string
			parts(ex, &want)
			for i := range want {
				want[i] = c.spellRegexps(want[i])
			}
			if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
				return where(errf("below %s the walk visits\n%q\ninstead of\n%q", name, got, want))
			}
		}
	}
	for n := range rules {
		if found[n] == 0 {
			return where(errf("the walk does not visit %s", n))
		}
	}
	// pruned: nothing below one node is visited, everything else is
	at := c.Stop % len(events)
	pruned, e := walk(gm, nil, func(n int, _ j.Parser) bool { return n == at })
	if e != nil {
		return where(errf("pruned at node %d: %v", at, e))
	}
	end := at + 1
	for end < len(events) && events[end].depth > events[at].depth {
		end++
	}
	rest := append(append([]event{}, events[:at+1]...), events[end:]...)
	if len(rest) != len(pruned) {
		return where(errf("a walk of %d nodes, pruned at node %d, visits %d nodes instead of %d", len(events), at, len(pruned), len(rest)))
	}
	for i := range rest {
		if !same(rest[i].node, pruned[i].node) {
			return where(errf("a walk pruned at node %d visits %s instead of %s", at, pruned[i].s, rest[i].s))
		}
	}
	// from a node, with a parent
	from := events[at]
	part, e := walk(from.node, from.parent, nil)
	if e != nil || len(part) != end-at {
		return where(errf("from %s: %d nodes instead of %d, %v", from.s, len(part), end-at, e))
	}
	if after := capture(gm.PrintRules); after != before {
		return where(errf("the walks changed the grammar: it was listed as\n%s\nbut then as\n%s", before, after))
	}
	r.ClassIf(end-at > 1, "pruned a subtree")
	r.ClassIf(len(events) > 60, "over 60 nodes")
	r.NonTrivialIf(len(rules) >= 6 && end-at > 1)
	return nil
}

func same(a, b j.Parser) (eq bool) {
	defer func() {
		if recover() != nil { // values which do not compare
			eq = a.String() == b.String()
		}
	}()
	return a == b
}

// genInspected: parses of a grammar which is inspected in between.
func genInspected(t *rapidT) GCase {
	var g *model.Grammar
	switch pbt.Uniform(t, "kind", 3) {
	case 0:
		g = model.GenLR(t, []int{model.CBNone, model.CBNode}, pbt.Bool(t, "labels"))
	case 1:
		g = model.GenRich(t, []int{model.CBNode, model.CBNone}, pbt.Bool(t, "labels"))
	default:
		g = model.GenGrammar(t, model.GenOpts{MaxRules: 8, Depth: 3, Shapes: true, Labels: true, Callbacks: anyCallback})
	}
	return GCase{G: g, Texts: shortened(model.GenTexts(t, g, 5), 300), Opt: pbt.Uniform(t, "opt", 64)}
}

func checkInspected(c GCase, r *pbt.R) error {
	rec := &Recorder{}
	var gm *j.Grammar
	if c.Opt&32 != 0 { // whatever the environment says, GrammarFromLines makes the same grammar
		out := capture(func() { gm = j.GrammarFromLines("gm", Lines(c.G, nil, rec, nil)) })
		if os.Getenv("TRACE") == "" && os.Getenv("trace") == "" {
			if n := strings.Count(out, "Grammar.Debug()"); n != 1 || reLoop.MatchString(out) {
				return errf("GrammarFromLines listed %d grammars instead of its own one only, when nothing is said about traces:\n%s", n, clip(out, 400))
			}
		}
		r.Class("GrammarFromLines")
	} else {
		gm = BuildWith(c.G, rec, quickly())
	}
	inspect := func() {
		switch c.Opt % 4 {
		case 0:
			capture(gm.PrintRules)
		case 1:
			j.Walk(gm, nil, j.WalkPrepost{})
		case 2:
			n := 0
			j.Walk(gm, nil, j.WalkPrepost{Pre: func(a, b j.Parser) string {
				n++
				if n%7 == 3 {
					return "__stop__"
				}
				return ""
			}})
		}
		_ = gm.String()
		gm.CountRules()
	}
	for _, text := range c.Texts {
		text := string(text)
		p, want, ok := interp(c.G, text)
		if !ok || p.Grown > 200 {
			r.Class("reference too slow")
			continue
		}
		inspect()
		r.Exec()
		got := ToOutcome(gm.ParseString(text))
		if e := compare(want, got, text, "short"); e != nil {
			return errf("%v\ninspected by %d, text: %q\ngrammar:\n%s", e, c.Opt%4, text, Describe(c.G))
		}
		r.ClassIf(want.OK, "accepted")
		r.NonTrivialIf(want.OK && text != "" && c.Opt%4 != 3)
	}
	return nil
}
