package props

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"verif/model"
	"verif/pbt"

	j "github.com/grepsuzette/joeson"
)

var c06 = &pbt.Prop{
	ID: "C06",
	Rule: "A case is a generated grammar (left-recursive ones included), trace settings, options on its rules, and texts each parsed with options: outcome, position of error and invocations must be the ones of the same grammar with all traces muted; the settings of the grammar must be the same after each parse, be it failed or interrupted by a callback, and with muted settings nothing may be printed afterwards. " +
		"Non-trivial: traces are enabled by settings or by an option during a parse which goes beyond the first character.",
	Assumptions: []string{
		"texts are valid UTF-8 (printing the context of an invalid text is documented to panic)",
	},
	Families: []pbt.Family{
		pbt.Fam("plain", 4500, 60000, genTrace(func(t *rapidT) *model.Grammar {
			return model.GenGrammar(t, model.GenOpts{MaxRules: 6, Depth: 3, Shapes: true, Labels: true, Skip: true, Callbacks: anyCallback})
		}), checkTrace),
		pbt.Fam("rich", 3500, 45000, genTrace(func(t *rapidT) *model.Grammar {
			return model.GenRich(t, []int{model.CBNode, model.CBNone, model.CBPicky, model.CBConcat}, pbt.Chance(t, "labels", 50))
		}), checkTrace),
		pbt.Fam("left-recursive", 3000, 40000, genTrace(func(t *rapidT) *model.Grammar {
			return model.GenLR(t, []int{model.CBNone, model.CBNode}, pbt.Chance(t, "labels", 30))
		}), checkTrace),
	},
}

// TraceCase: Debug and SkipLog hold indexes of rules.
type TraceCase struct {
	GCase
	Stack, Loop, Grammar, SkipSetup bool
	FilterLine                      int
	Debug                           []int   `json:"debug,omitempty"`
	SkipLog                         []int   `json:"skiplog,omitempty"`
	Parse                           []int   `json:"parse"` // options of each parse
	Compiler                        bool    // trace the compilation of rule texts as well
	Env                             *string `json:"env,omitempty"`        // GrammarFromLines with this value of TRACE
	NoSettings                      bool    `json:"nosettings,omitempty"` // no trace settings at all
}

func genTrace(gen func(*rapidT) *model.Grammar) func(*rapidT) TraceCase {
	return func(t *rapidT) TraceCase {
		g := gen(t)
		c := TraceCase{
			GCase: GCase{G: g, Opt: pbt.Uniform(t, "opt", 15)},
			Stack: pbt.Bool(t, "stack"), Loop: pbt.Bool(t, "loop"), Grammar: pbt.Bool(t, "grammar"), SkipSetup: pbt.Bool(t, "skipsetup"),
			FilterLine: pbt.Pick(t, "line", []int{-1, -1, -1, 0, 0, 1, 2, 3, -2}),
			Compiler:   pbt.Chance(t, "compiler", 6),
		}
		if pbt.Chance(t, "muted", 30) {
			c.Stack, c.Loop, c.Grammar, c.SkipSetup, c.FilterLine = false, false, false, false, -1
		}
		switch pbt.Uniform(t, "build", 25) {
		case 0:
			var opts []string
			for k := pbt.Uniform(t, "env.n", 4); k > 0; k-- {
				opts = append(opts, pbt.Pick(t, "env", []string{"none", "stack", "loop", "grammar", "skipsetup", "all", "line=1", "filterline=0"}))
			}
			s := strings.Join(opts, ",")
			c.Env = &s
		case 1:
			c.NoSettings = true
		}
		for i, text := range shortened(model.GenTexts(t, g, 4), 250) {
			s := string(text)
			if !utf8.ValidString(s) {
				continue
			}
			if i%2 == 1 { // several lines
				s += pbt.Pick(t, "tail", []string{"", "\n", "\na", "é\n"})
			}
			c.Texts = append(c.Texts, pbt.Text(s))
			c.Parse = append(c.Parse, pbt.Uniform(t, "parse", 256))
		}
		for i := range g.Rules {
			if pbt.Chance(t, "debug", 15) {
				c.Debug = append(c.Debug, i)
			}
			if pbt.Chance(t, "skiplog", 10) {
				c.SkipLog = append(c.SkipLog, i)
			}
		}
		return c
	}
}

func has(a []int, x int) bool {
	for _, y := range a {
		if x == y {
			return true
		}
	}
	return false
}

func checkTrace(c TraceCase, r *pbt.R) error {
	plainRec, rec := &Recorder{}, &Recorder{}
	plain := BuildWith(c.G, plainRec, quickly())
	to := &j.TraceOptions{Stack: c.Stack, Loop: c.Loop, Grammar: c.Grammar, SkipSetup: c.SkipSetup, FilterLine: c.FilterLine}
	settings := *to
	o := quickly()
	o.TraceOptions = to
	if c.Compiler {
		o.LazyGrammar = nil
	}
	var lines []j.Line
	for i, rule := range c.G.Rules {
		args := []any{j.Named(rule.Name, model.Render(rule.E, nil))}
		if cb := rec.Callback(rule.Name, rule.CB, i); cb != nil {
			args = append(args, cb)
		}
		if rule.Skip {
			args = append(args, j.SkipCache{Bool: true})
		}
		if has(c.Debug, i) {
			args = append(args, j.Debug{Bool: true})
		}
		if has(c.SkipLog, i) {
			args = append(args, j.SkipLog{Bool: true})
		}
		if i == 0 {
			lines = append(lines, j.O(args...))
		} else {
			lines = append(lines, j.I(args...))
		}
	}
	var gm *j.Grammar
	traced := c.Stack || c.Loop
	switch {
	case c.Env != nil:
		none := ""
		restore := setEnv(c.Env, &none)
		gm = j.GrammarFromLines("gm", padded(lines, c.G.Pad))
		restore()
		if *c.Env == "" {
			settings = j.TraceOptions{Grammar: true, SkipSetup: true, FilterLine: -1}
		} else {
			settings, _ = traceModel(*c.Env)
		}
		traced = settings.Stack || settings.Loop
		r.Class("settings of the environment")
	case c.NoSettings:
		o.TraceOptions = nil
		gm = j.GrammarWithOptionsFromLines("gm", o, padded(lines, c.G.Pad))
		settings = j.TraceOptions{FilterLine: -1}
		traced = false
		r.Class("no settings")
	default:
		gm = j.GrammarWithOptionsFromLines("gm", o, padded(lines, c.G.Pad))
	}
	where := func(i int) string {
		return fmt.Sprintf("\ntext: %q\nsettings: %+v, debug rules %v, skiplog rules %v, parse options %b\ngrammar:\n%s", string(c.Texts[i]), settings, c.Debug, c.SkipLog, c.Parse[i], Describe(c.G))
	}
	if *gm.TraceOptions != settings {
		return errf("the settings are %+v instead of %+v once the grammar is built", *gm.TraceOptions, settings)
	}
	for i, text := range c.Texts {
		text := string(text)
		p, ref, ok := interp(c.G, text)
		if !ok || p.Grown > 200 {
			r.Class("reference too slow")
			continue
		}
		plainRec.Log, rec.Log, rec.Extra = nil, nil, nil
		want := ToOutcome(plain.ParseString(text))
		if e := compare(ref, want, text, "short"); e != nil {
			return errf("with muted traces: %v%s", e, where(i))
		}
		bits := c.Parse[i]
		var opts []j.ParseOption
		if bits&1 != 0 {
			opts = append(opts, j.Debug{Bool: true})
		}
		if bits&2 != 0 {
			opts = append(opts, j.SkipLog{Bool: bits&4 != 0})
		}
		if bits&24 == 24 {
			opts = append(opts, j.Debug{Bool: false})
		}
		if bits&32 != 0 {
			opts = append(opts, j.SkipCache{Bool: bits&64 != 0})
		}
		if bits&12 == 8 {
			// interrupted by a callback
			left := 1 + i
			rec.Extra = func(string, j.Ast, *j.ParseContext) {
				left--
				if left == 0 {
					panic("interrupted")
				}
			}
			if pbt.Catch(func() { gm.ParseString(text, opts...) }) != nil {
				r.Class("interrupted")
			}
			rec.Extra, rec.Log = nil, nil
			if *gm.TraceOptions != settings {
				return errf("the settings are %+v after a parse interrupted by a callback%s", *gm.TraceOptions, where(i))
			}
		}
		r.Exec()
		var got Outcome
		if pan := pbt.Catch(func() { got = ToOutcome(gm.ParseString(text, opts...)) }); pan != nil {
			return errf("panic: %v%s", pan, where(i))
		}
		if !got.Same(want) {
			return errf("%s; with muted traces: %s%s", got, want, where(i))
		}
		if e := sameLog(plainRec.Log, rec.Log); e != nil {
			return errf("%v (the reference being muted traces)%s", e, where(i))
		}
		if *gm.TraceOptions != settings {
			return errf("the settings are %+v after a parse%s", *gm.TraceOptions, where(i))
		}
		if bits>>6 == 3 {
			// the same from tokens
			var spans [][2]int
			for at := range text {
				if n := len(spans); n == 0 || (at-spans[n-1][0])%(1+i) == 0 {
					if n > 0 {
						spans[n-1][1] = at
					}
					spans = append(spans, [2]int{at, len(text)})
				}
			}
			plainRec.Log, rec.Log = nil, nil
			a, _ := tokensOf(text, spans)
			b, _ := tokensOf(text, spans)
			var want, got Outcome
			if pan := pbt.Catch(func() { want = ToOutcome(plain.ParseTokens(a)) }); pan != nil {
				return errf("panic while parsing tokens with muted traces: %v%s", pan, where(i))
			}
			if pan := pbt.Catch(func() { got = ToOutcome(gm.ParseTokens(b, opts...)) }); pan != nil {
				return errf("panic while parsing tokens: %v%s", pan, where(i))
			}
			if !got.Same(want) {
				return errf("from tokens: %s; with muted traces: %s%s", got, want, where(i))
			}
			if e := sameLog(plainRec.Log, rec.Log); e != nil {
				return errf("from tokens: %v (the reference being muted traces)%s", e, where(i))
			}
			if *gm.TraceOptions != settings {
				return errf("the settings are %+v after a parse of tokens%s", *gm.TraceOptions, where(i))
			}
			r.Class("from tokens")
		}
		traced := traced || bits&1 != 0 || len(c.Debug) > 0
		r.ClassIf(settings.Stack && settings.Loop, "stack and loop")
		r.ClassIf(settings.FilterLine >= 0 && traced, "a line only")
		r.ClassIf(!settings.Stack && bits&1 != 0, "one parse")
		r.ClassIf(len(c.Debug) > 0, "some rules")
		r.NonTrivialIf(traced && (want.OK && text != "" || want.N > 0))
	}
	if !traced && len(c.Debug) == 0 && len(c.Texts) > 0 {
		// nothing is printed by later parses
		text := string(c.Texts[0])
		if p, _, ok := interp(c.G, text); ok && p.Grown <= 200 {
			if out := capture(func() { gm.ParseString(text) }); out != "" {
				return errf("a parse without any trace printed %q%s", clip(out, 200), where(0))
			}
			r.Class("silence checked")
		}
	}
	return nil
}
