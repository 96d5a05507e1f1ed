package props

import (
	"strings"

	"verif/model"
	"verif/pbt"

	j "github.com/grepsuzette/joeson"
)

var c21 = &pbt.Prop{
	ID: "C21",
	Rule: "A case is one of 8 languages (arithmetic, JSON, S-expressions, key-value files, colours, boolean expressions with keywords, CSV, member chains), one of the ways its grammar is written (left-recursive or iterative, ranks or choices, labels or arrays, random layout of the rules), and texts: generated programs in random layout, and edited ones. The value computed by the callbacks must be the one an evaluator written by hand gives, and texts it refuses must be refused. " +
		"Non-trivial: a well-formed text of more than 5 characters was evaluated.",
	Assumptions: []string{
		"the evaluators written by hand are right (encoding/json for JSON, encoding/csv is not used)",
		"texts are valid UTF-8",
	},
	Families: func() []pbt.Family {
		var fams []pbt.Family
		for _, l := range languages {
			fams = append(fams, pbt.Fam(l.name, 3000, 24000, genProgram(l), checkProgram(l)))
		}
		return fams
	}(),
}

// language: variants are grammars written differently; gen writes a program;
// eval is the reference, ok is false when the text is ill-formed.
type language struct {
	name     string
	variants []func(x *spell) []j.Line
	gen      func(r *pbt.TapeReader, depth int) string
	eval     func(text string) (value string, ok bool)
	alphabet []string
}

// spell writes the rules of a grammar, in a layout.
type spell struct{ lay []int }

func (x *spell) rule(s string) string {
	if len(x.lay) == 0 {
		return s
	}
	e, ok := model.ParseRule(s)
	if !ok {
		panic("BUG in harness: not a rule: " + s)
	}
	return model.Render(e, model.FreeLayout(x.lay))
}

func (x *spell) o(name, rule string, cb ...any) j.Line {
	if name == "" {
		return j.O(append([]any{x.rule(rule)}, cb...)...)
	}
	return j.O(append([]any{j.Named(name, x.rule(rule))}, cb...)...)
}

func (x *spell) i(name, rule string, cb ...any) j.Line {
	return j.I(append([]any{j.Named(name, x.rule(rule))}, cb...)...)
}

func rank(name string, lines ...j.Line) j.Line  { return j.I(j.Named(name, lines)) }
func rankO(name string, lines ...j.Line) j.Line { return j.O(j.Named(name, lines)) }

type ProgramCase struct {
	Variant int        `json:"variant"`
	Lay     []int      `json:"lay,omitempty"`
	Texts   []pbt.Text `json:"texts"`
	Opt     int        `json:"opt,omitempty"`
}

func genProgram(l *language) func(*rapidT) ProgramCase {
	return func(t *rapidT) ProgramCase {
		c := ProgramCase{Variant: pbt.Uniform(t, "variant", len(l.variants)), Opt: pbt.Uniform(t, "opt", 16)}
		if pbt.Chance(t, "layout?", 60) {
			c.Lay = pbt.FullTape(t, "layout", 20)
		}
		for i := 0; i < 5; i++ {
			r := &pbt.TapeReader{T: pbt.FullTape(t, "program", 70)}
			s := l.gen(r, 1+pbt.Uniform(t, "depth", 5))
			if len(s) > 600 {
				s = s[:600]
				s = strings.ToValidUTF8(s, "")
			}
			if pbt.Chance(t, "edited", 40) {
				m := &pbt.TapeReader{T: pbt.FullTape(t, "edits", 9)}
				for n := 1 + m.Next(3)*m.Next(2); n > 0; n-- {
					rs := []rune(s)
					at := m.Next(len(rs) + 1)
					end := min(at+m.Next(3), len(rs))
					tok := ""
					if m.Next(3) > 0 {
						tok = l.alphabet[m.Next(len(l.alphabet))]
					}
					s = string(rs[:at]) + tok + string(rs[end:])
				}
			}
			c.Texts = append(c.Texts, pbt.Text(s))
		}
		return c
	}
}

// valueNode is what the callbacks of these grammars return.
type valueNode struct {
	*j.Attr
	n int
	s string
	m map[string]string
}

func (v *valueNode) String() string { return v.s }

func num(n int) *valueNode    { return &valueNode{Attr: j.NewAttr(), n: n} }
func str(s string) *valueNode { return &valueNode{Attr: j.NewAttr(), s: s} }

func checkProgram(l *language) func(ProgramCase, *pbt.R) error {
	return func(c ProgramCase, r *pbt.R) error { return runProgram(l, c, options(c.Opt), r) }
}

func runProgram(l *language, c ProgramCase, opts j.GrammarOptions, r *pbt.R) error {
	gm := j.GrammarWithOptionsFromLines(l.name, opts, l.variants[c.Variant](&spell{c.Lay}))
	for _, text := range c.Texts {
		text := string(text)
		want, ok := l.eval(text)
		r.Exec()
		result := gm.ParseString(text)
		v, isValue := result.(*valueNode)
		where := errf("language %s, variant %d\ntext: %q", l.name, c.Variant, text)
		switch {
		case isValue && !ok:
			return errf("an ill-formed text was evaluated to %q\n%v", v.s, where)
		case isValue && v.s != want:
			return errf("evaluated to %q instead of %q\n%v", v.s, want, where)
		case !isValue && ok:
			return errf("not evaluated: %s\n%v", ToOutcome(result), where)
		case !isValue:
			o := ToOutcome(result)
			if o.OK || o.Nil && text != "" {
				return errf("an ill-formed text gave %s\n%v", o, where)
			}
			r.Class("refused")
		default:
			r.Class("evaluated")
			r.NonTrivialIf(len(text) > 5)
		}
	}
	return nil
}

// flat concatenates the strings of a production, in order.
func flat(a j.Ast) string {
	switch v := a.(type) {
	case j.NativeString:
		return string(v)
	case *valueNode:
		return v.s
	case *j.NativeArray:
		var b strings.Builder
		for _, x := range v.Array() {
			b.WriteString(flat(x))
		}
		return b.String()
	case *j.NativeMap:
		var b strings.Builder
		for _, k := range v.Keys() {
			b.WriteString(flat(v.GetOrPanic(k)))
		}
		return b.String()
	}
	return ""
}

// values lists the value nodes of a production, in order.
func values(a j.Ast) []*valueNode {
	switch v := a.(type) {
	case *valueNode:
		return []*valueNode{v}
	case *j.NativeArray:
		var out []*valueNode
		for _, x := range v.Array() {
			out = append(out, values(x)...)
		}
		return out
	case *j.NativeMap:
		var out []*valueNode
		for _, k := range v.Keys() {
			out = append(out, values(v.GetOrPanic(k))...)
		}
		return out
	}
	return nil
}
