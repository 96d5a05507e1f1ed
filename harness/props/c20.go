package props

import (
	"fmt"

	"verif/model"
	"verif/pbt"

	j "github.com/grepsuzette/joeson"
)

var c20 = &pbt.Prop{
	ID: "C20",
	Rule: "A case is a list of texts in or close to the rule language (rules in free layout, edited rules, sequences of tokens), each placed somewhere in the lines of a grammar; an independent parser of the rule language tells whether building must fail. After each build, a known grammar is built and used. " +
		"Non-trivial: the case has a text which is a rule of more than one element and a text which is not a rule.",
	Assumptions: []string{
		"a rule text is valid UTF-8",
		"Go's regexp tells which regular expressions are valid",
		"(e) -> {code}, which the code declares obsolete, is refused",
		"rules with the special labels & and @ are only required to be refused or accepted by the compiler of rule texts; the grammar is not built",
	},
	Families: []pbt.Family{
		pbt.Fam("texts", 8000, 100000, func(t *rapidT) TextsCase {
			c := TextsCase{}
			for i := 0; i < 6; i++ {
				c.Texts = append(c.Texts, pbt.Text(genRuleText(t)))
				c.Where = append(c.Where, pbt.Uniform(t, "where", 5))
			}
			return c
		}, checkC20),
		pbt.Fam("near", 4500, 60000, genNear, checkC20),
	},
}

type TextsCase struct {
	Texts []pbt.Text `json:"texts"`
	Where []int      `json:"where,omitempty"`
}

// genNear makes all the texts that one deletion or truncation of a rule gives.
func genNear(t *rapidT) TextsCase {
	s := []rune(genExprText(t, model.FreeLayout(pbt.FullTape(t, "layout", 30))))
	if len(s) > 60 {
		s = s[:60]
	}
	c := TextsCase{}
	cut := pbt.Bool(t, "cut")
	step := 1 + len(s)/16
	for i := pbt.Uniform(t, "from", step); i < len(s); i += step {
		x := string(s[:i])
		if !cut {
			x += string(s[i+1:])
		}
		c.Texts = append(c.Texts, pbt.Text(x))
		c.Where = append(c.Where, i%5)
	}
	return c
}

// compile turns a rule text into a parser, with the compiler of rule texts.
func compile(gm *j.Grammar, text string) (s string, ok bool, why string) {
	p := pbt.Catch(func() {
		switch v := gm.ParseString(text).(type) {
		case nil:
			why = "nil"
		case j.ParseError:
			why = "parse error"
		case j.Parser:
			s, ok = j.String(v), true
		default:
			why = fmt.Sprintf("a %T", v)
			s = "?"
		}
	})
	if p != nil {
		return "", false, "panic: " + fmt.Sprint(p)
	}
	return
}

// place puts a rule somewhere in a grammar, with the definitions of what it
// refers to.
func place(text string, where int, names []string) []j.Line {
	var lines []j.Line
	switch where {
	default:
		lines = []j.Line{j.O(text)}
	case 1:
		lines = []j.Line{j.O(j.Named("Start", "'zz'")), j.I(j.Named("Rule", text))}
	case 2:
		lines = []j.Line{j.O(j.Named("Start", []j.Line{j.O("'zz'"), j.O(text), j.I(j.Named("Last", "'y'"))}))}
	case 3:
		lines = []j.Line{j.O("'zz'"), j.O(j.Named("Rule", text), func(it j.Ast) j.Ast { return it })}
	case 4:
		lines = []j.Line{j.I(j.Named("Rule", text)), j.O("'zz' | Rule")}
	}
	for _, n := range names {
		lines = append(lines, j.I(j.Named(n, "'q' b2:'r'?")))
	}
	return lines
}

func checkC20(c TextsCase, r *pbt.R) error {
	opts := quickly()
	good, bad := 0, 0
	for i, text := range c.Texts {
		text := string(text)
		e, ok := model.ParseRule(text)
		r.Exec()
		_, got, why := compile(sharedJoeson.Get(), text)
		if got != ok {
			return errf("the rule language says rule: %v; compiled: %v (%s)\ntext: %q", ok, got, why, text)
		}
		special := false
		var names []string
		if ok {
			e.Walk(func(k *model.Expr) { special = special || k.L == "&" || k.L == "@" })
			if c.Where[i] < 3 {
				names = refs(e) // otherwise they are not defined, which is not an error of the text
			}
		}
		r.ClassIf(special, "special label")
		if !special {
			var gm *j.Grammar
			p := pbt.Catch(func() {
				gm = j.GrammarWithOptionsFromLines("gm", opts, place(text, c.Where[i], names))
			})
			if ok && p != nil {
				return errf("building failed: %v\ntext: %q\nplace %d", p, text, c.Where[i])
			}
			if !ok && p == nil {
				return errf("a grammar was built from a text which is not a rule\ntext: %q\nplace %d", text, c.Where[i])
			}
			if ok && !gm.IsReady() {
				return errf("the grammar is not ready\ntext: %q\nplace %d", text, c.Where[i])
			}
		}
		if ok {
			r.ClassIf(e.K != model.Str, "accepted: "+e.K)
			r.ClassIf(e.L != "", "accepted: label")
			if e.Size() > 1 {
				good++
			}
		} else {
			bad++
		}
		if e := canary(opts); e != nil {
			return errf("after %q: %v", text, e)
		}
	}
	r.ClassIf(good > 0, "some rules")
	r.ClassIf(bad > 0, "some refused")
	r.NonTrivialIf(good > 0 && bad > 0)
	return nil
}

func canary(opts j.GrammarOptions) error {
	gm := j.GrammarWithOptionsFromLines("canary", opts, []j.Line{
		j.O(j.Named("S", "a:A+',' b:(B | !'z' [x-z])?")),
		j.I(j.Named("A", "'é' [0-9]{1,2}")),
		j.I(j.Named("B", "'(' S ')'")),
	})
	for text, want := range map[string]string{
		"é1,é23(é4x)": `{a:[["1"],["2","3"]],b:{a:[["4"]],b:"x"}}`,
		"é1z":         "",
	} {
		got := ToOutcome(gm.ParseString(text))
		if got.OK != (want != "") {
			return errf("the known grammar on %q: %s", text, got)
		}
		if got.OK && got.Short != want {
			return errf("the known grammar on %q: %s instead of %s", text, got.Short, want)
		}
	}
	return nil
}
