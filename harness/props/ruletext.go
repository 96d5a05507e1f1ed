package props

import (
	"strings"

	"verif/model"
	"verif/pbt"
)

// Generators of texts in, or close to, the rule language.

var ruleTokens = []string{
	"'a'", "b", "_", "x.y", "[a-c]", "/d+/", "(", ")", "(", ")", "?", "*", "+", "!", "|", "|", "{1,2}", "{,}", " ", " ", "\n",
	"x:", "&:", "@:", ":", "{", "}", ",", "(?", "(? ", "w: ", "(w: ", "->", "-> {}", "{code}", "'", "\\'", "/", "[", "]", "\\", "0", "12", "\t", "é", "'é'",
	"''", "//", "[]", "[^a]", "{ 3 ,4 }", "{2}", "a(", "&", "@", "a:b", "\r", "#", "99999999999999999999", "[b-a]", "/(/", "'\\''", "'\\\\'", "[\\]]", "/\\//", "/*/", "{1,99999999999999999999}", ".", "a.", "-", "A1_", "1a", ";", "\"a\"", "\x00", "~", "=",
}

var goodTokens = []string{"'a'", "b", "_", "[a-c]", "/d+/", "('c')", "(b | _)", "a(b)", "(w: b)", "''", "'\\''", "x.y", "[^\\]]", "/\\//", "(?b)", "('q'?)", "(x:b y:'a')"}
var goodOps = []string{" ", " ", " ", "\n", "", "|", " | ", "* ", "+ ", "?", "*", "+", "{1,2}", "{ , 3}", "*'j'{2,}", "? ", " !", " x:", " @:", " &:", " ?", "|!", " (", " (", ")", ") ", "  ", " |\n", "||"}

func genExprText(t *rapidT, lay *model.Layout) string {
	var g *model.Grammar
	if pbt.Chance(t, "rich", 35) {
		g = model.GenRich(t, nil, pbt.Chance(t, "labels", 60))
	} else {
		g = model.GenGrammar(t, model.GenOpts{MaxRules: 4, Depth: 4, Labels: pbt.Chance(t, "labels", 50), Shapes: false, MaxRange: 12})
	}
	r := g.Rules[pbt.Uniform(t, "rule", len(g.Rules))]
	return model.Render(r.E, lay)
}

// repeated writes, seldom, an operator several times in a row.
func repeated(r *pbt.TapeReader, s string) string {
	if r.Next(12) != 11 {
		return s
	}
	return strings.Repeat(s, 2+r.Next(9))
}

// genRuleText draws a text which may be a rule or not.
func genRuleText(t *rapidT) string {
	switch k := pbt.Uniform(t, "kind", 10); k {
	case 0, 1:
		return genExprText(t, model.FreeLayout(pbt.FullTape(t, "layout", 40)))
	case 2, 3:
		// mostly elements and operators in turn
		r := &pbt.TapeReader{T: pbt.FullTape(t, "soup", 40)}
		var b strings.Builder
		for n := 1 + pbt.Uniform(t, "n", 8); n > 0; n-- {
			switch r.Next(12) {
			case 0:
				b.WriteString(ruleTokens[r.Next(len(ruleTokens))])
			case 1:
				b.WriteString(goodOps[r.Next(len(goodOps))])
			}
			b.WriteString(goodTokens[r.Next(len(goodTokens))])
			if n > 1 || r.Next(3) == 2 {
				b.WriteString(repeated(r, goodOps[r.Next(len(goodOps))]))
			}
		}
		s := b.String()
		if d := strings.Count(s, "(") - strings.Count(s, ")"); d > 0 && r.Next(4) > 0 {
			s += strings.Repeat(")", d)
		}
		return s
	case 4:
		r := &pbt.TapeReader{T: pbt.FullTape(t, "soup", 12)}
		var b strings.Builder
		for n := 1 + pbt.Uniform(t, "n", 9); n > 0; n-- {
			b.WriteString(ruleTokens[r.Next(len(ruleTokens))])
		}
		return b.String()
	case 5:
		r := &pbt.TapeReader{T: pbt.FullTape(t, "edits", 12)}
		return model.Mutate(genExprText(t, model.FreeLayout(pbt.FullTape(t, "layout", 30))), r, 1+pbt.Uniform(t, "nedits", 3))
	default:
		// a token inserted, removed or replaced
		r := &pbt.TapeReader{T: pbt.FullTape(t, "edits", 12)}
		s := genExprText(t, model.FreeLayout(pbt.FullTape(t, "layout", 30)))
		for n := 1 + pbt.Uniform(t, "nedits", 2); n > 0; n-- {
			rs := []rune(s)
			at := r.Next(len(rs) + 1)
			end := at + r.Next(3)*r.Next(2)
			if end > len(rs) {
				end = len(rs)
			}
			tok := ruleTokens[r.Next(len(ruleTokens))]
			if r.Next(4) == 0 {
				tok = ""
			}
			s = string(rs[:at]) + tok + string(rs[end:])
		}
		return s
	}
}

// refs lists the names a rule refers to.
func refs(e *model.Expr) []string {
	seen := map[string]bool{}
	var out []string
	e.Walk(func(k *model.Expr) {
		if k.K == model.Ref && !seen[k.S] {
			seen[k.S] = true
			out = append(out, k.S)
		}
	})
	return out
}
