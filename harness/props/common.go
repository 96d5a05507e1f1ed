package props

import (
	"unicode/utf8"

	"verif/model"
	"verif/pbt"

	"pgregory.net/rapid"
)

// GCase is a generated grammar and texts for it.
type GCase struct {
	G     *model.Grammar `json:"g"`
	Texts []pbt.Text     `json:"texts"`
	Sigs  []int          `json:"sigs,omitempty"`
	Opt   int            `json:"opt,omitempty"`
}

const evalLimit = 60000

// interp runs the reference on a text; ok is false when it takes too long.
func interp(g *model.Grammar, text string) (*model.Interp, model.Result, bool) {
	p := model.NewInterp(g, text)
	p.Limit = max(evalLimit, 200*len(text))
	r := p.Parse()
	return p, r, !p.Exceeded
}

// expect compares an outcome with the reference. what: accept, short, spans
func compare(r model.Result, o Outcome, text string, what string) error {
	if o.OK != r.OK {
		return errf("the reference says %s, the code: %s", acc(r), o)
	}
	if !r.OK {
		if text == "" {
			if !o.Nil {
				return errf("no match on the empty text, but the code returned %s", o)
			}
		} else if o.Nil {
			return errf("not accepted, but nil was returned instead of an error")
		}
		return nil
	}
	switch what {
	case "short":
		if s := r.V.Canon(false); s != o.Short {
			return errf("production %s instead of %s", o.Short, s)
		}
	case "spans":
		if s := r.V.Canon(true); s != o.Canon {
			return errf("production %s instead of %s", o.Canon, s)
		}
	}
	return nil
}

func acc(r model.Result) string {
	if r.OK {
		return "accepted " + r.V.Canon(true)
	}
	return "rejected"
}

func features(g *model.Grammar, r *pbt.R) {
	seen := map[string]bool{}
	for _, rule := range g.Rules {
		rule.E.Walk(func(e *model.Expr) {
			k := e.K
			if e.K == model.Rep {
				if e.J != nil {
					seen["uses join"] = true
				}
				if e.Min >= 0 || e.Max >= 0 {
					seen["uses bounds"] = true
				}
			}
			if e.L != "" {
				seen["uses label"] = true
			}
			seen["uses "+k] = true
		})
	}
	for k := range seen {
		r.Class(k)
	}
}

type rapidT = rapid.T

// genRich makes cases over grammars in the style of real ones.
func genRich(cbs []int, n int) func(*rapidT) GCase {
	return func(t *rapidT) GCase {
		g := model.Declared(t, model.GenRich(t, cbs, pbt.Chance(t, "labels", 50)))
		return GCase{G: g, Texts: model.GenTexts(t, g, n), Opt: pbt.Uniform(t, "opt", 16)}
	}
}

// shortened cuts texts which are too long to be traced.
func shortened(texts []pbt.Text, n int) []pbt.Text {
	for i, t := range texts {
		if len(t) > n {
			k := n
			for k > 0 && !utf8.RuneStart(t[k]) {
				k--
			}
			texts[i] = t[:k]
		}
	}
	return texts
}
