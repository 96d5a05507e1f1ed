package model

import (
	"fmt"

	"pgregory.net/rapid"
	"verif/pbt"
)

// GenRich draws a grammar in the style of real ones: layers of rules with common
// prefixes, lists, optional parts, lookaheads and nesting, most of whose derived
// texts are accepted. No left recursion.
func GenRich(t *rapid.T, callbacks []int, labels bool) *Grammar {
	if labels && pbt.Chance(t, "merged", 12) {
		return GenMerged(t, callbacks)
	}
	return GenRichWith(t, callbacks, labels, 3+pbt.Uniform(t, "layers", 6))
}

func GenRichWith(t *rapid.T, callbacks []int, labels bool, n int) *Grammar {
	g := &Grammar{}
	name := func(i int) string { return fmt.Sprintf("R%d", i) }
	leaf := func() *Expr {
		switch pbt.Uniform(t, "leaf", 9) {
		case 0:
			return C("a-c")
		case 1:
			return Pl(C("a-z"), nil)
		case 2:
			return Pl(C("0-9"), nil)
		case 3:
			return Al(S("ab"), S("a"), S("é"))
		case 4:
			return Sq(S("'"), St(C("^'\\n"), nil), S("'"))
		case 5:
			return X("[a-c]x?")
		case 6:
			return Al(S("\n"), S("世"), C("d-f"))
		case 7:
			return Sq(No(S("aa")), C("a-c"), C("a-c"))
		}
		return S(pbt.Pick(t, "str", []string{"a", "b", "c", "ab", "é"}))
	}
	for i := 0; i < n; i++ {
		later := func() *Expr {
			k := i + 1 + pbt.Uniform(t, "later", min(3, n-i))
			if k >= n {
				k = n - 1
			}
			if i == n-1 {
				return S("a")
			}
			return R(name(k))
		}
		anyRule := func() *Expr {
			if pbt.Chance(t, "rec", 25) {
				return R(name(pbt.Uniform(t, "any", n)))
			}
			return later()
		}
		lab := func(l string, e *Expr) *Expr {
			if labels && pbt.Chance(t, "lab", 50) {
				return Lb(l, e)
			}
			return e
		}
		sep := func() *Expr { return S(pbt.Pick(t, "sep", []string{",", ";", " ", "\n", "::", "é"})) }
		var e *Expr
		if i == n-1 || pbt.Chance(t, "leafrule", 15) && i > 0 {
			e = leaf()
		} else {
			switch pbt.Uniform(t, "template", 16) {
			case 0:
				x, y := later(), anyRule()
				e = Al(Sq(x, sep(), y, S("!")), Sq(x, sep(), y, S("?")), Sq(x, sep(), y), x)
			case 1:
				x := later()
				e = Al(Sq(x, S("p")), Sq(x, S("q")), x)
			case 2:
				e = St(later(), sep())
			case 3:
				e = Sq(S("["), St(anyRule(), sep()), S("]"))
			case 4:
				e = Pl(later(), sep())
			case 5:
				lo := pbt.Uniform(t, "lo", 3)
				e = Rp(later(), sep(), lo, lo+pbt.Uniform(t, "hi", 3))
			case 6:
				e = Sq(lab("x", later()), Op(Sq(S(":"), anyRule())))
			case 7:
				e = Sq(lab("k", later()), S("="), lab("v", anyRule()))
			case 8:
				x := later()
				e = Sq(Lo(x), x, Op(S("k")))
			case 9:
				x := later()
				e = Al(Sq(No(Sq(x, S("~"))), x), Sq(x, S("~")))
			case 10:
				e = Al(Sq(S("("), R(name(0)), S(")")), later())
			case 11:
				e = Al(later(), later(), Sq(S("-"), anyRule()))
			case 12:
				e = later()
			case 13:
				e = Sq(lab("a", later()), sep(), lab("b", anyRule()), Op(lab("c", R("_"))))
			case 14:
				e = Sq(St(Sq(later(), S(";")), nil), S("end"))
			case 15:
				x := later()
				e = Al(Sq(S("<"), x, S(">"), anyRule()), Sq(S("<"), x, S("/>")), x)
			}
		}
		// groups with labels or nothing captured keep the documented shapes
		cb := CBNone
		if len(callbacks) > 0 {
			cb = pbt.Pick(t, "cb", callbacks)
		}
		fixRich(e)
		g.Rules = append(g.Rules, Rule{Name: name(i), E: e, CB: cb})
	}
	g.Rules = append(g.Rules, Rule{Name: "_", E: St(C(" \\n"), nil)})
	// a rule which may match nothing, referenced from the left, is not a risk:
	// references from the left only go to later rules, except after a nullable one
	_, lr := LeftGraph(g)
	for i, b := range lr {
		if b {
			// rewrite the rule without recursion
			g.Rules[i].E = Al(S("a"), S("b"))
			_, lr = LeftGraph(g)
		}
	}
	for i, b := range lr {
		if b {
			g.Rules[i].E = S("a")
		}
	}
	g.Pad = GenPad(t)
	return g
}

// fixRich drops labels where a sequence would mix them with captures which are
// not documented: an optional group next to labels stays, being ignored.
func fixRich(e *Expr) {
	for i, k := range e.E {
		if e.K == Seq && (k.K == Opt && k.E[0].K == Seq && Shape(k.E[0]).count == 0) {
			e.E[i] = once(k)
		}
		fixRich(k)
	}
}

// Enrich is a grammar with the exponential backtracking of grammars which try the
// same rule several times at the same place.
func Enrich(g *Grammar, r *pbt.TapeReader) *Grammar {
	out := &Grammar{Pad: g.Pad}
	for _, rule := range g.Rules {
		k := r.Next(4)
		if k == 0 || rule.Name == "_" {
			out.Rules = append(out.Rules, rule)
			continue
		}
		inner := rule
		inner.Name = rule.Name + "_in"
		ref := R(inner.Name)
		outer := Rule{Name: rule.Name, CB: CBNone}
		switch k {
		case 1:
			outer.E = Al(Sq(ref, S("%1")), Sq(ref, S("%2")), Sq(ref, S("%3")), ref)
		case 2:
			outer.E = Al(Sq(Lo(ref), No(Sq(ref, S("%1"))), ref), Sq(ref, S("%1")))
		case 3:
			outer.E = Al(Sq(Op(ref), S("%4")), Sq(St(ref, nil), S("%5")), Sq(No(S("%")), ref))
		}
		out.Rules = append(out.Rules, outer, inner)
	}
	return out
}
