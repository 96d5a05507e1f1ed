package model

import (
	"fmt"

	"pgregory.net/rapid"
	"verif/pbt"
)

// GenLR draws a grammar with left-recursive rules: 1 to 3 layers, each of them
// left-recursive directly, indirectly or behind a prefix which may be empty, used
// at several positions of the start rule.
func GenLR(t *rapid.T, callbacks []int, labels bool) *Grammar {
	n := 1 + pbt.Uniform(t, "layers", 3)
	g := &Grammar{}
	cb := func() int {
		if len(callbacks) == 0 {
			return CBNone
		}
		return pbt.Pick(t, "cb", callbacks)
	}
	add := func(name string, e *Expr, c int) { g.Rules = append(g.Rules, Rule{Name: name, E: e, CB: c}) }
	name := func(i int) string {
		if i < n {
			return fmt.Sprintf("E%d", i)
		}
		return "ATOM"
	}
	// start
	e0 := R("E0")
	var start *Expr
	switch pbt.Uniform(t, "start", 9) {
	case 0, 1, 2:
		start = nil
	case 3:
		start = St(e0, S(","))
	case 4:
		start = Sq(S("<"), Pl(e0, S(";")), S(">"))
	case 5:
		start = Al(Sq(e0, S(";")), Sq(e0, S("?")), e0)
	case 6:
		start = Sq(Lo(Sq(e0, C(";."))), e0, C(";."))
	case 7:
		start = Sq(No(Sq(e0, S("!"))), Op(S("#")), Rp(e0, S("|"), 1, 3))
	case 8:
		start = Al(Sq(R(name(n-1)), S("=")), Sq(Op(Sq(e0, S(":"))), e0))
	}
	if start != nil {
		add("S", start, cb())
	}
	ops := []string{"+", "-", "*", "/", "^", "&", "%"}
	opAt, detours, chained := 0, 0, false
	op := func() *Expr {
		opAt++
		if pbt.Chance(t, "samesop", 15) {
			return S("+")
		}
		return S(ops[(opAt-1)%len(ops)])
	}
	for i := 0; i < n; i++ {
		self, next := R(name(i)), R(name(i+1))
		kind := pbt.Uniform(t, "lrkind", 6)
		head := self
		var middle []string
		if kind == 3 || kind == 4 {
			middle = append(middle, fmt.Sprintf("M%d", i))
			if kind == 4 {
				middle = append(middle, fmt.Sprintf("N%d", i))
				if !chained && pbt.Chance(t, "chain?", 12) {
					chained = true
					for k := pbt.Uniform(t, "chain", pbt.Pick(t, "chainmax", []int{10, 30, 90})); k > 0; k-- {
						middle = append(middle, fmt.Sprintf("N%dx%d", i, k))
					}
				}
			}
			head = R(middle[0])
		}
		lab := func(l string, e *Expr) *Expr {
			if labels {
				return Lb(l, e)
			}
			return e
		}
		rec := func() *Expr {
			var e *Expr
			switch pbt.Uniform(t, "rec", 11) {
			case 0, 1, 2:
				e = Sq(lab("l", head), op(), lab("r", next))
			case 3:
				e = Sq(head, op(), self)
			case 4:
				e = Sq(head, S("."), Pl(C("a-c"), nil))
			case 5:
				e = Sq(lab("f", head), S("("), lab("a", St(R("E0"), S(","))), S(")"))
			case 6:
				e = Sq(head, S("["), R("E0"), S("]"))
			case 7:
				e = Sq(head, S("'"))
			case 8:
				e = Sq(head, R("_"), op(), R("_"), next)
			case 9:
				e = Sq(lab("l", head), lab("op", C("<>=")), lab("r", next))
			case 10:
				e = Sq(head, No(S("**")), op(), next, Op(S("~")))
			}
			if kind == 2 {
				// hidden behind something which may be empty
				switch pbt.Uniform(t, "prefix", 3) {
				case 0:
					e.E = append([]*Expr{R("_")}, e.E...)
				case 1:
					e.E = append([]*Expr{Op(S("@"))}, e.E...)
				case 2:
					e.E = append([]*Expr{St(C(" "), nil), R("_")}, e.E...)
				}
			}
			return e
		}
		var alts []*Expr
		m := 1 + pbt.Uniform(t, "nrec", 3)
		for k := 0; k < m; k++ {
			alts = append(alts, rec())
		}
		base := []*Expr{next}
		switch pbt.Uniform(t, "base", 9) {
		case 0:
			base = append([]*Expr{Sq(S("-"), self)}, base...)
		case 1:
			base = append([]*Expr{Sq(S("("), R("E0"), S(")"))}, base...)
		case 2:
			base = append(base, S("x"))
		case 3:
			base = append([]*Expr{S("a+b")}, base...)
		// matches which start empty
		case 4:
			base = append(base, Op(S("x")))
		case 5:
			base = []*Expr{pbt.Pick(t, "empty", []*Expr{R("_"), S(""), St(S("x"), nil), No(S("x"))})}
		}
		alts = append(alts, base...)
		if pbt.Chance(t, "shuffle", 15) {
			k := pbt.Uniform(t, "swap", len(alts))
			alts[0], alts[k] = alts[k], alts[0]
		}
		var e *Expr = Al(alts...)
		add(name(i), e, cb())
		for k, mid := range middle {
			to := self
			if k+1 < len(middle) {
				to = R(middle[k+1])
			}
			shape := pbt.Uniform(t, "mid", 4)
			// each detour doubles the work: few of them in a long chain
			if shape&1 == 1 {
				detours++
				if len(middle) > 4 && (detours > 4 || !pbt.Chance(t, "detour", max(10, 400/len(middle)))) {
					shape &= 2
					detours--
				}
			}
			switch shape {
			case 0:
				add(mid, to, cb())
			case 1:
				add(mid, Al(Sq(to, S("!")), to), cb())
			case 2:
				add(mid, Al(to, S("m")), cb())
			case 3:
				add(mid, Al(Sq(to, S("$"), next), to, Sq(S("m"), C("0-9"))), cb())
			}
		}
	}
	atoms := []*Expr{Pl(C("0-9"), nil), C("a-c")}
	if pbt.Bool(t, "parens") {
		atoms = append(atoms, Sq(S("("), R("E0"), S(")")))
	}
	if pbt.Chance(t, "braces", 30) {
		atoms = append(atoms, Sq(S("{"), St(R(name(pbt.Uniform(t, "in", n))), S(" ")), S("}")))
	}
	add("ATOM", Al(atoms...), cb())
	add("_", St(C(" \\n"), nil), CBNone)
	g.Pad = GenPad(t)
	return g
}

// LRAlphabet is what edits of texts of left-recursive grammars insert.
var LRAlphabet = []string{"+", "-", "*", "/", "(", ")", "[", "]", ".", "a", "b", "1", "23", "x", ",", ";", "'", " ", "<", "=", "!", "m", "m1", "$", "~", "@", "{", "}"}

// GenLRText draws a text for such a grammar.
func GenLRText(t *rapid.T, g *Grammar) pbt.Text {
	r := &pbt.TapeReader{T: pbt.FullTape(t, "tape", 40)}
	depth := 2 + pbt.Uniform(t, "depth", 6)
	s := Sample(g, r, depth)
	if len(s) > 120 {
		s = s[:120]
	}
	if pbt.Chance(t, "edit?", 40) {
		m := &pbt.TapeReader{T: pbt.FullTape(t, "edits", 8)}
		for i := 0; i < 1+pbt.Uniform(t, "nedits", 2); i++ {
			at := m.Next(len(s) + 1)
			x := LRAlphabet[m.Next(len(LRAlphabet))]
			switch m.Next(3) {
			case 0:
				s = s[:at] + x + s[at:]
			case 1:
				if at < len(s) {
					s = s[:at] + s[at+1:]
				}
			case 2:
				if at < len(s) {
					s = s[:at] + x + s[at+1:]
				}
			}
		}
	}
	return pbt.Text(s)
}

// GenMutual draws a chain of rules E0, E1.. where each refers at its leftmost
// position to any of the previous ones, to itself and to the next one: cycles are
// nested in cycles and share rules, but each is only entered through one rule.
func GenMutual(t *rapid.T, callbacks []int) *Grammar {
	n := 2 + pbt.Uniform(t, "rules", 2)
	g := &Grammar{}
	cb := func() int {
		if len(callbacks) == 0 {
			return CBNone
		}
		return pbt.Pick(t, "cb", callbacks)
	}
	add := func(name string, e *Expr, c int) { g.Rules = append(g.Rules, Rule{Name: name, E: e, CB: c}) }
	// the leftmost reference of an alternative of rule i
	rule := func(i int) *Expr { return R(fmt.Sprintf("E%d", pbt.Uniform(t, "to", min(i+2, n)))) }
	e0 := R("E0")
	switch pbt.Uniform(t, "start", 4) {
	case 0:
		add("S", Sq(e0, Op(S(";"))), cb())
	case 1:
		add("S", Al(Sq(e0, S(";")), Sq(R(fmt.Sprintf("E%d", pbt.Uniform(t, "to", 2))), S("?")), e0), cb())
	}
	ops := []string{"+", "-", "*", "/", "^", "&", "%", "=", "<", ">"}
	at := 0
	op := func() *Expr {
		at++
		if pbt.Chance(t, "same", 25) {
			return S("+")
		}
		return S(ops[(at-1)%len(ops)])
	}
	for i := 0; i < n; i++ {
		var alts []*Expr
		m := 1 + pbt.Uniform(t, "nrec", 3)
		for k := 0; k < m; k++ {
			var e *Expr
			switch pbt.Uniform(t, "rec", 5) {
			case 0, 1:
				e = Sq(rule(i), op())
			case 2:
				e = Sq(rule(i), op(), R("ATOM"))
			case 3:
				e = Sq(rule(i), op(), e0)
			case 4:
				e = Sq(Op(S("@")), e0, op())
			}
			alts = append(alts, e)
		}
		switch pbt.Uniform(t, "base", 9) {
		case 0, 1, 6, 7:
			alts = append(alts, R("ATOM"))
		case 2, 5:
			alts = append(alts, rule(i))
		case 8:
			alts = append(alts, Op(S("z")))
		}
		if i == n-1 {
			alts = append(alts, R("ATOM"))
		}
		var e *Expr
		if len(alts) == 1 {
			e = alts[0]
		} else {
			e = Al(alts...)
		}
		add(fmt.Sprintf("E%d", i), e, cb())
	}
	add("ATOM", C("a-c"), cb())
	g.Pad = GenPad(t)
	return g
}
