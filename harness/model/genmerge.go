package model

import (
	"fmt"

	"pgregory.net/rapid"
	"verif/pbt"
)

// GenMerged draws a grammar whose sequences merge the maps of other rules into
// their own, with the labels @ and &. The same map is reached by several
// alternatives, at the same place, before and after it was merged.
func GenMerged(t *rapid.T, callbacks []int) *Grammar {
	g := &Grammar{}
	keys := []string{"a", "b", "c", "x"}
	key := func() string { return pbt.Pick(t, "key", keys) }
	leaf := func() *Expr {
		switch pbt.Uniform(t, "leaf", 6) {
		case 0:
			return C("a-c")
		case 1:
			return Pl(C("0-9"), nil)
		case 2:
			return S("b")
		case 3:
			return Al(S("ab"), S("c"))
		}
		return S("a")
	}
	nmaps := 2 + pbt.Uniform(t, "nmaps", 3)
	nuses := 1 + pbt.Uniform(t, "nuses", 3)
	mapName := func(i int) string { return fmt.Sprintf("M%d", i) }
	useName := func(i int) string { return fmt.Sprintf("A%d", i) }
	// a rule which makes a map, after the i-th use
	anyMap := func(i int) *Expr {
		k := pbt.Uniform(t, "map", nmaps+nuses-i-1)
		if k < nmaps {
			return R(mapName(k))
		}
		return R(useName(i + 1 + k - nmaps))
	}
	merged := func(i int) *Expr {
		e := anyMap(i)
		if pbt.Chance(t, "opt", 35) {
			e = Op(e)
		}
		return Lb(pbt.Pick(t, "how", []string{"@", "&"}), e)
	}
	use := func(i int) *Expr {
		var es []*Expr
		own := pbt.Uniform(t, "own", 4)
		n := max(own+1, 2+pbt.Uniform(t, "n", 4))
		for k := 0; k < n; k++ {
			if k == own {
				es = append(es, Lb(key(), leaf()))
				continue
			}
			switch pbt.Uniform(t, "element", 8) {
			case 0:
				es = append(es, S(pbt.Pick(t, "sep", []string{",", ":", ""})))
			case 1:
				es = append(es, Lb(key(), leaf()))
			case 2:
				es = append(es, Lb(key(), anyMap(i)))
			case 3:
				mark := S(pbt.Pick(t, "mark", []string{"+", "-"}))
				if pbt.Bool(t, "inner") {
					es = append(es, Op(Lb(key(), mark)))
				} else { // undefined when absent
					es = append(es, Lb(key(), Op(mark)))
				}
			default:
				es = append(es, merged(i))
			}
		}
		return Sq(es...)
	}
	cb := func() int {
		if len(callbacks) == 0 {
			return CBNone
		}
		if cb := pbt.Pick(t, "cb", callbacks); cb != CBConcat { // of maps: not specified
			return cb
		}
		return CBNode
	}
	other := func() *Expr {
		switch pbt.Uniform(t, "other", 4) {
		case 0:
			return S(pbt.Pick(t, "end", []string{"!", "?", "a", "b"}))
		case 1:
			return R(mapName(pbt.Uniform(t, "m", nmaps)))
		}
		return R(useName(pbt.Uniform(t, "u", nuses)))
	}
	alts := &Expr{K: Alt}
	for n := 2 + pbt.Uniform(t, "nalts", 4); n > 0; n-- {
		head := other()
		if head.K == Str {
			head = anyMap(-1)
		}
		switch pbt.Uniform(t, "alt", 5) {
		case 0:
			alts.E = append(alts.E, head)
		case 1:
			alts.E = append(alts.E, Sq(head, other(), other()))
		case 2:
			alts.E = append(alts.E, Sq(Lo(head), other(), other()))
		default:
			alts.E = append(alts.E, Sq(head, other()))
		}
	}
	g.Rules = append(g.Rules, Rule{Name: "S", E: St(R("T"), S(";")), CB: cb()}, Rule{Name: "T", E: alts, CB: cb()})
	for i := 0; i < nuses; i++ {
		g.Rules = append(g.Rules, Rule{Name: useName(i), E: use(i), CB: CBNone})
	}
	for i := 0; i < nmaps; i++ {
		var es []*Expr
		for n := 1 + pbt.Uniform(t, "nkeys", 3); n > 0; n-- {
			k := leaf()
			if len(es) > 0 && pbt.Chance(t, "absent", 25) {
				k = Op(k)
			}
			es = append(es, Lb(key(), k))
		}
		e := es[0]
		if len(es) > 1 {
			e = Sq(es...)
		}
		g.Rules = append(g.Rules, Rule{Name: mapName(i), E: e, CB: CBNone})
	}
	g.Rules = append(g.Rules, Rule{Name: "_", E: St(C(" \\n"), nil)})
	g.Pad = GenPad(t)
	return g
}

// Merges tells whether maps are merged with @ or &: their rules must go on
// making maps.
func Merges(g *Grammar) bool {
	found := false
	for _, r := range g.Rules {
		r.E.Walk(func(k *Expr) { found = found || k.L == "@" || k.L == "&" })
	}
	return found
}
