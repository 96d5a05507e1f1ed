package props

import (
	"strings"

	"verif/model"
	"verif/pbt"
)

// genLists makes a repetition of anything with any separator and bounds, of up
// to 120 elements, between a prefix and a suffix, and texts around what it takes.
func genLists(t *rapidT) GCase {
	type piece struct {
		e     *model.Expr
		texts []string
	}
	values := []piece{
		{model.C("a-c"), []string{"a", "b", "c"}},
		{model.S("a"), []string{"a"}},
		{model.S("é"), []string{"é"}},
		{model.S("ab"), []string{"ab"}},
		{model.Pl(model.C("ab"), nil), []string{"a", "ab", "bba"}},
		{model.Sq(model.C("a"), model.Op(model.S("!"))), []string{"a", "a!"}},
		{model.Sq(model.S("("), model.St(model.C("ab"), model.S(",")), model.S(")")), []string{"()", "(a)", "(a,b)"}},
		{model.Al(model.S("abc"), model.S("ab"), model.C("a-z")), []string{"abc", "ab", "z", "a"}},
		{model.R("V"), []string{"a", "b", "bc"}},
		{model.St(model.S("a"), nil), []string{"", "a", "aa"}},
		{model.Op(model.S("b")), []string{"", "b"}},
		{model.Sq(model.No(model.S("end")), model.C("a-z")), []string{"a", "e", "n"}},
	}
	joins := []piece{
		{nil, []string{""}},
		{model.S(","), []string{","}},
		{model.S(", "), []string{", "}},
		{model.C(",;"), []string{",", ";"}},
		{model.R("_"), []string{"", " ", "  "}},
		{model.Al(model.S("->"), model.S("-")), []string{"->", "-"}},
		{model.Sq(model.St(model.S(" "), nil), model.S(",")), []string{",", " ,"}},
		{model.Op(model.S(",")), []string{",", ""}},
		{model.No(model.S("a!")), []string{""}},
	}
	v, s := pbt.Pick(t, "value", values), pbt.Pick(t, "join", joins)
	size := func(name string) int {
		if pbt.Chance(t, name+"large", 3) {
			return pbt.Uniform(t, name, 900)
		}
		switch pbt.Uniform(t, name+"?", 3) {
		case 0:
			return pbt.Uniform(t, name, 5)
		case 1:
			return pbt.Uniform(t, name, 24)
		}
		return pbt.Uniform(t, name, 121)
	}
	lo, hi := -1, -1
	if pbt.Chance(t, "min?", 30) {
		lo = size("min")
	}
	if pbt.Chance(t, "max?", 30) {
		hi = max(lo, 0) + size("max")
	}
	var rep *model.Expr
	switch {
	case lo >= 0 || hi >= 0:
		rep = model.Rp(v.e, s.e, lo, hi)
	case pbt.Bool(t, "plus"):
		rep, lo = model.Pl(v.e, s.e), 1
	default:
		rep = model.St(v.e, s.e)
	}
	before := pbt.Pick(t, "before", []string{"", "<", "a", "aa,"})
	after := pbt.Pick(t, "after", []string{"", ">", "a", ",", "end"})
	var seq []*model.Expr
	if before != "" {
		seq = append(seq, model.S(before))
	}
	seq = append(seq, rep)
	if after != "" {
		seq = append(seq, model.S(after))
	}
	var top *model.Expr = rep
	if len(seq) > 1 {
		top = model.Sq(seq...)
	}
	if pbt.Chance(t, "otherwise", 20) {
		top = model.Al(top, model.Pl(model.C("a-z,;<>"), nil))
	}
	g := &model.Grammar{Rules: []model.Rule{{Name: "S", E: top}, {Name: "V", E: model.Al(model.S("bc"), model.C("ab"))}, {Name: "_", E: model.St(model.S(" "), nil)}}}
	c := GCase{G: g, Opt: pbt.Uniform(t, "opt", 16)}
	times := 1
	if pbt.Chance(t, "long", 3) {
		times = 2 + pbt.Uniform(t, "times", 16)
	}
	for i := 0; i < 5; i++ {
		n := size("n") * times
		switch pbt.Uniform(t, "around", 4) {
		case 0:
			n = max(0, lo-1+pbt.Uniform(t, "d", 3))
		case 1:
			n = max(0, hi-1+pbt.Uniform(t, "d", 3))
		}
		tape := pbt.FullTape(t, "items", 7)
		var b strings.Builder
		b.WriteString(before)
		for k := 0; k < n; k++ {
			if k > 0 {
				b.WriteString(s.texts[tape[(k+3)%7]%len(s.texts)])
			}
			b.WriteString(v.texts[tape[k%7]%len(v.texts)])
		}
		b.WriteString(pbt.Pick(t, "trail", []string{"", "", s.texts[0], s.texts[len(s.texts)-1], s.texts[0] + s.texts[0], "x", s.texts[0] + "x", "a", "~"}))
		if pbt.Chance(t, "ends", 85) {
			b.WriteString(after)
		}
		c.Texts = append(c.Texts, pbt.Text(b.String()))
	}
	return c
}
