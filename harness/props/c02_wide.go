package props

import (
	"fmt"
	"strings"

	"verif/model"
	"verif/pbt"
)

// genWide makes a sequence of many elements, or a choice of many alternatives, and
// texts made element by element.
func genWide(t *rapidT) GCase {
	type piece struct {
		e     *model.Expr
		texts []string
	}
	pool := []piece{
		{model.C("a-c"), []string{"a", "b", "c"}},
		{model.R("V"), []string{"v", "w"}},
		{model.R("_"), []string{"", " "}},
		{model.S("x"), []string{"x"}},
		{model.Op(model.C("0-9")), []string{"", "7"}},
		{model.St(model.S("y"), nil), []string{"", "y", "yy"}},
		{model.No(model.S("!")), []string{""}},
		{model.Sq(model.C("p"), model.C("q")), []string{"pq"}},
		{model.Al(model.S("é"), model.C("e")), []string{"é", "e"}},
		{model.Op(model.R("V")), []string{"", "v"}},
	}
	n := 2 + pbt.Uniform(t, "n", pbt.Pick(t, "most", []int{10, 40, 150}))
	if pbt.Chance(t, "plain", 50) {
		pool = pool[:2+pbt.Uniform(t, "kinds", 3)]
	}
	tape := &pbt.TapeReader{T: pbt.FullTape(t, "pieces", 40)}
	c := GCase{G: &model.Grammar{}, Opt: pbt.Uniform(t, "opt", 16)}
	top := &model.Expr{K: model.Seq}
	if pbt.Chance(t, "choice", 25) {
		top.K = model.Alt
		words := make([]string, n)
		for i := range words {
			// some start with another one
			words[i] = fmt.Sprintf("w%d", (i*7+3)%n)
			e := model.S(words[i])
			switch tape.Next(4) {
			case 0:
				e = model.Sq(model.C("w"), model.S(words[i][1:]), model.R("_"))
			case 1:
				e = model.Sq(model.Lb("k", model.C("w")), model.Lb("v", model.S(words[i][1:])))
			}
			top.E = append(top.E, e)
		}
		for i := 0; i < 6; i++ {
			c.Texts = append(c.Texts, pbt.Text(words[pbt.Uniform(t, "word", n)]+pbt.Pick(t, "tail", []string{"", "", "", "0", " ", "x"})))
		}
		c.Texts = append(c.Texts, pbt.Text(words[n-1]))
	} else {
		labels := pbt.Chance(t, "labels", 40)
		var used []piece
		for i := 0; i < n; i++ {
			p := pool[tape.Next(len(pool))]
			used = append(used, p)
			e := p.e
			if labels && (i == 0 && e.K != model.Not || tape.Next(3) > 0 && e.K != model.Not) {
				e = model.Lb(fmt.Sprintf("l%d", i), e)
			}
			top.E = append(top.E, e)
		}
		for i := 0; i < 4; i++ {
			var b strings.Builder
			choice := &pbt.TapeReader{T: pbt.FullTape(t, "texts", 30)}
			for _, p := range used {
				b.WriteString(p.texts[choice.Next(len(p.texts))])
			}
			text := b.String()
			if pbt.Chance(t, "edited", 20) {
				text = model.Mutate(text, choice, 1)
			}
			c.Texts = append(c.Texts, pbt.Text(text))
		}
	}
	c.G.Rules = []model.Rule{
		{Name: "S", E: top},
		{Name: "V", E: model.C("vw")},
		{Name: "_", E: model.St(model.S(" "), nil)},
	}
	if pbt.Bool(t, "called") {
		c.G.Rules[0].CB = pbt.Pick(t, "cb", []int{model.CBNode, model.CBPass})
	}
	model.Declared(t, c.G)
	return c
}
