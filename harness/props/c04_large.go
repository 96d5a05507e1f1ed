package props

import (
	"strings"

	"verif/pbt"

	j "github.com/grepsuzette/joeson"
)

// LargeCase is a text of hundreds of kilobytes whose time is only bearable if the
// work done at each position does not depend on the length of the text.
type LargeCase struct {
	Kind int   `json:"kind"`
	N    int   `json:"n"`
	Tape []int `json:"tape"`
	Bad  bool  `json:"bad,omitempty"`
}

type largeKind struct {
	name  string
	rules [][2]string
	items []string
	// how often the callback of the second rule runs for an item
	calls []int
}

var largeKinds = []largeKind{
	{"tokens", [][2]string{{"S", "T*"}, {"T", "NUM | UP | ID | SP"}, {"NUM", "[0-9]+"}, {"UP", "/[A-Z]+/"}, {"ID", "[a-z]"}, {"SP", "[ \\n]"}}, []string{"a", "b", "z", " ", "\n"}, []int{1, 1, 1, 1, 1}},
	{"inline", [][2]string{{"S", "T*"}, {"T", "/[0-9]+/ | /[A-Z][a-z]*/ | /[#][^;]*;/ | [a-z ]"}}, []string{"a", "b", "z", " "}, []int{1, 1, 1, 1}},
	{"lookahead", [][2]string{{"S", "T*','"}, {"T", "(?/[a-z]/) (!/[;!]/ [a-z])+ X?"}, {"X", "/[!]|[?]/"}}, []string{"a,", "ab,", "abc,"}, []int{1, 1, 1}},
	{"retries", [][2]string{{"S", "L*"}, {"L", "T /[0-9]/ | T /[A-Z]/ | T ';'"}, {"T", "[a-z]+"}}, []string{"a;", "bc;", "def;"}, []int{1, 1, 1}},
	{"left-recursive", [][2]string{{"S", "T"}, {"T", "T /[-]/ N | T /[+]/ N | N"}, {"N", "/[a-z]/"}}, []string{"+a", "+b", "+c"}, []int{1, 1, 1}},
}

func genLarge(t *rapidT) LargeCase {
	return LargeCase{
		Kind: pbt.Uniform(t, "kind", len(largeKinds)),
		N:    30000 + pbt.Uniform(t, "n", 130000),
		Tape: pbt.FullTape(t, "tape", 9),
		Bad:  pbt.Chance(t, "bad", 25),
	}
}

func checkLarge(c LargeCase, r *pbt.R) error {
	k := largeKinds[c.Kind]
	var b strings.Builder
	want := 0
	if k.name == "left-recursive" {
		b.WriteString("x")
	}
	for i := 0; i < c.N; i++ {
		x := c.Tape[(i+i/9)%9] % len(k.items)
		b.WriteString(k.items[x])
		want += k.calls[x]
	}
	text := b.String()
	if k.name == "lookahead" {
		text = strings.TrimSuffix(text, ",")
	}
	if c.Bad {
		text += "~"
	}
	calls := make([]int, len(k.rules))
	var lines []j.Line
	for i, rule := range k.rules {
		i := i
		cb := func(it j.Ast) j.Ast { calls[i]++; return j.NewNativeInt(calls[i]) }
		if i == 0 {
			lines = append(lines, j.O(j.Named(rule[0], rule[1]), cb))
		} else {
			lines = append(lines, j.I(j.Named(rule[0], rule[1]), cb))
		}
	}
	gm := j.GrammarWithOptionsFromLines("gm", quickly(), lines)
	r.Exec()
	result := gm.ParseString(text)
	where := errf("grammar %s (%v), %d items, wrong: %v", k.name, k.rules, c.N, c.Bad)
	if failed := result == nil || j.IsParseError(result); failed != c.Bad {
		return errf("failed: %v instead of %v\n%v", failed, c.Bad, where)
	}
	if k.name == "left-recursive" {
		// an operand for each item, a growing step for each, and the last attempt
		if calls[2] != c.N+1 || calls[1] < c.N+1 || calls[1] > 2*c.N+4 {
			return errf("callbacks were called %v times for %d steps\n%v", calls, c.N, where)
		}
	} else {
		if calls[1] != want {
			return errf("the callback of %s was called %d times instead of %d\n%v", k.rules[1][0], calls[1], want, where)
		}
		for i, n := range calls {
			if n > len(text)+1 {
				return errf("the callback of %s was called %d times for %d positions\n%v", k.rules[i][0], n, len(text)+1, where)
			}
		}
	}
	r.Class(k.name)
	r.ClassIf(len(text) > 200000, "over 200000 characters")
	r.NonTrivial()
	return nil
}
