package props

import (
	"strings"
	"unicode/utf8"

	"verif/model"
	"verif/pbt"

	j "github.com/grepsuzette/joeson"
)

var c16 = &pbt.Prop{
	ID: "C16",
	Rule: "Families bytes and left-recursive: generated grammars on texts with arbitrary bytes (invalid UTF-8, NUL, control characters) inserted or replaced, against the reference interpreter, with the position of the error. " +
		"Family nullable: grammars made of expressions which may match nothing, repeated and nested, against the reference. " +
		"Family deep: recursive grammars on texts nested up to thousands of times, well-formed (accepted, with the right depth) or with one bracket removed, added or replaced (an error within the text). " +
		"Family long: texts of up to hundreds of thousands of characters, accepted with the right number of elements, or with an error at a known place. " +
		"Family unseen: characters are replaced by others of the same length which no part of the grammar tells apart; the outcome must be the same, up to this replacement. " +
		"Non-trivial: a text with bytes that are not plain ASCII gets past offset 0; a repetition of an empty match; depth over 100; over 2000 characters; a replaced character inside of an accepted text.",
	Assumptions: []string{
		"nesting is bounded by Go's default limit of 1 GB per stack, far from what is generated",
		"texts over 50000 characters are given to grammars which need a bounded number of rules per character",
	},
	Families: []pbt.Family{
		pbt.Fam("bytes", 5000, 80000, genBytes(func(t *rapidT) *model.Grammar {
			return model.GenGrammar(t, model.GenOpts{MaxRules: 5, Depth: 3, Shapes: true, Labels: true, Callbacks: anyCallback})
		}), checkBytes),
		pbt.Fam("rich", 2500, 40000, genBytes(func(t *rapidT) *model.Grammar {
			return model.GenRich(t, []int{model.CBNode, model.CBNone, model.CBPicky}, pbt.Chance(t, "labels", 50))
		}), checkBytes),
		pbt.Fam("left-recursive", 2000, 30000, genBytes(func(t *rapidT) *model.Grammar {
			return model.GenLR(t, []int{model.CBNode, model.CBNone}, pbt.Chance(t, "labels", 30))
		}), checkBytes),
		pbt.Fam("nullable", 5000, 80000, genNullable, checkNullable),
		pbt.Fam("deep", 240, 1600, genDeep, checkDeep),
		pbt.Fam("long", 120, 800, genLong, checkLong),
		pbt.Fam("unseen", 4000, 60000, genUnseen, checkUnseen),
	},
}

var oddBytes = []string{"\xff", "\x80", "\xc3", "\xe4\xb8", "\xed\xa0\x80", "\xf0\x9f\x98\x80", "\x00", "\x01", "\x1b[31m", "\r", "\r\n", "\u2028", "\uFFFD", "\ufeff", "\xc0\x80", "é", "e\u0301", "世", "\x7f", "\v", "\f", "%s", "%!d(", "\xf8\x88\x80\x80\x80", "\x85", "\xa0", "\u00a0", "\u0085", "𝘧"}

var wide = []string{"^a", "^b\\n", "^\\]", "\\s\\S", "^\\x00-\\x1f", "^a-c", "\\x80-\\x{10ffff}", "\\x{fffd}", "^\\x{fffd}"}

func genBytes(gen func(*rapidT) *model.Grammar) func(*rapidT) GCase {
	return func(t *rapidT) GCase {
		g := gen(t)
		widen(t, g)
		c := GCase{G: g, Opt: pbt.Uniform(t, "opt", 16)}
		for i := 0; i < 5; i++ {
			s := string(model.GenText(t, g))
			r := &pbt.TapeReader{T: pbt.FullTape(t, "bytes", 16)}
			for n := 1 + pbt.Uniform(t, "n", 3); n > 0; n-- {
				at := r.Next(len(s) + 1)
				end := min(at+r.Next(3)%2, len(s))
				if r.Next(3) > 0 { // a whole character
					for at > 0 && at < len(s) && !utf8.RuneStart(s[at]) {
						at--
					}
					if at < len(s) {
						_, k := utf8.DecodeRuneInString(s[at:])
						end = at + k
					}
				}
				odd := ""
				switch r.Next(4) {
				case 0:
					odd = string([]byte{byte(r.Next(252) + r.Next(5))})
				case 1:
					odd = "a" + oddBytes[r.Next(len(oddBytes))]
				default:
					odd = oddBytes[r.Next(len(oddBytes))]
				}
				s = s[:at] + odd + s[end:]
			}
			c.Texts = append(c.Texts, pbt.Text(s))
		}
		return c
	}
}

func checkBytes(c GCase, r *pbt.R) error {
	rec := &Recorder{}
	gm := BuildWith(c.G, rec, options(c.Opt))
	_, lr := model.LeftGraph(c.G)
	recursive := false
	for _, b := range lr {
		recursive = recursive || b
	}
	for _, text := range c.Texts {
		text := string(text)
		_, want, ok := interp(c.G, text)
		if !ok {
			r.Class("reference too slow")
			continue
		}
		r.Exec()
		got := ToOutcome(gm.ParseString(text))
		e := compare(want, got, text, "short")
		if e == nil && !want.OK && text != "" {
			if recursive {
				e = wantError(got, text, got.N)
				if e == nil && (got.N < want.Stop || got.N > len(text)) {
					e = errf("%s, while the match stopped at %d", got, want.Stop)
				}
			} else {
				e = wantError(got, text, want.Furthest)
			}
		}
		if e != nil {
			return errf("%v\ntext: %q\ngrammar:\n%s", e, text, Describe(c.G))
		}
		valid := utf8.ValidString(text)
		r.ClassIf(!valid, "invalid UTF-8")
		r.ClassIf(!valid && want.OK, "invalid UTF-8, accepted")
		r.ClassIf(want.OK, "accepted")
		plain := true
		for i := 0; i < len(text); i++ {
			plain = plain && text[i] >= 32 && text[i] < 127
		}
		r.NonTrivialIf(!plain && (want.OK || want.Furthest > 0))
	}
	return nil
}

// genNullable makes grammars whose parts match the empty string more often than
// not.
func genNullable(t *rapidT) GCase {
	n := 1 + pbt.Uniform(t, "n", 4)
	g := &model.Grammar{Rules: make([]model.Rule, n)}
	r := &pbt.TapeReader{T: pbt.FullTape(t, "exprs", 90)}
	name := func(i int) string { return "N" + string(rune('a'+i)) }
	for i := n - 1; i >= 0; i-- {
		var expr func(depth int) *model.Expr
		expr = func(depth int) *model.Expr {
			if depth == 0 || r.Next(7) == 6 {
				switch x := r.Next(9); {
				case x == 0:
					return model.S("")
				case x == 1:
					return model.Op(model.S("a"))
				case x == 2:
					return model.St(model.S("b"), nil)
				case x == 3:
					return model.X("a*")
				case x == 4 && i < n-1:
					return model.R(name(i + 1 + r.Next(n-1-i)))
				case x == 5:
					return model.Lo(model.C("ab"))
				case x == 6:
					return model.No(model.S("b"))
				case x == 7:
					return model.X("(b|)")
				}
				return model.S("a")
			}
			in := expr(depth - 1)
			switch r.Next(10) {
			case 0, 1:
				return model.St(in, nil)
			case 2:
				return model.Pl(in, nil)
			case 3:
				return model.St(in, expr(depth-1))
			case 4:
				return model.Pl(in, expr(0))
			case 5:
				return model.Rp(in, nil, r.Next(5)-1, -1)
			case 6:
				return model.Op(in)
			case 7:
				return model.Sq(in, expr(depth-1))
			case 8:
				return model.Al(in, expr(depth-1))
			}
			lo := r.Next(4)
			return model.Rp(in, expr(0), lo, lo+r.Next(3))
		}
		g.Rules[i] = model.Rule{Name: name(i), E: expr(3)}
	}
	c := GCase{G: g, Opt: pbt.Uniform(t, "opt", 16)}
	for i := 0; i < 5; i++ {
		m := &pbt.TapeReader{T: pbt.FullTape(t, "text", 10)}
		var b strings.Builder
		for n := m.Next(9); n > 0; n-- {
			b.WriteString([]string{"a", "b", "a", "b", "ab", "c"}[m.Next(6)])
		}
		c.Texts = append(c.Texts, pbt.Text(b.String()))
	}
	return c
}

func checkNullable(c GCase, r *pbt.R) error {
	gm := BuildWith(c.G, nil, options(c.Opt))
	features(c.G, r)
	reps := 0
	for _, rule := range c.G.Rules {
		rule.E.Walk(func(e *model.Expr) {
			if e.K == model.Rep {
				reps++
			}
		})
	}
	for _, text := range c.Texts {
		_, want, ok := interp(c.G, string(text))
		if !ok {
			r.Class("reference too slow")
			continue
		}
		r.Exec()
		got := ToOutcome(gm.ParseString(string(text)))
		if e := compare(want, got, string(text), "accept"); e != nil {
			return errf("%v\ntext: %q\ngrammar:\n%s", e, string(text), Describe(c.G))
		}
		r.ClassIf(want.OK, "accepted")
		r.NonTrivialIf(reps > 0 && (want.OK || want.Matched))
	}
	return nil
}

// DeepCase: Kind is the grammar, Depth the nesting, Tape chooses among brackets,
// Edit is what happens to the text: 0 nothing, 1 a removed, 2 an added, 3 a
// replaced bracket at the place At (in thousandths).
type DeepCase struct {
	Kind  int   `json:"kind"`
	Depth int   `json:"depth"`
	Tape  []int `json:"tape"`
	Edit  int   `json:"edit,omitempty"`
	At    int   `json:"at,omitempty"`
	Opt   int   `json:"opt,omitempty"`
}

type deepKind struct {
	name  string
	start string // rule D
	more  [][2]string
	open  []string
	close []string
	core  []string
}

var deepKinds = []deepKind{
	{"brackets", "'(' D ')' | '[' D ']' | '{' D '}' | 'x'", nil, []string{"(", "[", "{"}, []string{")", "]", "}"}, []string{"x"}},
	{"regexps", "/[(]/ D /[)]/ | [\\[] D [\\]] | [a-z]", nil, []string{"(", "["}, []string{")", "]"}, []string{"x", "y"}},
	{"prefix", "'-' D | '!' D | [0-9]+", nil, []string{"-", "!"}, []string{"", ""}, []string{"1", "22"}},
	{"optional", "'a' D? 'b' | 'c' D 'd' | 'x'", nil, []string{"a", "c"}, []string{"b", "d"}, []string{"x"}},
	{"labels", "'(' in:D ')' k:(('!'))? | [x]", nil, []string{"(", "("}, []string{")", ")!"}, []string{"x"}},
	{"lookahead", "(?'(') '(' D ')' | !'(' '[' D ']' | !['('] 'x'", nil, []string{"(", "["}, []string{")", "]"}, []string{"x"}},
	{"left-recursive", "T", [][2]string{{"T", "T '+' F | F"}, {"F", "'(' D ')' | 'x'"}}, []string{"(", "(x+", "x+("}, []string{")", ")", "+x)"}, []string{"x", "x+x"}},
	{"list", "'<' D*',' '>' | 'x'", nil, []string{"<", "<x,", "<<>,"}, []string{">", ",x>", ">"}, []string{"x", "<>"}},
	{"indirect", "'(' P ')' | 'x'", [][2]string{{"P", "Q | 'y'"}, {"Q", "_ D _"}, {"_", "' '*"}}, []string{"(", "( "}, []string{")", "  )"}, []string{"x"}},
}

func genDeep(t *rapidT) DeepCase {
	c := DeepCase{Kind: pbt.Uniform(t, "grammar", len(deepKinds)), Tape: pbt.FullTape(t, "tape", 13), Opt: pbt.Uniform(t, "opt", 16)}
	switch pbt.Uniform(t, "size", 4) {
	case 0:
		c.Depth = pbt.Uniform(t, "depth", 200)
	case 1, 2:
		c.Depth = 200 + pbt.Uniform(t, "depth", 1800)
	default:
		c.Depth = 2000 + pbt.Uniform(t, "depth", 6000)
		if pbt.Chance(t, "deeper", 50) {
			most := 52000
			if len(deepKinds[c.Kind].more) > 0 {
				most = 24000 // several rules for each level
			}
			c.Depth = 8000 + pbt.Uniform(t, "depth", most)
		}
	}
	if pbt.Chance(t, "edited", 50) {
		c.Edit = 1 + pbt.Uniform(t, "edit", 3)
		c.At = pbt.Uniform(t, "at", 1000)
	}
	return c
}

// height is how nodes nest in a production, without recursing into nodes.
func height(a j.Ast) int {
	switch v := a.(type) {
	case *heightNode:
		return v.h
	case *j.NativeArray:
		m := 0
		for _, x := range v.Array() {
			m = max(m, height(x))
		}
		return m
	case *j.NativeMap:
		m := 0
		for _, k := range v.Keys() {
			if x, ok := v.GetExists(k); ok {
				m = max(m, height(x))
			}
		}
		return m
	}
	return 0
}

type heightNode struct {
	*j.Attr
	h int
}

func (heightNode) String() string { return "height" }

func checkDeep(c DeepCase, r *pbt.R) error {
	k := deepKinds[c.Kind]
	var b strings.Builder
	n := len(k.open)
	pick := func(i int) int { return c.Tape[i%len(c.Tape)] % n }
	for i := 0; i < c.Depth; i++ {
		b.WriteString(k.open[pick(i)])
	}
	b.WriteString(k.core[c.Tape[0]%len(k.core)])
	for i := c.Depth - 1; i >= 0; i-- {
		b.WriteString(k.close[pick(i)])
	}
	text := b.String()
	valid := true
	if c.Edit > 0 {
		var at []int // of the brackets
		for i := 0; i < len(text); i++ {
			if strings.ContainsRune("()[]{}<>abcd", rune(text[i])) {
				at = append(at, i)
			}
		}
		if len(at) > 0 {
			i := at[c.At*len(at)/1000]
			switch c.Edit {
			case 1:
				text = text[:i] + text[i+1:]
			case 2:
				text = text[:i] + text[i:i+1] + text[i:]
			case 3:
				text = text[:i] + "~" + text[i+1:]
			}
			valid = false
		}
	}
	lines := []j.Line{j.O(j.Named("D", k.start), func(it j.Ast) j.Ast { return &heightNode{j.NewAttr(), 1 + height(it)} })}
	for _, m := range k.more {
		lines = append(lines, j.I(j.Named(m[0], m[1])))
	}
	gm := j.GrammarWithOptionsFromLines("gm", options(c.Opt), lines)
	r.Exec()
	result := gm.ParseString(text)
	where := errf("grammar %s: %s, depth %d, edit %d\ntext: %s", k.name, k.start, c.Depth, c.Edit, clip(text, 200))
	if node, ok := result.(*heightNode); ok {
		if !valid {
			return errf("a text with unbalanced brackets was accepted\n%v", where)
		}
		want := c.Depth + 1
		if node.h < want || node.h > want+1 {
			return errf("the nesting of the result is %d instead of %d\n%v", node.h, want, where)
		}
	} else {
		got := ToOutcome(result)
		if got.OK {
			return errf("a %T was returned\n%v", result, where)
		}
		if valid {
			return errf("not accepted: %s\n%v", got, where)
		}
		if text == "" {
			return nil
		}
		if got.N < 0 || got.N > len(text) {
			return errf("%s\n%v", got, where)
		}
		if e := wantError(got, text, got.N); e != nil {
			return errf("%v\n%v", e, where)
		}
	}
	r.Class(k.name)
	r.ClassIf(!valid, "unbalanced")
	r.ClassIf(c.Depth > 1024, "deeper than 1024")
	r.ClassIf(c.Depth > 10000, "deeper than 10000")
	r.ClassIf(c.Depth > 25000, "deeper than 25000")
	r.NonTrivialIf(c.Depth > 100)
	return nil
}

// LongCase: a list of N elements made from Elems, joined; Bad is the index of an
// element replaced by something wrong (-1: none).
type LongCase struct {
	Kind  int   `json:"kind"`
	N     int   `json:"n"`
	Tape  []int `json:"tape"`
	Bad   int   `json:"bad"`
	Opt   int   `json:"opt,omitempty"`
	LineN int   `json:"lines,omitempty"`
}

type longKind struct {
	name  string
	rules [][2]string
	elems []string
	join  string
}

var longKinds = []longKind{
	{"words", [][2]string{{"S", "W*' '"}, {"W", "[a-z]+"}}, []string{"a", "bcd", "hello"}, " "},
	{"lines", [][2]string{{"S", "L*'\n'"}, {"L", "K '=' V"}, {"K", "/[a-z]+/"}, {"V", "[^\\n~]*"}}, []string{"a=1", "kk=世界", "z=", "key=a b c"}, "\n"},
	{"choice", [][2]string{{"S", "E+','"}, {"E", "'a' 'b' 'c' | 'a' 'b' | 'a' | [0-9]{1,3} | !'z' [x-y]"}}, []string{"a", "ab", "abc", "12", "345", "x"}, ","},
	{"no join", [][2]string{{"S", "(T | U)*"}, {"T", "'<' [^<>~]* '>'"}, {"U", "[^<>~]"}}, []string{"<ab>", "x", "<>", "é"}, ""},
	{"bytes", [][2]string{{"S", "A*';'"}, {"A", "/[^;~]+/"}}, []string{"\xff", "\x00\x01", "世", "\xe4\xb8", "\n"}, ";"},
}

func genLong(t *rapidT) LongCase {
	c := LongCase{Kind: pbt.Uniform(t, "grammar", len(longKinds)), Tape: pbt.FullTape(t, "tape", 17), Bad: -1, Opt: pbt.Uniform(t, "opt", 16)}
	switch pbt.Uniform(t, "size", 5) {
	case 0:
		c.N = 1 + pbt.Uniform(t, "n", 300)
	case 4:
		c.N = 1000 + pbt.Uniform(t, "n", 40000)
	default:
		c.N = 300 + pbt.Uniform(t, "n", 5000)
	}
	if pbt.Chance(t, "larger", 8) {
		c.N = 66000 + pbt.Uniform(t, "n", 30000)
	}
	if pbt.Chance(t, "bad", 50) {
		c.Bad = pbt.Uniform(t, "bad at", c.N)
	}
	return c
}

func checkLong(c LongCase, r *pbt.R) error {
	k := longKinds[c.Kind]
	var b strings.Builder
	bad := -1
	for i := 0; i < c.N; i++ {
		if i > 0 {
			b.WriteString(k.join)
		}
		if i == c.Bad {
			bad = b.Len()
			b.WriteString("~")
			continue
		}
		b.WriteString(k.elems[c.Tape[(i+i/len(c.Tape))%len(c.Tape)]%len(k.elems)])
	}
	text := b.String()
	count := 0
	var lines []j.Line
	for i, m := range k.rules {
		switch i {
		case 0:
			lines = append(lines, j.O(j.Named(m[0], m[1]), func(it j.Ast) j.Ast {
				return j.NewNativeInt(it.(*j.NativeArray).Length())
			}))
		case 1:
			lines = append(lines, j.I(j.Named(m[0], m[1]), func(it j.Ast) j.Ast { count++; return it }))
		default:
			lines = append(lines, j.I(j.Named(m[0], m[1])))
		}
	}
	gm := j.GrammarWithOptionsFromLines("gm", options(c.Opt), lines)
	r.Exec()
	result := gm.ParseString(text)
	where := errf("grammar %s, %d elements, %d bytes, bad element %d", k.name, c.N, len(text), c.Bad)
	if n, ok := result.(j.NativeInt); ok {
		if bad >= 0 {
			return errf("accepted, in spite of a wrong character at %d\n%v", bad, where)
		}
		if n.Int() != c.N {
			return errf("%d elements instead of %d\n%v", n.Int(), c.N, where)
		}
		if k.name != "no join" && count != c.N {
			return errf("the callback of elements was called %d times instead of %d\n%v", count, c.N, where)
		}
	} else {
		got := ToOutcome(result)
		if bad < 0 {
			return errf("not accepted: %s\n%v", clip(got.String(), 300), where)
		}
		if got.OK || got.Nil {
			return errf("%s\n%v", clip(got.String(), 300), where)
		}
		// only what is before can be matched
		if got.N > bad || got.N < bad-12 {
			return errf("the error is reported at %d, and the wrong character is at %d\n%v", got.N, bad, where)
		}
		if e := wantError(got, text, got.N); e != nil {
			return errf("%v\n%v", e, where)
		}
	}
	r.Class(k.name)
	r.ClassIf(len(text) > 50000, "over 50000 bytes")
	r.ClassIf(bad >= 0, "with an error")
	r.NonTrivialIf(len(text) > 2000)
	return nil
}

// UnseenCase: From is replaced by To in the texts.
type UnseenCase struct {
	GCase
	From pbt.Text `json:"from"`
	To   pbt.Text `json:"to"`
}

var sameLength = [][]string{
	{"x", "y", "q", "w", "\x01", "\x00", "\x7f", "%", "\"", "`", "\xff", "\x80", "\xc3", "\t", "\r", "\v", "\x1b", "z", "c", "0", "7", "\\", "'", "/"},
	{"é", "ü", "ñ", "\u0085", "\u00a0", "ß", "\u0301"},
	{"世", "界", "\uFFFD", "\u2028", "\ufeff", "ア", "€"},
	{"𝘧", "😀", "𐍈", "\U0010ffff"},
}

func genUnseen(t *rapidT) UnseenCase {
	cbs := []int{model.CBNone, model.CBNode, model.CBPass}
	var g *model.Grammar
	if pbt.Chance(t, "rich", 30) {
		g = model.GenRich(t, []int{model.CBNode, model.CBNone}, pbt.Chance(t, "labels", 50))
	} else {
		g = model.GenGrammar(t, model.GenOpts{MaxRules: 5, Depth: 3, Shapes: true, Labels: true, NoRegex: true, Callbacks: cbs})
	}
	widen(t, g)
	c := UnseenCase{GCase: GCase{G: g, Opt: pbt.Uniform(t, "opt", 16)}}
	var have []string // characters of the texts
	for i := 0; i < 4; i++ {
		s := model.GenText(t, g)
		c.Texts = append(c.Texts, s)
		for _, x := range string(s) {
			have = append(have, string(x))
		}
	}
	// a pair which the grammar does not tell apart, when there is one
	pair := func(from, to string) bool {
		if from == to || len(from) != len(to) || from == "\n" || to == "\n" || !unseen(g, from, to) {
			return false
		}
		c.From, c.To = pbt.Text(from), pbt.Text(to)
		return true
	}
	r := &pbt.TapeReader{T: pbt.FullTape(t, "pair", 60)}
	for n := 0; n < 20 && len(have) > 0; n++ {
		from := have[r.Next(len(have))]
		group := sameLength[len(from)-1]
		if pair(from, group[r.Next(len(group))]) {
			return c
		}
	}
	group := pbt.Pick(t, "length", sameLength)
	start := pbt.Uniform(t, "start", len(group)*len(group))
	for n := 0; n < len(group)*len(group); n++ {
		p := (start + n) % (len(group) * len(group))
		if pair(group[p/len(group)], group[p%len(group)]) {
			break
		}
	}
	for i, s := range c.Texts {
		r := &pbt.TapeReader{T: pbt.FullTape(t, "where", 8)}
		for n := r.Next(4); n > 0; n-- {
			rs := []rune(string(s))
			at := r.Next(len(rs) + 1)
			end := min(at+r.Next(2), len(rs))
			s = pbt.Text(string(rs[:at])) + c.From + pbt.Text(string(rs[end:]))
		}
		c.Texts[i] = s
	}
	return c
}

// widen makes classes take about anything
func widen(t *rapidT, g *model.Grammar) {
	w := &pbt.TapeReader{T: pbt.FullTape(t, "wide", 24)}
	for _, rule := range g.Rules {
		rule.E.Walk(func(e *model.Expr) {
			if e.K == model.Cls && w.Next(3) > 0 {
				e.S = wide[w.Next(len(wide))]
			}
		})
	}
}

// unseen tells whether no part of a grammar tells a character from another. The
// classes are compared on the characters alone.
func unseen(g *model.Grammar, from, to string) bool {
	ok := true
	for _, rule := range g.Rules {
		rule.E.Walk(func(e *model.Expr) {
			switch e.K {
			case model.Re:
				ok = false
			case model.Str:
				if strings.Contains(e.S, from) || strings.Contains(e.S, to) {
					ok = false
				}
			case model.Cls:
				re := model.Regexp(e)
				if len(re.FindString(from)) != len(re.FindString(to)) {
					ok = false
				}
			}
		})
	}
	return ok
}

func mapped(v *model.Val, from, to string) *model.Val {
	if v == nil {
		return nil
	}
	c := *v
	if c.K == 'S' {
		c.S = strings.ReplaceAll(c.S, from, to)
	}
	c.A = nil
	for _, x := range v.A {
		c.A = append(c.A, mapped(x, from, to))
	}
	return &c
}

func checkUnseen(c UnseenCase, r *pbt.R) error {
	if c.From == "" {
		r.Class("no such characters")
		return nil
	}
	from, to := string(c.From), string(c.To)
	gm := BuildWith(c.G, nil, options(c.Opt))
	for _, text := range c.Texts {
		text := string(text)
		// a lone byte must not become part of another character
		if len(from) == 1 && (from[0] >= 0x80 || to[0] >= 0x80) {
			text = ascii(text, from)
		}
		other := strings.ReplaceAll(text, from, to)
		r.Exec()
		a, b := ToOutcome(gm.ParseString(text)), ToOutcome(gm.ParseString(other))
		where := errf("texts: %q %q\ngrammar:\n%s", text, other, Describe(c.G))
		if a.OK != b.OK || a.Nil != b.Nil || a.N != b.N || a.Line != b.Line || a.Col != b.Col {
			return errf("%s, but with other characters %s\n%v", a, b, where)
		}
		if a.OK {
			want := mapped(FromAst(a.Ast), from, to).Canon(true)
			if want != mapped(FromAst(b.Ast), from, to).Canon(true) {
				return errf("%s, but with other characters %s\n%v", a, b, where)
			}
		}
		r.ClassIf(a.OK, "accepted")
		r.ClassIf(a.OK && text != other, "accepted, replaced")
		r.NonTrivialIf(a.OK && text != other)
	}
	return nil
}

// ascii keeps the ASCII characters of a text, and a given one
func ascii(text, keep string) string {
	var b strings.Builder
	for i := 0; i < len(text); i++ {
		if text[i] < 0x80 || text[i:i+1] == keep {
			b.WriteByte(text[i])
		}
	}
	return b.String()
}
