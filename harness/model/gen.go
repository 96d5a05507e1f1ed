package model

import (
	"fmt"
	"regexp/syntax"
	"strings"

	"pgregory.net/rapid"
	"verif/pbt"
)

// GenOpts bounds the generated grammars.
type GenOpts struct {
	MaxRules  int
	Depth     int
	Callbacks []int // among which to choose; nil: none
	Labels    bool  // also labels; restricts the shapes to the documented ones
	Shapes    bool  // only shapes whose production is documented
	NoRegex   bool
	ByteSafe  bool
	Plain     bool // only ASCII literals without newline
	Skip      bool // SkipCache on some rules
	MaxRange  int
}

type gen struct {
	t    *rapid.T
	o    GenOpts
	null map[string]bool // of the rules already generated
	// names of rules which may be referenced anywhere / only where something was
	// consumed
	later, any []string
	lbl        int
}

var strPool = []string{"a", "b", "c", "ab", "aa", "ba", "abc", "0", " ", "\n", "é", "世", "'", "\\", "x", "a\n", "]", "/", "\t", "\"", "a'b", "\\n", "|", "éa", "(", "\r", "abcabcabcabcabcabcab", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab"}
var clsPool = []string{"a", "ab", "a-c", "^a", "^b\\n", "0-9", "a-zA-Z_", "é世", "\\]\\[", "\\\\a", " \\n\\t", "\\s", "^ab", "^\\s", "b-z", "\\-a", "'/", "^\\]a", "\\x00-\\x1f", "\\p{L}", "^\\x00-\\x7f", "\\w.", "^ \\n", "é-ü", "+*?", "$^.", "\\^a", "|(){}", "\\D"}
var rePool = []string{"a+", "[ab]*b", "(a|b)c?", "a|ab", "b*", "[^c]*", "\\d+", "(?i)A", ".", "a{2,3}", "ab?", "é+", "[\\s\\S]", "^a", "$", "a$", "\\bа?", "\\/", "a\\/?", "(a)(b)", "[^\\n]*", "\\s*", "(?:ab)+", "b+?", "\\ba", "(?s)a.b", "(?m)^b", "a*?b", "\\p{Lu}\\p{Ll}*", "[^\\x00-\\x7f]+", "a.c", "(?:a|b|ab)+", "\\w+", "\\W", "(a*)*", "[[:alpha:]]+", "\\x61", "\\Ba", "(?U)a+", "'[^']*'", "[a-c]{2,}"}

// Tail draws a size in [lo,hi] which is mostly small.
func Tail(t *rapid.T, label string, lo, hi int) int {
	k := pbt.Uniform(t, label+"?", 8)
	m := lo + (hi-lo)*(k+1)/8
	if k < 5 {
		m = lo + (hi-lo)/2
	}
	if m <= lo {
		return lo
	}
	return lo + pbt.Uniform(t, label, m-lo+1)
}

var ruleNames = []string{"A", "B", "C", "D", "_u", "E1", "F.g", "_", "Long_Name", "_v2", ".h", "K", "L", "M", "N"}

// among them names which only differ by their case, start with another one, or are
// those of joeson's own rules
var oddNames = []string{"A", "a", "AA", "AB", "Aa", ".", "..", ".h", ".hh", "_", "__", "_A", "_.", "A.B", "A.b", "A_", "A_1", "A1", "A10", "EXPR", "WORD", "INT", "CHOICE", "_PIPE", "LABEL", "ESC1", "z.", "Z9.9", "Abcdefghijklmnopqrstuvwxyz_Abcdefghijklmnopqrstuvwxyz", "Abcdefghijklmnopqrstuvwxyz_AbcdefghijklmnopqrstuvwxyZ", "true", "nil"}

// GenGrammar draws a grammar without left recursion.
func GenGrammar(t *rapid.T, o GenOpts) *Grammar {
	n := Tail(t, "nrules", 1, o.MaxRules)
	g := &Grammar{Rules: make([]Rule, n)}
	names := make([]string, n)
	pool := ruleNames
	if pbt.Chance(t, "names", 15) {
		pool = append([]string{}, oddNames...)
		for i := 0; i < min(n, len(pool)); i++ {
			k := i + pbt.Uniform(t, "name", len(pool)-i)
			pool[i], pool[k] = pool[k], pool[i]
		}
	}
	for i := range names {
		if i < len(pool) {
			names[i] = pool[i]
		} else {
			names[i] = fmt.Sprintf("R%d", i)
		}
	}
	ge := &gen{t: t, o: o, null: map[string]bool{}}
	for i := n - 1; i >= 0; i-- {
		ge.later = names[i+1:]
		ge.any = names
		ge.lbl = 0
		depth := 1 + pbt.Uniform(t, "depth", o.Depth)
		e := ge.expr(depth, true, true)
		e = ge.topLabel(e)
		cb := CBNone
		if len(o.Callbacks) > 0 {
			cb = pbt.Pick(t, "cb", o.Callbacks)
		}
		g.Rules[i] = Rule{Name: names[i], E: e, CB: cb, Skip: o.Skip && pbt.Chance(t, "skip", 35)}
		ge.null[names[i]] = ge.nullable(e)
	}
	g.Pad = GenPad(t)
	return g
}

// Growing gives some rules a callback which changes the array or the map it is
// given in place. Only those whose expression makes a new one each time.
func Growing(t *rapid.T, g *Grammar) *Grammar {
	if !pbt.Chance(t, "growing?", 30) || Merges(g) {
		return g
	}
	for i, r := range g.Rules {
		own := r.E.K == Rep && r.E.L == ""
		if r.E.K == Seq && r.E.L == "" {
			for _, k := range r.E.E {
				own = own || k.L != ""
			}
		}
		if own && r.CB <= CBPass && pbt.Bool(t, "growing") {
			g.Rules[i].CB = CBGrow
		}
	}
	return g
}

// GenPad draws how many unused rules a grammar has.
func GenPad(t *rapid.T) int {
	if !pbt.Chance(t, "pad?", 4) {
		return 0
	}
	n := pbt.Pick(t, "pad", []int{61, 62, 63, 64, 65, 30, 31, 32, 7, 15, 126, 127, 128, 64, 65, 254, 255, 256})
	if pbt.Chance(t, "padafter", 15) {
		return -n
	}
	return n
}

func (g *gen) nullable(e *Expr) bool {
	switch e.K {
	case Ref:
		n, known := g.null[e.S]
		return n || !known
	case Alt:
		for _, k := range e.E {
			if g.nullable(k) {
				return true
			}
		}
		return false
	case Seq:
		for _, k := range e.E {
			if !g.nullable(k) {
				return false
			}
		}
		return true
	case Rep:
		return e.Min <= 0 || e.Max == 0 || g.nullable(e.E[0])
	}
	return nullable(e, nil, nil)
}

func (g *gen) atom(left bool) *Expr {
	refs := g.any
	if left {
		refs = g.later
	}
	k := pbt.Uniform(g.t, "atom", 10)
	switch {
	case k < 4 || k >= 6 && len(refs) == 0 && k < 9:
		return g.str()
	case k < 5:
		return C(pbt.Pick(g.t, "cls", clsPool))
	case k < 6:
		if g.o.NoRegex {
			return C(pbt.Pick(g.t, "cls", clsPool))
		}
		return X(pbt.Pick(g.t, "re", rePool))
	case len(refs) == 0:
		return g.str()
	}
	return R(pbt.Pick(g.t, "ref", refs))
}

func (g *gen) str() *Expr {
	if g.o.Plain {
		return S(pbt.Pick(g.t, "str", []string{"a", "b", "c", "ab", "0", "x", "("}))
	}
	if pbt.Chance(g.t, "emptystr", 2) {
		return S("")
	}
	return S(pbt.Pick(g.t, "str", strPool))
}

// expr draws an expression. left: nothing was consumed yet in this rule. top:
// it is the whole rule.
func (g *gen) expr(depth int, left, top bool) *Expr {
	if depth <= 0 {
		return g.atom(left)
	}
	switch pbt.Uniform(g.t, "kind", 14) {
	case 0, 1:
		return g.atom(left)
	case 2, 3, 4, 5:
		return g.seq(depth, left)
	case 6, 7, 8:
		n := 2 + pbt.Uniform(g.t, "nalt", 3)
		if pbt.Chance(g.t, "wide", 4) {
			n, depth = 5+pbt.Uniform(g.t, "nwide", 16), 1
			if pbt.Chance(g.t, "wider", 20) {
				n += pbt.Uniform(g.t, "nwider", 80)
			}
		}
		e := &Expr{K: Alt}
		for i := 0; i < n; i++ {
			e.E = append(e.E, g.expr(depth-1, left, false))
		}
		return e
	case 9:
		in := g.expr(depth-1, left, false)
		if len(Shape(in).labels) > 0 {
			// an optional group with labels has a documented production only
			// directly in a sequence (see fixSeq)
			in = once(in)
		}
		return Op(in)
	case 10, 11, 12:
		return g.rep(depth, left)
	}
	if pbt.Bool(g.t, "not") {
		return No(g.expr(depth-1, left, false))
	}
	return Lo(g.expr(depth-1, left, false))
}

func (g *gen) rep(depth int, left bool) *Expr {
	e := &Expr{K: Rep, Min: -1, Max: -1}
	v := g.expr(depth-1, left, false)
	e.E = []*Expr{v}
	if pbt.Chance(g.t, "join?", 40) {
		e.J = g.expr(depth-1, left && g.nullable(v), false)
	}
	hi := g.o.MaxRange
	if hi == 0 {
		hi = 4
		if pbt.Chance(g.t, "wide", 4) {
			hi = 40
		}
	}
	switch pbt.Uniform(g.t, "range", 6) {
	case 2:
		e.Plus, e.Min = true, 1
	case 3:
		e.Min = pbt.Uniform(g.t, "min", hi)
	case 4:
		e.Max = pbt.Uniform(g.t, "max", hi+1)
	case 5:
		e.Min = pbt.Uniform(g.t, "min", hi)
		e.Max = e.Min + pbt.Uniform(g.t, "more", 3)
		if pbt.Chance(g.t, "inverted", 5) {
			e.Max = pbt.Uniform(g.t, "max", hi)
		}
	}
	// more than {2,} of something empty: bounded anyway
	return e
}

func (g *gen) seq(depth int, left bool) *Expr {
	n := 2 + pbt.Uniform(g.t, "nseq", 3)
	if pbt.Chance(g.t, "wide", 4) {
		n, depth = 5+pbt.Uniform(g.t, "nwide", 12), 1
		if pbt.Chance(g.t, "wider", 20) {
			n += pbt.Uniform(g.t, "nwider", 60)
		}
	}
	e := &Expr{K: Seq}
	labelled := g.o.Labels && pbt.Chance(g.t, "labels?", 35)
	for i := 0; i < n; i++ {
		k := g.expr(depth-1, left, false)
		if !g.nullable(k) {
			left = false
		}
		e.E = append(e.E, k)
	}
	if g.o.Shapes || g.o.Labels {
		g.fixSeq(e, labelled)
	}
	return e
}

func (g *gen) label() string {
	if g.lbl > 0 && pbt.Chance(g.t, "samelabel", 8) {
		defer func(n int) { g.lbl = n }(g.lbl)
		g.lbl = pbt.Uniform(g.t, "which", g.lbl)
	}
	g.lbl++
	pool := []string{"x", "y", "z", "left", "k_1", "w.w", "op", "v"}
	return pool[(g.lbl-1)%len(pool)] + strings.Repeat("q", (g.lbl-1)/len(pool))
}

// wrap hides a group whose production inside of a sequence is not documented:
// a repetition of exactly one of it has the same language.
func once(k *Expr) *Expr { return Rp(k, nil, 1, 1) }

func hasLabel(e *Expr) bool {
	found := false
	e.Walk(func(k *Expr) { found = found || k.L != "" })
	return found
}

// fixSeq makes the production of a sequence one which the documentation defines.
func (g *gen) fixSeq(e *Expr, labelled bool) {
	capturing, odd := 0, false
	for i, k := range e.E {
		in := k
		if k.K == Opt {
			in = k.E[0]
			for in.K == Opt {
				in = in.E[0]
			}
		}
		sh := Shape(k)
		bad := in.K == Seq && (sh.count == 0 || len(Shape(in).labels) > 0)
		// labels of alternatives do not reach the sequence
		bad = bad || in.K == Alt && hasLabelledAlt(in)
		if bad {
			e.E[i] = once(k)
			k = e.E[i]
			sh = Shape(k)
		}
		if sh.captures {
			capturing++
			odd = odd || sh.count != 1
		}
	}
	if odd && capturing < 2 {
		for i, k := range e.E {
			if sh := Shape(k); sh.captures && sh.count != 1 {
				e.E[i] = once(k)
			}
		}
	}
	if labelled {
		some := false
		for i, k := range e.E {
			if k.K == Look || k.K == Not || k.L != "" {
				continue
			}
			if pbt.Bool(g.t, "label") {
				e.E[i] = Lb(g.label(), k)
				some = some || k.K != Seq
			}
		}
		if !some {
			for i, k := range e.E {
				if e.E[i].L == "" && k.K != Look && k.K != Not && k.K != Seq {
					e.E[i] = Lb(g.label(), k)
					some = true
					break
				}
			}
		}
		if !some { // only groups, lookaheads: take the labels back
			for i, k := range e.E {
				if k.L != "" {
					c := *k
					c.L = ""
					e.E[i] = &c
				}
			}
			return
		}
		// a further optional group with labels, merged into the map
		if pbt.Chance(g.t, "optlabels", 25) {
			grp := Sq(Lb(g.label(), g.leaf()), Lb(g.label(), g.leaf()))
			if grp.K == Seq && pbt.Bool(g.t, "sep") {
				grp.E = append([]*Expr{S(",")}, grp.E...)
			}
			if pbt.Chance(g.t, "single", 35) {
				grp = Lb(g.label(), g.leaf())
			}
			opt := Op(grp)
			if pbt.Bool(g.t, "front") {
				e.E = append([]*Expr{opt}, e.E...)
			} else {
				e.E = append(e.E, opt)
			}
		}
	}
}

func (g *gen) leaf() *Expr {
	if pbt.Bool(g.t, "leaf") {
		return C("a-c")
	}
	return S(pbt.Pick(g.t, "str", []string{"a", "b", "é"}))
}

func hasLabelledAlt(e *Expr) bool {
	for _, k := range e.E {
		if k.L != "" || k.K == Alt && hasLabelledAlt(k) {
			return true
		}
	}
	return false
}

// topLabel labels a whole rule, or the alternatives of a rule, sometimes.
func (g *gen) topLabel(e *Expr) *Expr {
	if !g.o.Labels {
		return e
	}
	if pbt.Chance(g.t, "toplabel", 15) {
		switch e.K {
		case Ref, Rep, Cls, Re, Str, Opt:
			if e.L == "" {
				return Lb(g.label(), e)
			}
		case Alt:
			c := *e
			c.E = append([]*Expr{}, e.E...)
			for i, k := range c.E {
				switch k.K {
				case Ref, Rep, Cls, Re, Str:
					if k.L == "" && pbt.Bool(g.t, "altlabel") {
						c.E[i] = Lb(g.label(), k)
					}
				}
			}
			return &c
		}
	}
	return e
}

// ---- texts

// Alphabet of characters which random texts are made of.
var Alphabet = []string{"a", "b", "c", "a", "b", "0", " ", "\n", "é", "世", "'", "\\", "x", "]", "/", "|", "(", "\t"}

// Sample derives a text from a rule, following the tape. Once depth rules are
// nested the shortest way to the end is taken.
func Sample(g *Grammar, tape *pbt.TapeReader, depth int) string {
	s := &sampler{g: g, idx: g.Index(), r: tape}
	s.heights()
	var b strings.Builder
	s.expr(&b, g.Rules[0].E, depth)
	return b.String()
}

// unitRule tells the rules of the long chains which GenLR makes: going through
// them does not count as nesting.
func unitRule(name string) bool { return name[0] == 'N' && strings.Contains(name, "x") }

const noHeight = 1 << 20

type sampler struct {
	g   *Grammar
	idx map[string]int
	r   *pbt.TapeReader
	h   []int
	n   int // steps, as what derives nothing is not stopped by the length
}

func (s *sampler) heights() {
	s.h = make([]int, len(s.g.Rules))
	for i := range s.h {
		s.h[i] = noHeight
	}
	for again := true; again; {
		again = false
		for i, r := range s.g.Rules {
			if h := s.height(r.E); h < s.h[i] {
				s.h[i] = h
				again = true
			}
		}
	}
}

// height is how many rules must be nested to derive something from e.
func (s *sampler) height(e *Expr) int {
	switch e.K {
	case Ref:
		i, ok := s.idx[e.S]
		if !ok {
			return noHeight
		}
		return min(noHeight, s.h[i]+1)
	case Seq:
		h := 0
		for _, k := range e.E {
			h = max(h, s.height(k))
		}
		return h
	case Alt:
		h := noHeight
		for _, k := range e.E {
			h = min(h, s.height(k))
		}
		return h
	case Rep:
		if e.Min <= 0 {
			return 0
		}
		h := s.height(e.E[0])
		if e.Min > 1 && e.J != nil {
			h = max(h, s.height(e.J))
		}
		return h
	}
	return 0
}

func (s *sampler) expr(b *strings.Builder, e *Expr, depth int) {
	if b.Len() > 1500 || s.n > 20000 {
		return
	}
	s.n++
	switch e.K {
	case Str:
		b.WriteString(e.S)
	case Cls, Re:
		c := Candidates(e)
		if len(c) > 0 {
			b.WriteString(c[s.r.Next(len(c))])
		}
	case Ref:
		i := s.idx[e.S]
		if depth <= 0 && s.h[i] >= noHeight {
			return
		}
		if !unitRule(e.S) {
			depth--
		}
		s.expr(b, s.g.Rules[i].E, depth)
	case Seq:
		for _, k := range e.E {
			s.expr(b, k, depth)
		}
	case Alt:
		if depth <= 0 {
			best := e.E[0]
			for _, k := range e.E {
				if s.height(k) < s.height(best) {
					best = k
				}
			}
			s.expr(b, best, depth)
			return
		}
		s.expr(b, e.E[s.r.Next(len(e.E))], depth)
	case Opt:
		if depth > 0 && s.r.Next(3) > 0 {
			s.expr(b, e.E[0], depth)
		}
	case Rep:
		lo := e.Min
		if lo < 0 {
			lo = 0
		}
		n := lo
		if depth > 0 {
			if v := s.r.Next(20); v >= 4 {
				n = lo + v%3
				if v == 19 {
					n = lo + 7
					if s.r.Next(4) == 3 {
						n += s.r.Next(50)
					}
				}
			}
			if e.Max >= 0 && n > e.Max {
				n = e.Max
				if s.r.Next(6) == 5 {
					n++
				}
			}
		}
		again := e.J != nil && depth > 0 && s.r.Next(12) == 11
		for i := 0; i < n; i++ {
			if i > 0 && e.J != nil {
				s.expr(b, e.J, depth)
			}
			s.expr(b, e.E[0], depth)
		}
		if again {
			s.expr(b, e.J, depth)
		}
	case Look:
		// what follows should start with it: nothing to add
	}
}

var candCache = map[string][]string{}

// Candidates lists short texts matched by a class or a regular expression.
func Candidates(e *Expr) []string {
	key := e.K + e.S
	if c, ok := candCache[key]; ok {
		return c
	}
	re := Regexp(e)
	var out []string
	try := []string{"a", "b", "c", "ab", "aa", "aaa", "aab", "bb", "abab", "ac", "bc", "A", "0", "42", " ", "\n", "é", "éé", "世", "]", "[", "\\", "-", "/", "a/", "'", "_", "\x01", "z", "\t", "  ", "abc", ".", "Éa", "aXb", "a\nb", "É", "ab ab", "a.b", "ü", "+", "?", "$", "^", "{", "'b a'", "Ab",
		strings.Repeat("a", 40), strings.Repeat("ab", 33), strings.Repeat("é", 30), "a b c\nd e"}
	for _, s := range try {
		if loc := re.FindStringIndex(s); loc != nil && loc[1] == len(s) {
			out = append(out, s)
		}
	}
	candCache[key] = out
	return out
}

// Mutate edits a text following the tape.
func Mutate(s string, r *pbt.TapeReader, n int) string {
	for i := 0; i < n; i++ {
		runes := []rune(s)
		at := r.Next(len(runes) + 1)
		switch r.Next(6) {
		case 0: // insert
			c := Alphabet[r.Next(len(Alphabet))]
			s = string(runes[:at]) + c + string(runes[at:])
		case 1: // delete
			if at < len(runes) {
				s = string(runes[:at]) + string(runes[at+1:])
			}
		case 2: // replace
			if at < len(runes) {
				c := Alphabet[r.Next(len(Alphabet))]
				s = string(runes[:at]) + c + string(runes[at+1:])
			}
		case 3: // truncate
			s = string(runes[:at])
		case 4: // duplicate a slice
			end := at + r.Next(4)
			if end > len(runes) {
				end = len(runes)
			}
			s = string(runes[:end]) + string(runes[at:end]) + string(runes[end:])
		case 5: // swap
			if at+1 < len(runes) {
				runes[at], runes[at+1] = runes[at+1], runes[at]
				s = string(runes)
			}
		}
	}
	return s
}

// GenTexts draws texts for a grammar: derived ones, edited ones, random ones.
func GenTexts(t *rapid.T, g *Grammar, n int) []pbt.Text {
	out := make([]pbt.Text, 0, n)
	for i := 0; i < n; i++ {
		out = append(out, GenText(t, g))
	}
	return out
}

func GenText(t *rapid.T, g *Grammar) pbt.Text {
	switch pbt.Uniform(t, "textkind", 10) {
	case 0:
		r := &pbt.TapeReader{T: pbt.Tape(t, "random", 12)}
		var b strings.Builder
		for !r.Done() {
			b.WriteString(Alphabet[r.Next(len(Alphabet))])
		}
		return pbt.Text(b.String())
	case 1, 2, 3:
		r := &pbt.TapeReader{T: pbt.FullTape(t, "tape", 30)}
		s := Sample(g, r, 6)
		m := &pbt.TapeReader{T: pbt.FullTape(t, "edits", 12)}
		return pbt.Text(Mutate(s, m, 1+pbt.Uniform(t, "nedits", 3)))
	case 4:
		r := &pbt.TapeReader{T: pbt.FullTape(t, "tape", 90)}
		return pbt.Text(Sample(g, r, 12))
	default:
		r := &pbt.TapeReader{T: pbt.FullTape(t, "tape", 24)}
		return pbt.Text(Sample(g, r, 5))
	}
}

// ValidRegexp tells whether a class or expression compiles.
func ValidRegexp(src string) bool {
	_, e := syntax.Parse(src, syntax.Perl)
	return e == nil
}

// Twins gives some rules a twin: a rule having the same expression and another
// callback, both being declared from the very same inner line. One of the references
// to the rule becomes one to the twin.
func Twins(t *rapid.T, g *Grammar) *Grammar {
	n := len(g.Rules)
	if n < 2 || !pbt.Chance(t, "twins", 35) || Merges(g) {
		return g
	}
	if g.Decl == nil {
		g.Decl = make([]int, n)
	}
	for k := 1 + pbt.Uniform(t, "ntwins", 2); k > 0; k-- {
		i := 1 + pbt.Uniform(t, "twin", n-1)
		r := g.Rules[i]
		var refs []*Expr
		seen := map[*Expr]bool{}
		var walk func(e *Expr)
		walk = func(e *Expr) {
			if e == nil || seen[e] {
				return
			}
			seen[e] = true
			if e.K == Ref && e.S == r.Name {
				refs = append(refs, e)
			}
			for _, x := range e.E {
				walk(x)
			}
			walk(e.J)
		}
		for _, r := range g.Rules {
			walk(r.E)
		}
		if len(refs) == 0 {
			continue
		}
		g.Decl[i] = DeclShared
		twin := r
		twin.Name += "2"
		if g.Index()[twin.Name] != 0 {
			continue
		}
		twin.CB = pbt.Pick(t, "twincb", []int{CBNone, CBNode, CBPicky})
		refs[pbt.Uniform(t, "which", len(refs))].S = twin.Name
		g.Rules = append(g.Rules, twin)
		g.Decl = append(g.Decl, DeclShared)
	}
	return g
}

// Declared makes a quarter of the grammars be declared by other means than texts.
func Declared(t *rapid.T, g *Grammar) *Grammar {
	if pbt.Chance(t, "declared", 25) {
		g.Decl = make([]int, len(g.Rules))
		for i, r := range g.Rules {
			g.Decl[i] = pbt.Uniform(t, "decl", decls)
			if r.Skip && g.Decl[i] >= DeclCompiled {
				g.Decl[i] = DeclInner
			}
		}
	}
	return g
}
