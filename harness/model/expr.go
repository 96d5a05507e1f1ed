// Package model is an independent description of joeson: the rule language
// (expressions and how they are written) and the meaning of expressions.
package model

import (
	"regexp"
	"strconv"
	"strings"
)

// Kinds of expressions.
const (
	Str  = "str"  // 'S'
	Cls  = "cls"  // [S]
	Re   = "re"   // /S/
	Ref  = "ref"  // S
	Seq  = "seq"  // E0 E1 ..
	Alt  = "alt"  // E0 | E1 ..
	Opt  = "opt"  // E0?
	Rep  = "rep"  // E0*J{Min,Max} or E0+J
	Not  = "not"  // !E0
	Look = "look" // (?E0)
)

type Expr struct {
	K    string  `json:"k"`
	S    string  `json:"s,omitempty"`
	E    []*Expr `json:"e,omitempty"`
	J    *Expr   `json:"j,omitempty"`
	Min  int     `json:"min,omitempty"` // -1: unspecified
	Max  int     `json:"max,omitempty"`
	Plus bool    `json:"plus,omitempty"` // written with +; Min is 1, Max is -1
	L    string  `json:"l,omitempty"`    // label
}

type Rule struct {
	Name string `json:"n"`
	E    *Expr  `json:"e"`
	CB   int    `json:"cb,omitempty"`
	Skip bool   `json:"skip,omitempty"` // SkipCache
}

// Grammar is a set of rules; the first one is the start.
type Grammar struct {
	Rules []Rule `json:"rules"`
	// unused rules declared before (positive) or after (negative) those which are
	// not the start, so that rules have large numbers
	Pad int `json:"pad,omitempty"`
	// how each rule is declared: as a text, or one of the Decl constants
	Decl []int `json:"decl,omitempty"`
}

const (
	DeclText     = iota
	DeclLine     // a line inside of the line
	DeclInner    // the same, the callback and options being given to the inner line
	DeclCompiled // the text was compiled beforehand
	DeclBoth     // compiled beforehand, in an inner line which has the callback
	decls
	DeclShared = decls // a line inside of the line, the same one for all rules with that text
)

func (g *Grammar) Index() map[string]int {
	m := map[string]int{}
	for i, r := range g.Rules {
		m[r.Name] = i
	}
	return m
}

func S(s string) *Expr           { return &Expr{K: Str, S: s} }
func C(s string) *Expr           { return &Expr{K: Cls, S: s} }
func X(s string) *Expr           { return &Expr{K: Re, S: s} }
func R(s string) *Expr           { return &Expr{K: Ref, S: s} }
func Sq(e ...*Expr) *Expr        { return &Expr{K: Seq, E: e} }
func Al(e ...*Expr) *Expr        { return &Expr{K: Alt, E: e} }
func Op(e *Expr) *Expr           { return &Expr{K: Opt, E: []*Expr{e}} }
func No(e *Expr) *Expr           { return &Expr{K: Not, E: []*Expr{e}} }
func Lo(e *Expr) *Expr           { return &Expr{K: Look, E: []*Expr{e}} }
func St(e, j *Expr) *Expr        { return &Expr{K: Rep, E: []*Expr{e}, J: j, Min: -1, Max: -1} }
func Pl(e, j *Expr) *Expr        { return &Expr{K: Rep, E: []*Expr{e}, J: j, Min: 1, Max: -1, Plus: true} }
func Lb(l string, e *Expr) *Expr { c := *e; c.L = l; return &c }
func Rp(e, j *Expr, min, max int) *Expr {
	return &Expr{K: Rep, E: []*Expr{e}, J: j, Min: min, Max: max}
}

// Kids lists the direct sub-expressions.
func (e *Expr) Kids() []*Expr {
	if e.J != nil {
		return append(append([]*Expr{}, e.E...), e.J)
	}
	return e.E
}

func (e *Expr) Size() int {
	n := 1
	for _, k := range e.Kids() {
		n += k.Size()
	}
	return n
}

func (e *Expr) Walk(f func(*Expr)) {
	f(e)
	for _, k := range e.Kids() {
		k.Walk(f)
	}
}

func (e *Expr) Clone() *Expr {
	c := *e
	c.E = nil
	for _, k := range e.E {
		c.E = append(c.E, k.Clone())
	}
	if e.J != nil {
		c.J = e.J.Clone()
	}
	return &c
}

// Layout decides how an expression is written. The zero value is the most
// compact spelling; a tape of numbers selects among the equivalent ones.
type Layout struct {
	Tape []int
	i    int
	// Esc allows redundant escapes in strings, Par redundant parentheses,
	// Pipes leading and trailing pipes.
	Par, Pipes, Esc, Space bool
	// Bare allows ?e instead of (?e) where this means the same
	Bare bool
	// PlainPostfix writes e+ as e*{1,} or e{1,} and the like
	Ranges bool
}

func FreeLayout(tape []int) *Layout {
	return &Layout{Tape: tape, Par: true, Pipes: true, Esc: true, Space: true, Bare: true, Ranges: true}
}

func (l *Layout) next(n int) int {
	if l == nil || len(l.Tape) == 0 || n <= 1 {
		return 0
	}
	v := l.Tape[l.i%len(l.Tape)]
	l.i++
	// vary on each cycle through the tape
	v += (l.i / len(l.Tape)) * 7
	return v % n
}

var spaces = []string{"", " ", "\n", "  ", " \n ", "\n\n", "   \n", "          \n\n\n\n         \n"}

// run is how many times something is repeated: seldom, up to 9
func (l *Layout) run() int {
	return [...]int{0, 0, 0, 0, 1, 1, 2, 3, 5, 9}[l.next(10)]
}

// sp is optional white space
func (l *Layout) sp() string {
	if l == nil || !l.Space {
		return ""
	}
	return spaces[l.next(len(spaces))]
}

// must is white space of at least one character
func (l *Layout) must() string {
	if l == nil || !l.Space {
		return " "
	}
	return spaces[1+l.next(len(spaces)-1)]
}

const (
	lvExpr = iota // an alternation may come here
	lvSeq         // a sequence
	lvUnit        // a unit, maybe labelled or decorated
	lvPrim        // only primaries
)

func level(e *Expr) int {
	if e.L != "" {
		return lvUnit
	}
	switch e.K {
	case Alt:
		return lvExpr
	case Seq:
		return lvSeq
	case Opt, Rep, Not, Look:
		return lvUnit
	}
	return lvPrim
}

// Render writes an expression as the text of a rule.
func Render(e *Expr, l *Layout) string {
	lead := ""
	tail := ""
	if l != nil && l.Space {
		lead, tail = l.sp(), l.sp()
	}
	return lead + l.render(e, lvExpr, true) + tail
}

// last tells whether nothing follows e in the enclosing EXPR
func (l *Layout) render(e *Expr, lv int, last bool) string {
	if level(e) < lv {
		return l.parens(e)
	}
	if l != nil && l.Par && e.L == "" && l.next(9) == 8 {
		return l.parens(e)
	}
	if e.L != "" {
		c := *e
		c.L = ""
		if level(&c) < lvUnit {
			return e.L + ":" + l.parens(&c)
		}
		return e.L + ":" + l.renderBare(&c, lvUnit, false)
	}
	return l.renderBare(e, lv, last)
}

func (l *Layout) parens(e *Expr) string {
	sp1, sp2 := "", ""
	if l != nil {
		sp1, sp2 = l.sp(), l.sp()
	}
	in := l.render(e, lvExpr, true)
	// (?e) alone would be another lookahead: still the same meaning, but only
	// when it is what was meant
	return "(" + sp1 + in + sp2 + ")"
}

func (l *Layout) renderBare(e *Expr, lv int, last bool) string {
	switch e.K {
	case Str:
		return "'" + l.escapeStr(e.S) + "'"
	case Cls:
		return "[" + e.S + "]"
	case Re:
		return "/" + e.S + "/"
	case Ref:
		return e.S
	case Alt:
		var b strings.Builder
		lead, trail := 0, 0
		if l != nil && l.Pipes {
			lead, trail = l.next(4), l.next(4)
		}
		if lead == 3 {
			b.WriteString("|" + l.sp())
			for n := l.run(); n > 0; n-- {
				b.WriteString("|" + l.sp())
			}
		}
		for i, k := range e.E {
			if i > 0 {
				b.WriteString(l.alsp() + "|" + l.alsp())
			}
			lastAlt := i == len(e.E)-1
			b.WriteString(l.render(k, lvSeq, last && lastAlt && trail != 3))
		}
		if trail == 3 {
			b.WriteString(l.sp() + "|")
			for n := l.run(); n > 0; n-- {
				b.WriteString(l.sp() + "|")
			}
		}
		return b.String()
	case Seq:
		var b strings.Builder
		prev := ""
		for i, k := range e.E {
			s := l.render(k, lvUnit, last && i == len(e.E)-1)
			if i > 0 {
				if needSpace(prev, s) || l == nil || !l.Space {
					b.WriteString(l.must())
				} else {
					b.WriteString(l.sp())
				}
			}
			b.WriteString(s)
			prev = s
		}
		return b.String()
	case Opt:
		return l.render(e.E[0], lvPrim, false) + "?"
	case Not:
		return "!" + l.render(e.E[0], lvPrim, false)
	case Look:
		if l != nil && l.Bare && last && l.next(2) == 1 {
			return "?" + l.sp() + l.render(e.E[0], lvExpr, true)
		}
		sp1, sp2 := "", ""
		if l != nil {
			sp1, sp2 = l.sp(), l.sp()
		}
		return "(?" + sp1 + l.render(e.E[0], lvExpr, true) + sp2 + ")"
	case Rep:
		v := l.render(e.E[0], lvPrim, false)
		j := ""
		if e.J != nil {
			j = l.render(e.J, lvPrim, false)
		}
		if e.Plus {
			if l != nil && l.Ranges && l.next(4) == 3 {
				return v + "*" + j + "{1,}"
			}
			return v + "+" + j
		}
		rng := ""
		if e.Min >= 0 || e.Max >= 0 {
			min, max := "", ""
			if e.Min >= 0 {
				min = l.number(e.Min)
			}
			if e.Max >= 0 {
				max = l.number(e.Max)
			}
			if l == nil {
				rng = "{" + min + "," + max + "}"
			} else {
				rng = "{" + l.sp() + min + l.sp() + "," + l.sp() + max + l.sp() + "}"
			}
			if e.J == nil && l != nil && l.Ranges && l.next(2) == 1 {
				return v + rng
			}
		}
		return v + "*" + j + rng
	}
	panic("BUG in harness: render " + e.K)
}

func (l *Layout) alsp() string {
	if l == nil || !l.Space {
		return " "
	}
	return l.sp()
}

func (l *Layout) number(n int) string {
	s := strconv.Itoa(n)
	if l != nil && l.Ranges && l.next(5) == 4 {
		s = "0" + s
	}
	return s
}

// white space is needed where 2 units would be read as something else
func needSpace(prev, next string) bool {
	lastc := prev[len(prev)-1]
	nextc := next[0]
	// a repetition would take the next primary as its join
	if lastc == '*' || lastc == '+' {
		return true
	}
	// words: ab, a(..) is a reference with a parameter
	if isWord(lastc) && (isWord(nextc) || nextc == '(') {
		return true
	}
	// a? is an optional
	return nextc == '?'
}

func isWord(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '.' || c == '_'
}

func (l *Layout) escapeStr(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c == '\'' || c == '\\' {
			b.WriteByte('\\')
		} else if l != nil && l.Esc && l.next(8) == 7 {
			b.WriteByte('\\')
		}
		b.WriteRune(c)
	}
	return b.String()
}

var reCache = map[string]*regexp.Regexp{}

// Regexp returns the expression matched at the start of the remaining text.
func Regexp(e *Expr) *regexp.Regexp {
	src := e.S
	if e.K == Cls {
		src = "[" + src + "]"
	}
	if re, ok := reCache[src]; ok {
		return re
	}
	re := regexp.MustCompile(`\A(?:` + src + `)`)
	reCache[src] = re
	return re
}
