package model

import (
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"
)

// A hand-written parser of the rule language. It works on the text of one rule.

// ParseRule returns the expression a rule text denotes; ok is false when the
// text is not a rule.
func ParseRule(text string) (e *Expr, ok bool) {
	p := &ruleParser{s: text, memo: map[int]primary{}}
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(refused); is {
				e, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	e, n := p.alternation(0)
	if e == nil || n != len(text) {
		return nil, false
	}
	return e, true
}

// refused is raised for things which are errors wherever they stand.
type refused struct{}

type primary struct {
	e *Expr
	n int
}

type ruleParser struct {
	s    string
	memo map[int]primary
}

func (p *ruleParser) at(i int) byte {
	if i < len(p.s) {
		return p.s[i]
	}
	return 0
}

func (p *ruleParser) blank(i int) int {
	for p.at(i) == ' ' || p.at(i) == '\n' {
		i++
	}
	return i
}

// pipe skips blanks and one pipe; -1 when there is none
func (p *ruleParser) pipe(i int) int {
	i = p.blank(i)
	if i < len(p.s) && p.s[i] == '|' {
		return i + 1
	}
	return -1
}

// alternation reads sequences separated by pipes and the blanks that follow
func (p *ruleParser) alternation(i int) (*Expr, int) {
	at := i
	for n := p.pipe(at); n >= 0; n = p.pipe(at) {
		at = n
	}
	var alts []*Expr
	e, end := p.juxtaposed(at)
	for e != nil {
		alts = append(alts, e)
		sep := p.pipe(end)
		if sep < 0 {
			break
		}
		var n int
		if e, n = p.juxtaposed(sep); e != nil {
			end = n
		}
	}
	if len(alts) < 2 {
		// pipes are only part of a real alternation
		e, n := p.juxtaposed(i)
		if e == nil {
			return nil, 0
		}
		return e, p.blank(n)
	}
	for n := p.pipe(end); n >= 0; n = p.pipe(end) {
		end = n
	}
	return &Expr{K: Alt, E: alts}, p.blank(end)
}

// juxtaposed reads one or more units
func (p *ruleParser) juxtaposed(i int) (*Expr, int) {
	var units []*Expr
	for {
		e, n := p.unit(p.blank(i))
		if e == nil {
			break
		}
		units = append(units, e)
		i = n
	}
	switch len(units) {
	case 0:
		return nil, 0
	case 1:
		return units[0], i
	}
	return &Expr{K: Seq, E: units}, i
}

// unit reads a decorated primary with its label
func (p *ruleParser) unit(i int) (*Expr, int) {
	label := ""
	if c := p.at(i); c == '&' || c == '@' {
		label = string(c)
	} else {
		label = p.word(i)
	}
	if label == "" || p.at(i+len(label)) != ':' {
		return p.decorated(i)
	}
	e, n := p.decorated(i + len(label) + 1)
	if e == nil {
		return nil, 0
	}
	if e.L != "" {
		panic("BUG in harness: label of a labelled expression")
	}
	c := *e
	c.L = label
	return &c, n
}

func (p *ruleParser) decorated(i int) (*Expr, int) {
	e, n := p.primary(i)
	if e == nil {
		switch p.at(i) {
		case '!':
			if e, n = p.primary(i + 1); e != nil {
				return &Expr{K: Not, E: []*Expr{e}}, n
			}
		case '?':
			if e, n = p.alternation(i + 1); e != nil {
				return &Expr{K: Look, E: []*Expr{e}}, n
			}
		}
		return nil, 0
	}
	switch p.at(n) {
	case '?':
		return &Expr{K: Opt, E: []*Expr{e}}, n + 1
	case '*', '+':
		rep := &Expr{K: Rep, E: []*Expr{e}, Min: -1, Max: -1}
		if p.at(n) == '+' {
			rep.Min, rep.Plus = 1, true
		}
		n++
		if p.blank(n) == n {
			if j, m := p.primary(n); j != nil {
				rep.J, n = j, m
			}
		}
		if !rep.Plus {
			if min, max, m := p.bounds(n); m > 0 {
				rep.Min, rep.Max, n = min, max, m
			}
		}
		return rep, n
	case '{':
		if min, max, m := p.bounds(n); m > 0 {
			return &Expr{K: Rep, E: []*Expr{e}, Min: min, Max: max}, m
		}
	}
	return e, n
}

// bounds reads {m,n}; the position is 0 when there is none
func (p *ruleParser) bounds(i int) (int, int, int) {
	if p.at(i) != '{' {
		return 0, 0, 0
	}
	min, i := p.integer(p.blank(i + 1))
	i = p.blank(i)
	if p.at(i) != ',' {
		return 0, 0, 0
	}
	max, i := p.integer(p.blank(i + 1))
	i = p.blank(i)
	if p.at(i) != '}' {
		return 0, 0, 0
	}
	return min, max, i + 1
}

func (p *ruleParser) integer(i int) (int, int) {
	j := i
	for c := p.at(j); c >= '0' && c <= '9'; c = p.at(j) {
		j++
	}
	if j == i {
		return -1, i
	}
	n, e := strconv.Atoi(p.s[i:j])
	if e != nil {
		panic(refused{})
	}
	return n, j
}

var reWord = regexp.MustCompile(`^[a-zA-Z._][a-zA-Z._0-9]*`)

func (p *ruleParser) word(i int) string {
	if i >= len(p.s) {
		return ""
	}
	return reWord.FindString(p.s[i:])
}

func (p *ruleParser) primary(i int) (*Expr, int) {
	if r, ok := p.memo[i]; ok {
		return r.e, r.n
	}
	e, n := p.primaryAt(i)
	p.memo[i] = primary{e, n}
	return e, n
}

func (p *ruleParser) primaryAt(i int) (*Expr, int) {
	switch p.at(i) {
	case '(':
		at := i + 1
		if w := p.word(at); w != "" && strings.HasPrefix(p.s[at+len(w):], ": ") {
			at += len(w) + 2
		}
		e, n := p.alternation(at)
		if e == nil || p.at(n) != ')' {
			return nil, 0
		}
		n++
		if m := p.blank(n); strings.HasPrefix(p.s[m:], "->") {
			m = p.blank(m + 2)
			if p.at(m) == '{' {
				if _, m := p.quoted(m, '}', true); m > 0 {
					panic(refused{}) // code is not supported
				}
			}
		}
		// grouping means nothing by itself, but is an element of its own for labels
		c := *e
		return unlabelled(&c), n
	case '\'':
		if s, n := p.quoted(i, '\'', true); n > 0 {
			return &Expr{K: Str, S: s}, n
		}
		return nil, 0
	case '/', '[':
		end := p.at(i)
		if end == '[' {
			end = ']'
		}
		s, n := p.quoted(i, end, false)
		if n == 0 {
			return nil, 0
		}
		if end == ']' {
			if _, e := regexp.Compile("([" + s + "])"); e != nil {
				panic(refused{})
			}
			return &Expr{K: Cls, S: s}, n
		}
		if _, e := regexp.Compile("(" + s + ")"); e != nil {
			panic(refused{})
		}
		return &Expr{K: Re, S: s}, n
	}
	w := p.word(i)
	if w == "" {
		return nil, 0
	}
	n := i + len(w)
	if p.at(n) == '(' {
		if e, m := p.alternation(n + 1); e != nil && p.at(m) == ')' {
			return &Expr{K: Ref, S: w, J: e}, m + 1
		}
	}
	return &Expr{K: Ref, S: w}, n
}

// unlabelled marks a group whose content has a label
func unlabelled(e *Expr) *Expr {
	if e.L != "" {
		return &Expr{K: Group, E: []*Expr{e}}
	}
	return e
}

// Group is a parenthesized expression which has a label inside of it: (a:b)
const Group = "group"

// quoted reads up to an unescaped end; the position is 0 when there is none
func (p *ruleParser) quoted(i int, end byte, unescape bool) (string, int) {
	var b strings.Builder
	for i++; i < len(p.s); {
		c := p.s[i]
		if c == end {
			return b.String(), i + 1
		}
		if c == '\\' && i+1 < len(p.s) {
			_, w := utf8.DecodeRuneInString(p.s[i+1:])
			if !unescape {
				b.WriteByte('\\')
			}
			b.WriteString(p.s[i+1 : i+1+w])
			i += 1 + w
			continue
		}
		_, w := utf8.DecodeRuneInString(p.s[i:])
		b.WriteString(p.s[i : i+w])
		i += w
	}
	return "", 0
}

// Parenthesized writes an expression with every part between parentheses. Nothing
// is left to precedence.
func Parenthesized(e *Expr) string {
	label := ""
	if e.L != "" {
		label = e.L + ":"
	}
	in := func(k *Expr) string { return "(" + Parenthesized(k) + ")" }
	if label != "" {
		c := *e
		c.L = ""
		return label + in(&c)
	}
	switch e.K {
	case Group:
		return "(" + Parenthesized(e.E[0]) + ")"
	case Str, Cls, Re:
		return Render(e, nil)
	case Ref:
		if e.J != nil {
			return e.S + in(e.J)
		}
		return e.S
	case Opt:
		return in(e.E[0]) + "?"
	case Not:
		return "!" + in(e.E[0])
	case Look:
		return "(?" + in(e.E[0]) + ")"
	case Rep:
		s := in(e.E[0]) + "*"
		if e.J != nil {
			s += in(e.J)
		}
		if e.Min >= 0 || e.Max >= 0 {
			s += "{"
			if e.Min >= 0 {
				s += strconv.Itoa(e.Min)
			}
			s += ","
			if e.Max >= 0 {
				s += strconv.Itoa(e.Max)
			}
			s += "}"
		}
		return s
	}
	sep := " "
	if e.K == Alt {
		sep = " | "
	}
	var parts []string
	for _, k := range e.E {
		if k.L != "" {
			parts = append(parts, Parenthesized(k)) // already a unit
		} else {
			parts = append(parts, in(k))
		}
	}
	return strings.Join(parts, sep)
}
