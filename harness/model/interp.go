package model

import (
	"hash/fnv"
	"strconv"
	"strings"
)

// What the callback of a rule does.
const (
	CBNone   = 0
	CBNode   = 1 // wraps the production in a new node
	CBPass   = 2 // returns the production
	CBPicky  = 3 // returns nothing for about a third of the productions, else a node
	CBConcat = 4 // returns a string: the canonical text of the production
	CBGrow   = 5 // adds an element to the array or the map, which it returns
)

// Picky tells whether a CBPicky callback refuses a production.
func Picky(canon string) bool {
	h := fnv.New32a()
	h.Write([]byte(canon))
	return h.Sum32()%3 == 0
}

// Event is an invocation of a callback.
type Event struct {
	Rule string
	End  int
	It   string // canonical production
}

type memoKey struct{ rule, pos int }

type outcome struct {
	v   *Val
	end int
	ok  bool
}

// seed is the match of a left-recursive rule which is growing.
type seed struct {
	outcome
	used bool // the rule did refer to itself
}

type Interp struct {
	G    *Grammar
	Text string
	// Log lists callback invocations in order.
	Log []Event
	// Matched[pos] is set when some rule (with cache) matched at pos.
	Matched []bool
	// Evals counts the evaluations of rules.
	Evals int
	// Limit bounds Evals (0: none); Exceeded tells it was reached.
	Limit    int
	Exceeded bool
	// Grown is the largest number of times a left-recursive rule grew.
	Grown int

	index map[string]int
	scc   []int  // strongly connected component of each rule in the leftmost-call graph
	lr    []bool // the rule is part of a left-recursive cycle
	memo  map[memoKey]outcome
	grow  map[memoKey]*seed
	// growing heads: component -> positions
	growing map[memoKey]int // {component,pos} -> count
	info    map[*Expr]*shape
	lines   []int
}

// Result of a parse.
type Result struct {
	OK       bool
	V        *Val
	Stop     int // where the start rule stopped (0 when it failed)
	Matched  bool
	Furthest int // furthest position >= Stop where some rule matched
}

func NewInterp(g *Grammar, text string) *Interp {
	p := &Interp{G: g, Text: text, index: g.Index(), memo: map[memoKey]outcome{}, grow: map[memoKey]*seed{}, growing: map[memoKey]int{}, info: map[*Expr]*shape{}}
	p.Matched = make([]bool, len(text)+1)
	p.scc, p.lr = LeftGraph(g)
	p.lines = []int{0}
	for i := 0; i < len(text); i++ {
		if text[i] == '\n' {
			p.lines = append(p.lines, i+1)
		}
	}
	return p
}

// Parse runs the start rule on the whole text.
func (p *Interp) Parse() Result {
	o := p.rule(0, 0)
	r := Result{Matched: o.ok}
	if o.ok {
		r.Stop = o.end
		r.OK = o.end == len(p.Text)
		r.V = o.v
	}
	r.Furthest = r.Stop
	for i := r.Stop; i <= len(p.Text); i++ {
		if p.Matched[i] {
			r.Furthest = i
		}
	}
	return r
}

// LineCol gives the 0-based line and byte column of an offset.
func LineCol(text string, off int) (int, int) {
	line, start := 0, 0
	for i := 0; i < off; i++ {
		if text[i] == '\n' {
			line++
			start = i + 1
		}
	}
	return line, off - start
}

func (p *Interp) line(off int) int { return strings.Count(p.Text[:off], "\n") }

func (p *Interp) rule(i, pos int) outcome {
	if p.Exceeded {
		return outcome{}
	}
	r := &p.G.Rules[i]
	k := memoKey{i, pos}
	if p.lr[i] {
		if s, ok := p.grow[k]; ok {
			s.used = true
			return s.outcome // what was grown so far
		}
		if o, ok := p.memo[k]; ok {
			return o
		}
		gk := memoKey{p.scc[i], pos}
		// An inner rule of a cycle which is growing depends upon the outer seed:
		// it grows in its turn when it refers to itself, and is never remembered.
		inner := p.growing[gk] > 0
		p.growing[gk]++
		s := &seed{}
		p.grow[k] = s
		for n := 0; ; n++ {
			if n > 0 {
				p.Grown = max(p.Grown, n-1)
			}
			o := p.body(i, pos)
			if !o.ok || s.ok && o.end <= s.end {
				break
			}
			s.outcome = o
			if !s.used {
				break // did not refer to itself
			}
		}
		delete(p.grow, k)
		p.growing[gk]--
		if inner {
			return s.outcome
		}
		p.memo[k] = s.outcome
		if s.ok {
			p.Matched[pos] = true
		}
		return s.outcome
	}
	if !r.Skip {
		if o, ok := p.memo[k]; ok {
			return o
		}
	}
	o := p.body(i, pos)
	if !r.Skip {
		p.memo[k] = o
		if o.ok {
			p.Matched[pos] = true
		}
	}
	return o
}

func (p *Interp) body(i, pos int) outcome {
	p.Evals++
	if p.Limit > 0 && p.Evals > p.Limit {
		p.Exceeded = true
		return outcome{}
	}
	r := &p.G.Rules[i]
	o := p.eval(r.E, pos, false)
	if !o.ok {
		return o
	}
	if r.CB != CBNone {
		canon := o.v.Canon(false)
		p.Log = append(p.Log, Event{r.Name, o.end, canon})
		switch r.CB {
		case CBPicky:
			if Picky(canon) {
				return outcome{}
			}
			o.v = p.node(r.Name, pos, o)
		case CBNode:
			o.v = p.node(r.Name, pos, o)
		case CBConcat:
			o.v = Sv(Concat(canon))
		case CBGrow:
			switch o.v.K {
			case 'A':
				o.v = Av(append(append([]*Val{}, o.v.A...), Sv("grown"))...)
			case 'M':
				o.v = o.v.with("grown", Sv("grown"))
			}
		}
	}
	return o
}

func (p *Interp) node(rule string, pos int, o outcome) *Val {
	return &Val{K: 'N', Rule: rule, Start: pos, End: o.end, Line: p.line(o.end), A: []*Val{o.v}}
}

// eval evaluates an expression. inSeq: the labels of e are handled by the
// sequence which contains it.
func (p *Interp) eval(e *Expr, pos int, inSeq bool) outcome {
	o := p.eval1(e, pos, inSeq)
	if o.ok && e.L != "" && !inSeq {
		o.v = (&Val{K: 'M'}).with(e.L, o.v)
	}
	return o
}

func (p *Interp) eval1(e *Expr, pos int, inSeq bool) outcome {
	switch e.K {
	case Str:
		if strings.HasPrefix(p.Text[pos:], e.S) {
			return outcome{Sv(e.S), pos + len(e.S), true}
		}
		return outcome{}
	case Cls, Re:
		loc := Regexp(e).FindStringIndex(p.Text[pos:])
		if loc == nil {
			return outcome{}
		}
		return outcome{Sv(p.Text[pos : pos+loc[1]]), pos + loc[1], true}
	case Ref:
		i, ok := p.index[e.S]
		if !ok {
			panic("BUG in harness: no rule " + e.S)
		}
		return p.rule(i, pos)
	case Alt:
		for _, k := range e.E {
			if o := p.eval(k, pos, false); o.ok {
				return o
			}
		}
		return outcome{}
	case Opt:
		if o := p.eval(e.E[0], pos, false); o.ok {
			return o
		}
		return outcome{Undef, pos, true}
	case Not:
		if p.eval(e.E[0], pos, false).ok {
			return outcome{}
		}
		return outcome{Undef, pos, true}
	case Look:
		if p.eval(e.E[0], pos, false).ok {
			return outcome{Undef, pos, true}
		}
		return outcome{}
	case Rep:
		return p.rep(e, pos)
	case Seq:
		return p.seq(e, pos)
	}
	panic("BUG in harness: eval " + e.K)
}

func (p *Interp) rep(e *Expr, pos int) outcome {
	vals := []*Val{}
	at := pos
	for e.Max < 0 || len(vals) < e.Max {
		next := at
		if len(vals) > 0 && e.J != nil {
			j := p.eval(e.J, next, false)
			if !j.ok {
				break
			}
			next = j.end
		}
		o := p.eval(e.E[0], next, false)
		if !o.ok {
			break
		}
		// an empty occurrence could be repeated for ever: no more of them than needed
		if o.end == at && len(vals) > 0 && len(vals) >= e.Min {
			break
		}
		vals = append(vals, o.v)
		at = o.end
	}
	if len(vals) < e.Min {
		return outcome{}
	}
	return outcome{Av(vals...), at, true}
}

func (p *Interp) seq(e *Expr, pos int) outcome {
	sh := p.shape(e)
	at := pos
	var single *Val
	var arr []*Val
	m := &Val{K: 'M'}
	got := false
	for _, k := range e.E {
		o := p.eval(k, at, true)
		if !o.ok {
			return outcome{}
		}
		at = o.end
		if len(sh.labels) > 0 {
			if k.L == "@" || k.L == "&" {
				// the map of another rule: its keys replace those of this map, or
				// are completed by them
				if o.v.K == 'M' {
					from, over := m, o.v
					if k.L == "&" {
						from, over = o.v, m
					}
					for i, key := range over.Keys {
						from = from.with(key, over.A[i])
					}
					m = from
					got = true
				} else if o.v.K != 'U' {
					panic("BUG in harness: " + k.L + " on something else than a map")
				}
			} else if k.L != "" {
				m = m.with(k.L, o.v)
				got = true
			} else if k.K == Opt && len(p.shape(k).labels) > 0 {
				// labels inside of an optional group belong to this map
				if o.v.K == 'M' {
					for i, key := range o.v.Keys {
						m = m.with(key, o.v.A[i])
					}
					got = true
				}
			}
			continue
		}
		if p.shape(k).captures {
			single = o.v
			arr = append(arr, o.v)
		}
	}
	switch {
	case len(sh.labels) > 0:
		if !got {
			return outcome{Undef, at, true}
		}
		return outcome{m, at, true}
	case sh.count > 1:
		return outcome{Av(arr...), at, true}
	case single == nil:
		return outcome{Undef, at, true}
	}
	return outcome{single, at, true}
}

// shape: what an element contributes to the production of the sequence holding it
type shape struct {
	captures bool
	count    int // how many captured elements, seen from the enclosing sequence
	labels   []string
}

func (p *Interp) shape(e *Expr) *shape {
	if s, ok := p.info[e]; ok {
		return s
	}
	s := Shape(e)
	p.info[e] = s
	return s
}

func Shape(e *Expr) *shape {
	s := &shape{}
	switch e.K {
	case Cls, Re:
		s.captures = true
	case Ref:
		s.captures = e.S[0] != '_'
	case Alt:
		s.captures = true
		for _, k := range e.E {
			s.captures = s.captures && Shape(k).captures
		}
	case Rep:
		// decided by what is repeated
		k := e.E[0]
		switch k.K {
		case Str, Not, Look:
		case Ref:
			s.captures = k.S[0] != '_'
		case Rep:
			s.captures = Shape(k).captures
		default:
			s.captures = true
		}
	case Seq:
		s.captures = true
		for _, k := range e.E {
			x := Shape(k)
			s.count += x.count
			s.labels = append(s.labels, x.labels...)
		}
		return s
	case Opt:
		x := Shape(e.E[0])
		s.count = x.count
		s.captures = s.count > 0
		if e.L != "" {
			s.labels = []string{e.L}
		} else {
			s.labels = x.labels
		}
		return s
	}
	if s.captures {
		s.count = 1
	}
	if e.L != "" {
		s.labels = []string{e.L}
	}
	return s
}

// Nullable tells for each rule whether it may match without consuming
// (over-approximated).
func Nullable(g *Grammar) []bool {
	idx := g.Index()
	null := make([]bool, len(g.Rules))
	for again := true; again; {
		again = false
		for i, r := range g.Rules {
			if !null[i] && nullable(r.E, null, idx) {
				null[i] = true
				again = true
			}
		}
	}
	return null
}

func nullable(e *Expr, null []bool, idx map[string]int) bool {
	switch e.K {
	case Str:
		return e.S == ""
	case Cls:
		return false
	case Re:
		// could match empty with some following text: \b, $, a*, ...
		for _, s := range []string{"", "a", "b", "0", " ", "\n", "é"} {
			if loc := Regexp(e).FindStringIndex(s); loc != nil && loc[1] == 0 {
				return true
			}
		}
		return false
	case Ref:
		return null[idx[e.S]]
	case Alt:
		for _, k := range e.E {
			if nullable(k, null, idx) {
				return true
			}
		}
		return false
	case Seq:
		for _, k := range e.E {
			if !nullable(k, null, idx) {
				return false
			}
		}
		return true
	case Opt, Not, Look:
		return true
	case Rep:
		if e.Min <= 0 || e.Max == 0 {
			return true
		}
		return nullable(e.E[0], null, idx)
	}
	panic("BUG in harness: nullable " + e.K)
}

// LeftGraph computes the strongly connected components of the graph "rule may
// call rule without having consumed anything", and which rules are in a cycle.
func LeftGraph(g *Grammar) (scc []int, lr []bool) {
	n := len(g.Rules)
	idx := g.Index()
	null := Nullable(g)
	adj := make([]map[int]bool, n)
	var left func(e *Expr, out map[int]bool)
	left = func(e *Expr, out map[int]bool) {
		switch e.K {
		case Ref:
			out[idx[e.S]] = true
		case Seq:
			for _, k := range e.E {
				left(k, out)
				if !nullable(k, null, idx) {
					return
				}
			}
		case Rep:
			left(e.E[0], out)
			if e.J != nil && nullable(e.E[0], null, idx) {
				left(e.J, out)
			}
		default:
			for _, k := range e.E {
				left(k, out)
			}
		}
	}
	for i, r := range g.Rules {
		adj[i] = map[int]bool{}
		left(r.E, adj[i])
	}
	// transitive closure: grammars are small
	reach := make([][]bool, n)
	for i := range reach {
		reach[i] = make([]bool, n)
		stack := []int{i}
		for len(stack) > 0 {
			x := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			for y := range adj[x] {
				if !reach[i][y] {
					reach[i][y] = true
					stack = append(stack, y)
				}
			}
		}
	}
	scc = make([]int, n)
	lr = make([]bool, n)
	for i := range scc {
		scc[i] = i
		lr[i] = reach[i][i]
		for j := 0; j < i; j++ {
			if reach[i][j] && reach[j][i] {
				scc[i] = scc[j]
				break
			}
		}
	}
	return
}

// Concat is what a CBConcat callback returns.
func Concat(canon string) string {
	if len(canon) > 40 {
		h := fnv.New64a()
		h.Write([]byte(canon))
		return "#" + strconv.FormatUint(h.Sum64(), 36)
	}
	return canon
}
