package props

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"regexp"
	"strconv"
	"strings"

	"verif/pbt"
)

var c23 = &pbt.Prop{
	ID: "C23",
	Rule: "A case is a session: lines given to the Lisp example (the real program, fed through its standard input), generated well-typed programs with definitions, aliases and redefinitions, in free layout, and lines which are not expressions. Every answer printed is compared with the one of an independent reader and call-by-value evaluator. " +
		"Non-trivial: at least one call of a function the session defined.",
	Assumptions: []string{
		"programs are well-typed and terminate: the example stops with a panic on the others, as written in its primitives",
		"lists hold literals: the example does not evaluate the elements of a list which is not a call",
		"numbers have at most 15 digits",
		"lines are given one at a time, and not, list? of calls, cdr of a literal empty list are not used: known findings",
	},
	Findings: []pbt.Finding{
		{ID: "pipe", Probe: func() error {
			out, e := lispPipe("(+ 1 2)\n(+ 3 4)\n")
			if e == nil && strings.Contains(out, "7.000000") {
				return nil
			}
			return errf("the second line of a pipe is not answered: %q %v", lispTail(out), e)
		}},
		{ID: "not", Probe: func() error { return lispProbe("(not 1)", "0.000000") }},
		{ID: "list-of-call", Probe: func() error { return lispProbe("(list? (+ 1 2 3))", "0.000000") }},
		{ID: "cdr-of-nothing", Probe: func() error { return lispProbe("(cdr ())", "()") }},
	},
	Families: []pbt.Family{
		pbt.Fam("session", 2000, 36000, genLispSession, checkLisp),
	},
}

// LispCase is a session.
type LispCase struct {
	Lines []pbt.Text `json:"lines"`
}

// ---- reader

type lval struct {
	k byte // n number, s string, o operator, l list
	n float64
	s string
	l []lval
}

func lnum(f float64) lval { return lval{k: 'n', n: f} }
func lbool(b bool) lval {
	if b {
		return lnum(1)
	}
	return lnum(0)
}

func (v lval) String() string {
	switch v.k {
	case 'n':
		return strconv.FormatFloat(v.n, 'f', 6, 64)
	case 's':
		return `"` + v.s + `"`
	case 'o':
		return v.s
	}
	var p []string
	for _, x := range v.l {
		p = append(p, x.String())
	}
	return "(" + strings.Join(p, " ") + ")"
}

const lispSpace = " \t\n"

var lispNumber = regexp.MustCompile(`^-?[0-9]+`)
var lispWord = regexp.MustCompile(`^[a-zA-Z._][a-zA-Z._0-9?]*`)

func lispRead(text string) (lval, bool) {
	h := &hand{s: text}
	h.skip(lispSpace)
	v, ok := lispExpr(h)
	h.skip(lispSpace)
	return v, ok && h.end()
}

func lispExpr(h *hand) (lval, bool) {
	at := h.i
	if h.eat("(") {
		v := lval{k: 'l'}
		h.skip(lispSpace)
		for {
			before := h.i
			if len(v.l) > 0 {
				h.skip(lispSpace)
				if h.i == before {
					break
				}
			}
			x, ok := lispExpr(h)
			if !ok {
				h.i = before
				break
			}
			v.l = append(v.l, x)
		}
		h.skip(lispSpace)
		if h.eat(")") {
			return v, true
		}
		h.i = at
		return lval{}, false
	}
	if h.eat(`"`) {
		if n := strings.IndexByte(h.s[h.i:], '"'); n >= 0 {
			v := lval{k: 's', s: h.s[h.i : h.i+n]}
			h.i += n + 1
			return v, true
		}
		h.i = at
		return lval{}, false
	}
	if s, ok := h.re(lispNumber); ok {
		n, e := strconv.ParseInt(s, 10, 64)
		if e != nil || len(s) > 16 {
			panic(lispOut("a big number"))
		}
		return lnum(float64(n)), true
	}
	if s, ok := h.re(lispWord); ok {
		return lval{k: 'o', s: s}, true
	}
	for _, s := range []string{"+", "-", "*", "/", "%", ">=", "<=", "!=", "==", "<", ">", "="} {
		if h.eat(s) {
			return lval{k: 'o', s: s}, true
		}
	}
	return lval{}, false
}

// ---- evaluator: by value, with environments, whereas the example substitutes
// expressions for the names of arguments.

// lispOut is panicked with for what is out of the domain.
type lispOut string

type lispFunc struct {
	params []string
	body   lval
}

type lisp struct {
	defs    map[string]*lispFunc
	aliases map[string]string
	steps   int
	calls   int
}

var lispPrims = strings.Fields("add sub mul car cdr alias define lt le gt ge eq neq and or not if cond list? %")

func newLisp() *lisp {
	m := &lisp{defs: map[string]*lispFunc{}, aliases: map[string]string{
		"+": "add", "-": "sub", "*": "mul", "<": "lt", ">": "gt", ">=": "ge", "<=": "le", "==": "eq", "eq?": "eq", "neq?": "neq", "!=": "neq",
	}}
	for _, p := range lispPrims {
		m.defs[p] = nil
	}
	return m
}

func (m *lisp) num(x lval, env map[string]lval) float64 {
	v := m.eval(x, env)
	if v.k != 'n' {
		panic(lispOut("not a number"))
	}
	return v.n
}

func literal(x lval) bool {
	if x.k == 'o' {
		return false
	}
	for _, y := range x.l {
		if !literal(y) {
			return false
		}
	}
	return true
}

func (m *lisp) eval(x lval, env map[string]lval) lval {
	if m.steps++; m.steps > 4000 {
		panic(lispOut("too long"))
	}
	switch x.k {
	case 'o':
		if v, ok := env[x.s]; ok {
			return v
		}
		return x
	case 'n', 's':
		return x
	}
	if len(x.l) == 0 {
		return x
	}
	head := x.l[0]
	if head.k != 'o' {
		if !literal(x) {
			panic(lispOut("a list which is not a literal"))
		}
		return x
	}
	name := head.s
	if v, ok := env[name]; ok {
		if v.k != 'o' {
			panic(lispOut("a value which is called"))
		}
		name = v.s
	}
	if a, ok := m.aliases[name]; ok {
		name = a
	}
	f, ok := m.defs[name]
	if !ok {
		panic(lispOut("unknown " + name))
	}
	args := x.l[1:]
	if f != nil {
		if len(args) != len(f.params) {
			panic(lispOut("arity"))
		}
		m.calls++
		in := map[string]lval{}
		for i, p := range f.params {
			in[p] = m.eval(args[i], env)
			if in[p].k == 'o' && args[i].k != 'o' {
				panic(lispOut("a function which is not named by its argument"))
			}
		}
		return m.eval(f.body, in)
	}
	need := func(lo, hi int) {
		if len(args) < lo || hi >= 0 && len(args) > hi {
			panic(lispOut("arity"))
		}
	}
	compare := func(f func(a, b float64) bool) lval {
		need(2, -1)
		var n []float64
		for _, a := range args {
			n = append(n, m.num(a, env))
		}
		for i := 1; i < len(n); i++ {
			if !f(n[i-1], n[i]) {
				return lnum(0)
			}
		}
		return lnum(1)
	}
	switch name {
	case "add", "mul", "sub":
		t := lnum(0)
		if name == "mul" {
			t = lnum(1)
		} else if name == "sub" {
			need(2, -1)
		}
		for i, a := range args {
			switch n := m.num(a, env); {
			case name == "mul":
				t.n *= n
			case name == "add":
				t.n += n
			case i == 0:
				t.n = n
			default:
				t.n -= n
			}
		}
		return t
	case "%":
		need(2, 2)
		a, b := m.num(args[0], env), m.num(args[1], env)
		if b == 0 {
			panic(lispOut("remainder by 0"))
		}
		return lnum(math.Mod(a, b))
	case "lt":
		return compare(func(a, b float64) bool { return a < b })
	case "le":
		return compare(func(a, b float64) bool { return !(a > b) })
	case "gt":
		return compare(func(a, b float64) bool { return a > b })
	case "ge":
		return compare(func(a, b float64) bool { return !(a < b) })
	case "eq":
		return compare(func(a, b float64) bool { return a == b })
	case "neq":
		return compare(func(a, b float64) bool { return a != b })
	case "and":
		for _, a := range args {
			if m.num(a, env) == 0 {
				return lnum(0)
			}
		}
		return lnum(1)
	case "or":
		for _, a := range args {
			if m.num(a, env) != 0 {
				return lnum(1)
			}
		}
		return lnum(0)
	case "not":
		panic(lispOut("known finding: not does not negate"))
	case "if":
		need(3, 3)
		if m.num(args[0], env) != 0 {
			return m.eval(args[1], env)
		}
		return m.eval(args[2], env)
	case "cond":
		for _, b := range args {
			if b.k != 'l' || len(b.l) != 2 {
				panic(lispOut("cond"))
			}
			if b.l[0].k == 'o' && b.l[0].s == "else" || m.num(b.l[0], env) != 0 {
				return m.eval(b.l[1], env)
			}
		}
		return lval{k: 'l'}
	case "list?":
		need(1, 1)
		if !literal(args[0]) {
			panic(lispOut("known finding: list? does not evaluate"))
		}
		return lbool(args[0].k == 'l')
	case "car", "cdr":
		need(1, 1)
		v := m.eval(args[0], env)
		if v.k != 'l' || name == "car" && len(v.l) == 0 {
			panic(lispOut("not a list"))
		}
		if len(v.l) == 0 && (args[0].k == 'o' || len(args[0].l) == 0) {
			panic(lispOut("known finding: cdr of a literal empty list"))
		}
		if name == "car" {
			return v.l[0]
		}
		if len(v.l) == 0 {
			return v
		}
		return lval{k: 'l', l: v.l[1:]}
	case "alias", "define":
		if env != nil {
			panic(lispOut("nested definition"))
		}
		need(2, 2)
		if name == "alias" {
			a, b := args[0], args[1]
			if _, ok := m.defs[b.s]; !ok || a.k != 'o' && a.k != 's' || b.k != 'o' && b.k != 's' {
				panic(lispOut("alias"))
			}
			m.aliases[a.s] = b.s
			return lval{k: 'l'}
		}
		def := args[0]
		if def.k != 'l' || len(def.l) == 0 {
			panic(lispOut("define"))
		}
		f := &lispFunc{body: args[1]}
		for i, d := range def.l {
			if d.k != 'o' && d.k != 's' {
				panic(lispOut("define"))
			}
			if i > 0 {
				f.params = append(f.params, d.s)
			}
		}
		delete(m.aliases, def.l[0].s)
		m.defs[def.l[0].s] = f
		return lval{k: 'l'}
	}
	panic(lispOut("unknown " + name))
}

// answer is what the session must print for a line. ok is false for what is out
// of the domain: such a line must not be sent.
func (m *lisp) answer(line string) (s string, ok bool) {
	defer func() {
		if p := recover(); p != nil {
			if _, out := p.(lispOut); !out {
				panic(p)
			}
			ok = false
		}
	}()
	line = strings.Trim(line, " ")
	if !strings.HasPrefix(line, "(") {
		line = "(" + line + ")"
	}
	x, read := lispRead(line)
	if !read {
		return "Parse error: ", true
	}
	m.steps = 0
	return m.eval(x, nil).String(), true
}

// ---- generator

type lispGen struct {
	t     *rapidT
	fs    []lispSig
	n     int
	depth int
}

type lispSig struct {
	name string
	args string // types: n number, l list of numbers, s string, f function of two numbers
	ret  byte
	cost int // calls it may make
}

type lispVars map[string]byte

func (g *lispGen) sp() string { // at least one
	return pbt.Pick(g.t, "sp", []string{" ", " ", " ", " ", "  ", "\t", " \t "})
}

func (g *lispGen) osp() string {
	return pbt.Pick(g.t, "osp", []string{"", "", "", "", "", " ", "\t", "  "})
}

func (g *lispGen) call(parts ...string) string {
	s := "(" + g.osp()
	for i, p := range parts {
		if i > 0 {
			s += g.sp()
		}
		s += p
	}
	return s + g.osp() + ")"
}

func (g *lispGen) number() string {
	switch pbt.Uniform(g.t, "number", 5) {
	case 0:
		return strconv.Itoa(pbt.Int(g.t, "n", -1000000000, 1000000000))
	case 1:
		return pbt.Pick(g.t, "z", []string{"007", "-0", "00", "-012"})
	}
	return strconv.Itoa(pbt.Int(g.t, "n", -20, 20))
}

var lispStrings = []string{"", "a", "b c", "(x", "-1", ")", "é世界", "it's", "Eval: ", "ok", "\\", "%d", "\t"}

func (g *lispGen) str() string { return `"` + pbt.Pick(g.t, "str", lispStrings) + `"` }

func (g *lispGen) list(min, depth int) string {
	var p []string
	for k := min + pbt.Uniform(g.t, "len", 4); k > 0; k-- {
		if depth > 0 && len(p) > 0 && pbt.Chance(g.t, "nested", 20) {
			p = append(p, g.list(0, depth-1))
		} else {
			p = append(p, g.number())
		}
	}
	return g.call(p...)
}

func (g *lispGen) vars(v lispVars, k byte) string {
	var names []string
	for _, n := range lispParams {
		if v[n] == k {
			names = append(names, n)
		}
	}
	if len(names) == 0 {
		return ""
	}
	return pbt.Pick(g.t, "var", names)
}

var lispParams = []string{"n", "m", "x", "x1", "_y", "a.b", "l", "g", "p?"}

// expr generates an expression of a type; cost bounds the calls of definitions.
func (g *lispGen) expr(k byte, v lispVars, depth int, cost *int) string {
	if depth <= 0 || k == 'f' || pbt.Chance(g.t, "leaf", 15) {
		if name := g.vars(v, k); name != "" && pbt.Chance(g.t, "use", 80) {
			return name
		}
		switch k {
		case 'n':
			return g.number()
		case 's':
			return g.str()
		case 'f':
			return pbt.Pick(g.t, "op", []string{"+", "-", "*", "add", "sub", "lt", "==", "ge"})
		}
		return g.list(0, 0)
	}
	sub := func(k byte) string { return g.expr(k, v, depth-1, cost) }
	switch r := pbt.Uniform(g.t, "form", 12); {
	case r == 0:
		return g.call("if", sub('n'), sub(k), sub(k))
	case r == 1:
		p := []string{"cond"}
		for i := pbt.Uniform(g.t, "branches", 3); i > 0; i-- {
			p = append(p, g.call(sub('n'), sub(k)))
		}
		return g.call(append(p, g.call("else", sub(k)))...)
	case r <= 4: // a definition
		var can []lispSig
		for _, f := range g.fs {
			if f.ret == k && f.cost <= *cost {
				can = append(can, f)
			}
		}
		if len(can) > 0 {
			f := pbt.Pick(g.t, "callee", can)
			*cost -= f.cost
			p := []string{f.name}
			for i := range f.args {
				p = append(p, g.expr(f.args[i], v, depth-2, cost))
			}
			return g.call(p...)
		}
	}
	switch k {
	case 's':
		return g.str()
	case 'l':
		if pbt.Chance(g.t, "cdr", 50) {
			return g.call("cdr", sub('l'))
		}
		return g.list(0, 1)
	}
	op := pbt.Pick(g.t, "op", []string{"+", "-", "*", "add", "sub", "mul", "%", "<", "<=", ">", ">=", "==", "!=", "eq?", "neq?", "lt", "gt", "le", "ge", "eq", "neq", "and", "or", "list?", "car", "var"})
	switch op {
	case "list?":
		return g.call(op, pbt.Pick(g.t, "type", []string{g.number(), g.str(), g.list(0, 1)}))
	case "car":
		return g.call(op, g.list(1, 0))
	case "%":
		return g.call(op, sub('n'), strconv.Itoa(pbt.Int(g.t, "modulus", 1, 30)))
	case "var":
		if f := g.vars(v, 'f'); f != "" {
			return g.call(f, sub('n'), sub('n'))
		}
		op = "+"
	}
	p := []string{op, sub('n')}
	for i := 1 + pbt.Uniform(g.t, "more", 3); i > 0; i-- {
		p = append(p, sub('n'))
	}
	return g.call(p...)
}

func (g *lispGen) define() string {
	name := pbt.Pick(g.t, "name", []string{"f", "double", "foo?", "a_b", "f2", "is.it", "+", "sq", "<"})
	g.n++
	if name != "+" && name != "<" {
		name += strconv.Itoa(g.n)
	}
	cost := 6
	v := lispVars{}
	sig := lispSig{name: name, ret: "nnnls"[pbt.Uniform(g.t, "ret", 5)], cost: 1}
	if name == "+" || name == "<" {
		sig.ret = 'n'
	}
	p := []string{name}
	if pbt.Chance(g.t, "quoted", 10) {
		p[0] = `"` + name + `"`
	}
	for i := pbt.Uniform(g.t, "params", 4); i > 0; i-- {
		x := pbt.Pick(g.t, "param", lispParams)
		if v[x] == 0 {
			v[x] = "nnnlsf"[pbt.Uniform(g.t, "ptype", 6)]
			sig.args += string(v[x])
			p = append(p, x)
		}
	}
	switch name {
	case "+", "<": // the operator gets a function of its own, with 2 parameters; it is not in its body
		op := map[string]string{"+": "add", "<": "lt"}[name]
		return g.call("define", g.call(name, "n", "m"), g.call(op, g.call("mul", "n", "1"), g.call("add", "m", g.number())))
	}
	if pbt.Chance(g.t, "recursive", 25) {
		g.fs = append(g.fs, lispSig{name: name, args: "k", ret: 'n', cost: 6})
		step := pbt.Pick(g.t, "step", []string{"1", "2", "3"})
		return g.call("define", g.call(name, "n"), g.call("if", g.call("le", "n", "0"), g.number(), g.call(pbt.Pick(g.t, "op", []string{"mul", "add", "sub"}), "n", g.call(name, g.call("sub", "n", step)))))
	}
	s := g.call("define", g.call(p...), g.expr(sig.ret, v, 3, &cost))
	sig.cost = 7 - cost
	g.fs = append(g.fs, sig)
	return s
}

func genLispSession(t *rapidT) LispCase {
	g := &lispGen{t: t}
	var c LispCase
	for k := pbt.Pick(t, "lines", []int{3, 20, 40, 60, 80}); k > 0; k-- {
		var s string
		cost := 8
		switch pbt.Uniform(t, "kind", 10) {
		case 0, 1, 2:
			s = g.define()
		case 3:
			g.n++
			name := pbt.Pick(t, "alias", []string{"plus", "-", "==", "z?"})
			to := pbt.Pick(t, "to", []string{"add", "sub", "mul", "eq", "lt", "neq"})
			if name == "z?" && len(g.fs) > 0 {
				f := pbt.Pick(t, "to", g.fs)
				f.name, to = "z?"+strconv.Itoa(g.n), f.name
				name = f.name
				g.fs = append(g.fs, f)
			}
			s = g.call("alias", name, to)
		case 4: // something which is not an expression
			s = g.expr('n', nil, 3, &cost)
			b := []byte(s)
			i := pbt.Uniform(t, "at", len(b)+1)
			s = string(b[:i]) + pbt.Pick(t, "junk", []string{"", ")", "(", `"`, "#", "@ ", "()", " 12a ", ",", "é", "'"}) + string(b[i+pbt.Uniform(t, "del", len(b)-i+1)/4:])
		case 5: // any number of elements: a literal or a call without parentheses
			if pbt.Bool(t, "call") {
				s = pbt.Pick(t, "op", []string{"+", "*", "and", "or", "add"})
				for k := pbt.Uniform(t, "args", 6); k > 0; k-- {
					s += g.sp() + g.expr('n', nil, 1, &cost)
				}
			} else {
				s = g.list(0, 3)
				s = s[1 : len(s)-1]
			}
		default:
			s = g.expr("nnnls"[pbt.Uniform(t, "type", 5)], nil, 4, &cost)
		}
		s = pbt.Pick(t, "before", []string{"", "", "", " ", "  "}) + s + pbt.Pick(t, "after", []string{"", "", "", " ", "  "})
		c.Lines = append(c.Lines, pbt.Text(s))
	}
	return c
}

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")

func checkLisp(c LispCase, r *pbt.R) error {
	m := newLisp()
	var lines, want []string
	refused := 0
	for _, l := range c.Lines {
		line := string(l)
		if strings.ContainsAny(line, "\n\x1b") {
			continue
		}
		a, ok := m.answer(line)
		if !ok {
			r.Class("out of the domain")
			continue
		}
		if a == "Parse error: " {
			refused++
		}
		lines, want = append(lines, line), append(want, a)
	}
	got, e, serr := lispSession(lines)
	r.Exec()
	for i, l := range lines {
		if i >= len(got) {
			return errf("no answer to line %d, %q: %v\n%s\nsession:\n%s", i, l, e, lispTail(serr), strings.Join(lines[:i+1], "\n"))
		}
		if want[i] == "Parse error: " && strings.HasPrefix(got[i], want[i]) {
			continue
		}
		if strings.TrimSuffix(got[i], "\n") != want[i] {
			return errf("%q gives %q instead of %q\nsession:\n%s\n%s", l, lispTail(got[i]), want[i], strings.Join(lines[:i+1], "\n"), lispTail(serr))
		}
	}
	if e != nil {
		return errf("the session ended abnormally: %v\n%s", e, lispTail(serr))
	}
	r.ClassIf(refused > 0, "a line which is not an expression")
	r.ClassIf(m.calls > 0, "calls of definitions")
	r.ClassIf(m.calls > 100, "more than 100 calls")
	r.Class(fmt.Sprintf("about %d lines", len(lines)/10*10))
	r.NonTrivialIf(m.calls > 0)
	return nil
}

func lispTail(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}

func lispCommand() *exec.Cmd {
	bin := os.Getenv("VERIF_LISP")
	if bin == "" {
		panic("BUG in harness: VERIF_LISP is not set")
	}
	// limited in processor time, so that an endless loop ends
	cmd := exec.Command("/bin/sh", "-c", `ulimit -t 40; exec "$0"`, bin)
	cmd.Env = []string{"PATH=/usr/bin:/bin", "GOMAXPROCS=2"}
	return cmd
}

const lispPrompt = "\nEval: "

// lispSession gives the lines one at a time, each once the previous one was
// answered. The answers are those received before the program ended.
func lispSession(lines []string) (answers []string, e error, serr string) {
	cmd := lispCommand()
	var eb bytes.Buffer
	cmd.Stderr = &eb
	in, e := cmd.StdinPipe()
	if e != nil {
		panic("BUG in harness: " + e.Error())
	}
	out, e := cmd.StdoutPipe()
	if e != nil {
		panic("BUG in harness: " + e.Error())
	}
	if e := cmd.Start(); e != nil {
		panic("BUG in harness: " + e.Error())
	}
	buf, chunk := []byte("\n"), make([]byte, 1<<16)
	read := func() (string, bool) { // up to the next prompt
		for {
			if bytes.HasSuffix(buf, []byte(lispPrompt)) {
				s := string(buf[:len(buf)-len(lispPrompt)])
				buf = buf[:0]
				return ansi.ReplaceAllString(s, ""), true
			}
			n, e := out.Read(chunk)
			buf = append(buf, chunk[:n]...)
			if e != nil {
				return "", false
			}
		}
	}
	_, ok := read()
	for _, l := range lines {
		if !ok {
			break
		}
		in.Write([]byte(l + "\n"))
		var a string
		if a, ok = read(); ok {
			answers = append(answers, a)
		}
	}
	in.Close()
	io.Copy(io.Discard, out)
	e = cmd.Wait()
	return answers, e, eb.String()
}

func lispProbe(line, want string) error {
	got, e, serr := lispSession([]string{line})
	if len(got) == 1 && got[0] == want {
		return nil
	}
	return errf("%s gives %q instead of %s: %v\n%s", line, got, want, e, lispTail(serr))
}

func lispPipe(text string) (string, error) {
	cmd := lispCommand()
	cmd.Stdin = strings.NewReader(text)
	out, e := cmd.Output()
	s := ansi.ReplaceAllString(string(out), "")
	if i := strings.Index(s, lispPrompt); i >= 0 {
		s = s[i:]
	}
	return s, e
}
