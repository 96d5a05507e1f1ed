package props

import (
	"fmt"
	"os"
	"regexp"
	"strconv"
	"strings"

	"verif/model"
	"verif/pbt"

	j "github.com/grepsuzette/joeson"
	"github.com/grepsuzette/joeson/helpers"
)

// Node is what the callbacks of generated grammars return.
type Node struct {
	*j.Attr
	Rule string
	It   j.Ast
	O    j.Origin
	// the origin given first, by the rule which built the node; those which pass it
	// on give it theirs
	First j.Origin
	Sets  int // how many times an origin was given
}

func (n *Node) String() string { return "<" + n.Rule + ">" }
func (n *Node) SetOrigin(o j.Origin) {
	if n.Sets == 0 {
		n.First = o
	}
	n.O = o
	n.Sets++
	n.Attr.SetOrigin(o)
}
func newNode(rule string, it j.Ast) *Node { return &Node{Attr: j.NewAttr(), Rule: rule, It: it} }

// FromAst turns a production into a model value.
func FromAst(a j.Ast) *model.Val {
	switch v := a.(type) {
	case nil:
		return nil
	case j.NativeString:
		return model.Sv(string(v))
	case j.NativeInt:
		return model.Iv(v.Int())
	case j.NativeUndefined:
		return model.Undef
	case *j.NativeArray:
		r := &model.Val{K: 'A'}
		for _, x := range v.Array() {
			r.A = append(r.A, FromAst(x))
		}
		return r
	case *j.NativeMap:
		r := &model.Val{K: 'M'}
		for _, k := range v.Keys() {
			x, ok := v.GetExists(k)
			if !ok {
				return &model.Val{K: '?', S: "map with a key but no value: " + k}
			}
			r.Keys = append(r.Keys, k)
			r.A = append(r.A, FromAst(x))
		}
		return r
	case *Node:
		return &model.Val{K: 'N', Rule: v.Rule, Start: v.O.Start, End: v.O.End, Line: v.O.Line, A: []*model.Val{FromAst(v.It)}}
	case j.ParseError:
		return &model.Val{K: '?', S: "ParseError"}
	}
	return &model.Val{K: '?', S: fmt.Sprintf("%T", a)}
}

// Recorder gathers what callbacks were given.
type Recorder struct {
	Log   []model.Event
	Max   int // panics beyond that many invocations (0: no bound)
	Ctx   bool
	Line  int
	Code  string
	Extra func(rule string, it j.Ast, ctx *j.ParseContext)
	// compiles the rules which are declared as a Parser; nil: the shared one
	Compiler *j.Grammar
}

type tooMany struct{ n int }

func (t tooMany) String() string {
	return "callbacks were invoked too many times: " + strconv.Itoa(t.n)
}

func (rec *Recorder) event(rule string, it j.Ast, ctx *j.ParseContext) string {
	canon := FromAst(it).Canon(false)
	end := -1
	if ctx != nil {
		end = ctx.Code.Pos()
	}
	rec.Log = append(rec.Log, model.Event{Rule: rule, End: end, It: canon})
	if rec.Max > 0 && len(rec.Log) > rec.Max {
		panic(tooMany{len(rec.Log)})
	}
	if rec.Extra != nil {
		rec.Extra(rule, it, ctx)
	}
	return canon
}

// Callback makes the callback of a rule; sig selects one of the signatures.
func (rec *Recorder) Callback(rule string, cb int, sig int) any {
	if cb == model.CBNone {
		return nil
	}
	f := func(it j.Ast, ctx *j.ParseContext) j.Ast {
		canon := rec.event(rule, it, ctx)
		switch cb {
		case model.CBPicky:
			if model.Picky(canon) {
				return nil
			}
			return newNode(rule, it)
		case model.CBNode:
			return newNode(rule, it)
		case model.CBGrow:
			switch v := it.(type) {
			case *j.NativeArray:
				v.Append(j.NewNativeString("grown"))
			case *j.NativeMap:
				v.Set("grown", j.NewNativeString("grown"))
			}
			return it
		case model.CBConcat:
			return j.NewNativeString(model.Concat(canon))
		}
		return it
	}
	switch sig % 3 {
	case 1:
		return func(it j.Ast, ctx *j.ParseContext, caller j.Ast) j.Ast { return f(it, ctx) }
	case 2:
		return func(it j.Ast) j.Ast { return f(it, nil) }
	}
	return f
}

// Lines declares a grammar, the start rule first.
func Lines(g *model.Grammar, lay *model.Layout, rec *Recorder, sigs []int) []j.Line {
	var lines []j.Line
	shared := map[string]j.OLine{}
	for i, r := range g.Rules {
		sig := 0
		if len(sigs) > 0 {
			sig = sigs[i%len(sigs)]
		}
		var opts []any
		if cb := rec.Callback(r.Name, r.CB, sig); cb != nil {
			opts = append(opts, cb)
		}
		if r.Skip {
			opts = append(opts, j.SkipCache{Bool: true})
		}
		decl := model.DeclText
		if i < len(g.Decl) {
			decl = g.Decl[i]
		}
		text := model.Render(r.E, lay)
		args := declaration(r.Name, text, decl, opts, rec.Compiler)
		if decl == model.DeclShared {
			inner, ok := shared[text]
			if !ok {
				inner = j.O(text)
				shared[text] = inner
			}
			args = append([]any{j.Named(r.Name, inner)}, opts...)
		}
		if i == 0 {
			lines = append(lines, j.O(args...))
		} else {
			lines = append(lines, j.I(args...))
		}
	}
	return padded(lines, g.Pad)
}

// declaration gives the arguments of the line of a rule.
func declaration(name, text string, decl int, opts []any, compiler *j.Grammar) []any {
	compiled := func() j.Parser {
		if compiler == nil {
			quickly()
			compiler = sharedJoeson.Get()
		}
		return compiler.ParseString(text).(j.Parser)
	}
	switch decl {
	case model.DeclLine:
		return append([]any{j.Named(name, j.O(text))}, opts...)
	case model.DeclInner:
		return []any{j.Named(name, j.O(append([]any{text}, opts...)...))}
	case model.DeclCompiled:
		return append([]any{j.Named(name, compiled())}, opts...)
	case model.DeclBoth:
		return []any{j.Named(name, j.O(append([]any{compiled()}, opts...)...))}
	}
	return append([]any{j.Named(name, text)}, opts...)
}

// padded declares unused rules.
func padded(lines []j.Line, n int) []j.Line {
	if n == 0 {
		return lines
	}
	var unused []j.Line
	for i := 0; i < max(n, -n); i++ {
		unused = append(unused, j.I(j.Named(fmt.Sprintf("Unused%d", i), "'@'")))
	}
	if n < 0 {
		return append(lines, unused...)
	}
	return append(append([]j.Line{lines[0]}, unused...), lines[1:]...)
}

// muted options, with the default compiler of rule texts: it is built anew for
// each grammar, which costs several milliseconds.
func muted() j.GrammarOptions { return j.GrammarOptions{TraceOptions: j.Mute()} }

var sharedJoeson *helpers.Lazy[*j.Grammar]

// quickly are muted options where one compiler of rule texts is shared by all
// the grammars built by this process.
func quickly() j.GrammarOptions {
	if sharedJoeson == nil {
		sharedJoeson = helpers.LazyFromValue(j.NewJoesonWithOptions(j.Mute()))
	}
	return j.GrammarOptions{TraceOptions: j.Mute(), LazyGrammar: sharedJoeson}
}

// options are the default ones for a fraction of the cases.
func options(seed int) j.GrammarOptions {
	if seed%16 == 15 {
		return muted()
	}
	return quickly()
}

// Build compiles the grammar; rec may be nil.
func Build(g *model.Grammar, rec *Recorder) *j.Grammar {
	return BuildWith(g, rec, quickly())
}

func BuildWith(g *model.Grammar, rec *Recorder, o j.GrammarOptions) *j.Grammar {
	if rec == nil {
		rec = &Recorder{}
	}
	return j.GrammarWithOptionsFromLines("gm", o, Lines(g, nil, rec, nil))
}

// Describe writes a grammar for messages.
func Describe(g *model.Grammar) string {
	var b strings.Builder
	for i, r := range g.Rules {
		fmt.Fprintf(&b, "  %s: %s", r.Name, model.Render(r.E, nil))
		if r.CB != 0 {
			fmt.Fprintf(&b, "   (callback %d)", r.CB)
		}
		if r.Skip {
			b.WriteString("   (SkipCache)")
		}
		if i < len(g.Decl) && g.Decl[i] != model.DeclText {
			fmt.Fprintf(&b, "   (declaration %d)", g.Decl[i])
		}
		b.WriteByte('\n')
	}
	return b.String()
}

// Outcome of a parse, in a comparable form.
type Outcome struct {
	OK    bool
	Nil   bool   // nil result (no match on an empty text)
	Canon string // of the production, with spans
	Short string // without spans
	N     int    // reported position
	Line  int
	Col   int
	Msg   string
	Ast   j.Ast
}

var reError = regexp.MustCompile(`^Error parsing at char:(-?\d+)=\(line:(-?\d+),col:(-?\d+)\)\.`)

func ToOutcome(a j.Ast) Outcome {
	if a == nil {
		return Outcome{Nil: true, N: -1}
	}
	if pe, ok := a.(j.ParseError); ok {
		o := Outcome{N: -1, Msg: pe.ErrorString}
		if m := reError.FindStringSubmatch(pe.ErrorString); m != nil {
			o.N, _ = strconv.Atoi(m[1])
			o.Line, _ = strconv.Atoi(m[2])
			o.Col, _ = strconv.Atoi(m[3])
		}
		return o
	}
	v := FromAst(a)
	return Outcome{OK: true, Canon: v.Canon(true), Short: v.Canon(false), Ast: a}
}

func (o Outcome) String() string {
	switch {
	case o.OK:
		return "accepted " + o.Canon
	case o.Nil:
		return "nil"
	}
	return fmt.Sprintf("error at %d (line %d col %d)", o.N, o.Line, o.Col)
}

// Same compares 2 outcomes of the code, positions included.
func (o Outcome) Same(p Outcome) bool {
	return o.OK == p.OK && o.Nil == p.Nil && o.Canon == p.Canon && o.N == p.N && o.Line == p.Line && o.Col == p.Col
}

// capture runs f with the standard output of the code under test in a file and
// returns what was printed.
func capture(f func()) string {
	tmp, e := os.CreateTemp("", "verif-out")
	if e != nil {
		panic("BUG in harness: " + e.Error())
	}
	defer os.Remove(tmp.Name())
	defer tmp.Close()
	old := os.Stdout
	os.Stdout = tmp
	defer func() { os.Stdout = old }()
	f()
	os.Stdout = old
	b, e := os.ReadFile(tmp.Name())
	if e != nil {
		panic("BUG in harness: " + e.Error())
	}
	return string(b)
}

func errf(f string, a ...any) error { return fmt.Errorf(f, a...) }

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func texts(a []string) []pbt.Text {
	var r []pbt.Text
	for _, s := range a {
		r = append(r, pbt.Text(s))
	}
	return r
}
