package props

import (
	goscanner "go/scanner"
	"go/token"
	"strings"

	"verif/model"
	"verif/pbt"

	j "github.com/grepsuzette/joeson"
)

var c10 = &pbt.Prop{
	ID: "C10",
	Rule: "A case is a sequence of Go sources: random tokens of the Go language with random or no separators, or realistic code with edits. Where the Go scanner reports no error, the tokenized text is scanned again and must give the same tokens, and each token is located at its place in the source; where it reports one, an error is expected. " +
		"Non-trivial: a source with at least 5 tokens and no error, or an error after at least 2 tokens.",
	Assumptions: []string{
		"go/scanner is right; comments are not tokens",
		"the place of a token is the one of the first byte of the token as it was added to the tokenized text",
	},
	Families: []pbt.Family{
		pbt.Fam("tokens", 640000, 5120000, genGoTokens, checkGo),
		pbt.Fam("pairs", 480000, 3840000, genGoPairs, checkGo),
		pbt.Fam("code", 240000, 1920000, genGoCode, checkGo),
		pbt.Fam("bytes", 320000, 2560000, genGoBytes, checkGo),
	},
}

type GoCase struct {
	Sources []pbt.Text `json:"sources"`
}

var goTokens = []string{
	"+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "&^", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>=", "&^=", "&&", "||", "<-", "++", "--", "==", "<", ">", "=", "!", "~", "!=", "<=", ">=", ":=", "...", "(", "[", "{", ",", ".", ")", "]", "}", ";", ":",
	"break", "case", "chan", "const", "continue", "default", "defer", "else", "fallthrough", "for", "func", "go", "goto", "if", "import", "interface", "map", "package", "range", "return", "select", "struct", "switch", "type", "var",
	"a", "b", "x1", "_", "é", "世界", "foo", "Bar_2", "αβ", "e1", "i", "x", "p",
	"0", "1", "42", "0x1F", "0b101", "0o17", "1_000", "3.14", "1.", ".5", "1e9", "1E+2", "0x1p-2", "2i", "1.5i", "017",
	"'a'", "'\\n'", "'\\''", "'世'", "'\\x41'", "\"\"", "\"a b\"", "\"\\\"\"", "\"é\\n\"", "`raw`", "`a\nb`", "``", "`\r\n`", "\"// x\"", "\"; \"",
}
var goSpaces = []string{"", "", " ", " ", " ", "\n", "\t", "  ", "\n\n", "/* c */", "/* a\nb */", "// c\n", "\r\n", " \n ", "/**/", "//\n"}

func genGoTokens(t *rapidT) GoCase {
	c := GoCase{}
	for k := 1 + pbt.Uniform(t, "sources", 2); k > 0; k-- {
		var b strings.Builder
		spaced := pbt.Chance(t, "spaced", 50)
		for n := pbt.Uniform(t, "tokens", 24); n > 0; n-- {
			b.WriteString(pbt.Pick(t, "token", goTokens))
			sp := pbt.Pick(t, "space", goSpaces)
			if sp == "" && spaced {
				sp = " "
			}
			b.WriteString(sp)
		}
		c.Sources = append(c.Sources, pbt.Text(b.String()))
	}
	return c
}

// genGoPairs puts every kind of token next to every other one.
func genGoPairs(t *rapidT) GoCase {
	a, b := pbt.Pick(t, "a", goTokens), pbt.Pick(t, "b", goTokens)
	s := a + pbt.Pick(t, "space", goSpaces[2:]) + b
	if pbt.Bool(t, "third") {
		s += pbt.Pick(t, "space", goSpaces) + pbt.Pick(t, "c", goTokens)
	}
	return GoCase{Sources: []pbt.Text{pbt.Text(pbt.Pick(t, "before", []string{"", "", "\n ", "x ", "; "}) + s + pbt.Pick(t, "after", []string{"", "", "\n", " y", "// z"}))}}
}

var goLines = []string{
	"package main", "import \"fmt\"", "func f(a, b int) (c string, err error) {", "}", "\tx := a + b*2 - c/d", "\tif x <= 3 && !ok || y&^z != 0 {", "\t} else if m[k] == nil {", "\tfor i := 0; i < n; i++ {", "\tfor range ch {", "\treturn", "\treturn a, nil", "\tvar s []byte = []byte(\"é\\n\")", "\tgo func() { <-c }()", "\tdefer close(c)", "type T struct {", "\tF int `json:\"f\"`", "const (", "\tA = iota", ")", "\tswitch x := y.(type) {", "\tcase int, string:", "\tdefault:", "\tbreak", "\t\tcontinue L", "L:", "\tx.y.z(1.5e-3, 'a', 0xFF, `raw\nstring`)", "\ta[1:2], b[:], c[i:j:k] = d...", "\t// a comment", "\t/* a block", "\tcomment */", "", "\tvar x chan<- int", "\tx = -1 - -2", "\tx = a - -b", "\tx = & ^y", "\tx <- <-y", "\ty = *p / *q", "func (t *T[K, V]) m() { goto L }", "\ta, b := 1, 2 ; c++", "\tx = 1 . .5", "\tz = 3i + 0o17i", "\tif a := f(); a { }",
}

func genGoCode(t *rapidT) GoCase {
	var b strings.Builder
	lines := 1 + pbt.Uniform(t, "lines", 20)
	if pbt.Chance(t, "large", 1) && pbt.Chance(t, "large?", 10) {
		lines = 100 + pbt.Uniform(t, "manylines", 300)
	}
	for n := lines; n > 0; n-- {
		b.WriteString(pbt.Pick(t, "line", goLines))
		b.WriteString(pbt.Pick(t, "nl", []string{"\n", "\n", "\n", "\r\n", "", " "}))
	}
	s := b.String()
	if n := pbt.Uniform(t, "mutations", 4); n > 1 {
		s = model.Mutate(s, &pbt.TapeReader{T: pbt.FullTape(t, "tape", 12)}, n-1)
	}
	return GoCase{Sources: []pbt.Text{pbt.Text(s)}}
}

func genGoBytes(t *rapidT) GoCase {
	c := GoCase{}
	for k := 1 + pbt.Uniform(t, "sources", 3); k > 0; k-- {
		var b strings.Builder
		if pbt.Chance(t, "start", 5) {
			b.WriteString(pbt.Pick(t, "mark", []string{"\xff\xfe", "\xfe\xff", "\ufeff", "#!/bin/x\n", "//line a:0\n"}))
		}
		for n := pbt.Uniform(t, "n", 12); n > 0; n-- {
			switch pbt.Uniform(t, "kind", 3) {
			case 0:
				b.WriteString(pbt.Pick(t, "token", goTokens))
			case 1:
				b.WriteString(pbt.Pick(t, "space", goSpaces))
			default:
				b.WriteString(pbt.Pick(t, "odd", []string{"#", "$", "?", "@", "\\", "\"", "'", "`", "''", "'ab'", "\"\n", "/*", "\x00", "\xff", "\ufeff", "0b2", "08", "0x", "1e", "1__0", "'\\z'", "\"\\q\"", "\u2028", "0b", "\r", "\xc3", "é", "'\\400'", "“", "”a”", "\n//line a.go:0\n", "\n//line a:1:0\n", "/*line a:0*/", "/*line a:1*/", "\n//line a.go:3\n"}))
			}
		}
		c.Sources = append(c.Sources, pbt.Text(b.String()))
	}
	return c
}

type goToken struct {
	off int
	tok token.Token
	lit string
}

func scanGo(src string) (r []goToken, errors int) {
	var s goscanner.Scanner
	fset := token.NewFileSet()
	file := fset.AddFile("", -1, len(src))
	s.Init(file, []byte(src), func(token.Position, string) { errors++ }, 0)
	for {
		pos, tok, lit := s.Scan()
		if tok == token.EOF {
			return
		}
		r = append(r, goToken{file.Offset(pos), tok, lit})
	}
}

func checkGo(c GoCase, r *pbt.R) error {
	for _, src := range c.Sources {
		src := string(src)
		want, errors := scanGo(src)
		r.Exec()
		ts, e := j.TokenStreamFromGoCode(src)
		if errors > 0 {
			if e == nil {
				return errf("no error for a source with %d lexical errors: %q", errors, src)
			}
			r.Class("lexical error")
			r.NonTrivialIf(len(want) >= 2)
			continue
		}
		if e != nil {
			return errf("an error for a source without any: %v\nsource: %q", e, src)
		}
		if ts.Code() != src || ts.Pos() != 0 || ts.Length() != len(src) {
			return errf("the stream is not over the source: %q instead of %q", ts.Code(), src)
		}
		// what is to be parsed, all of it
		work := ts.GetUntil("")
		if work != "" || ts.Pos() != 0 {
			return errf("reading until \"\" moved")
		}
		work = ts.PeekRunes(1 << 30)
		got, errors := scanGo(work)
		if errors > 0 {
			return errf("the tokenized text has lexical errors\nsource: %q\ntokenized: %q", src, work)
		}
		next := 0 // where the next token begins in the tokenized text
		for i, w := range want {
			if i >= len(got) {
				return errf("token %d, %s %q, is missing\nsource: %q\ntokenized: %q", i, w.tok, w.lit, src, work)
			}
			g := got[i]
			if g.tok != w.tok || g.tok != token.SEMICOLON && g.lit != w.lit {
				return errf("token %d is %s %q instead of %s %q\nsource: %q\ntokenized: %q", i, g.tok, g.lit, w.tok, w.lit, src, work)
			}
			if gap := work[next:g.off]; gap != "" && gap != " " {
				return errf("%q before token %d\nsource: %q\ntokenized: %q", gap, i, src, work)
			}
			line, col := model.LineCol(src, w.off)
			if l, k := ts.PosToLine(next), ts.PosToCol(next); l != line || k != col {
				return errf("token %d, %s %q, is said to be at line %d, column %d of the source instead of %d, %d\nsource: %q\ntokenized: %q", i, w.tok, w.lit, l, k, line, col, src, work)
			}
			next = g.off + len(g.lit)
			if g.lit == "" || g.tok.IsOperator() && g.tok != token.SEMICOLON {
				next = g.off + len(g.tok.String())
			}
			if g.tok == token.SEMICOLON {
				next = g.off + 1
				if w.lit == "\n" {
					if next >= len(work) || work[next] != '\n' {
						return errf("automatic semicolon %d is not followed by a newline\nsource: %q\ntokenized: %q", i, src, work)
					}
					next++
					r.Class("automatic semicolon")
				}
			}
		}
		if len(got) > len(want) {
			return errf("token %d, %s %q, is not in the source\nsource: %q\ntokenized: %q", len(want), got[len(want)].tok, got[len(want)].lit, src, work)
		}
		if next != len(work) {
			return errf("%q after the last token\nsource: %q\ntokenized: %q", work[next:], src, work)
		}
		r.NonTrivialIf(len(want) >= 5)
		r.ClassIf(len(want) > 20, "more than 20 tokens")
		r.ClassIf(strings.Contains(src, "\n"), "several lines")
	}
	return nil
}
