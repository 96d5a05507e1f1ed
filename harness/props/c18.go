package props

import (
	"fmt"
	"sort"
	"strings"
	"unicode/utf8"

	"verif/pbt"

	j "github.com/grepsuzette/joeson"
	"github.com/grepsuzette/joeson/helpers"
)

var c18 = &pbt.Prop{
	ID: "C18",
	Rule: "A case is arguments for one group of helpers (bisection, slicing, characters, decoration, colours, keys), checked against a specification written independently, or a sequence of operations on lazy values compared with a model. " +
		"Non-trivial: slices of at least 3 numbers with the searched one present, slices which cut something, texts with a multi-byte or escaped character, lazy values computed and overridden.",
	Assumptions: []string{
		"bisection is given sorted slices; indentation levels are at least -1; the width of padded text is only compared for ASCII",
		"coloured texts have no escape (U+001B, U+009B) nor bell character",
	},
	Families: []pbt.Family{
		pbt.Fam("bisect", 1200000, 9600000, func(t *rapidT) BisectCase {
			c := BisectCase{N: pbt.Int(t, "n", -5, 15)}
			wide := pbt.Chance(t, "wide", 20)
			for k := pbt.Uniform(t, "len", 14); k > 0; k-- {
				if wide {
					c.A = append(c.A, pbt.Int(t, "a", -1<<62, 1<<62))
				} else {
					c.A = append(c.A, pbt.Int(t, "a", -4, 14))
				}
			}
			sort.Ints(c.A)
			if len(c.A) > 0 && pbt.Bool(t, "present") {
				c.N = pbt.Pick(t, "which", c.A)
			}
			return c
		}, checkBisect),
		pbt.Fam("text", 1600000, 12800000, func(t *rapidT) TextCase {
			var b strings.Builder
			for k := pbt.Uniform(t, "len", 12); k > 0; k-- {
				b.WriteString(pbt.Pick(t, "piece", []string{"a", "b", "é", "世", "𝄞", "\n", "\t", "\\", "\r", "\a", "\f", "\b", "\v", "\\n", " ", "\"", "\uFFFD", "xyz", "\x00", "\u2028", "[31m", "0m", "\\\\", "n"}))
			}
			if pbt.Chance(t, "invalid", 10) {
				b.WriteString(pbt.Pick(t, "byte", []string{"\xff", "\xe4\xb8", "\x80a", "\xc3(", "a\xffb"}))
			}
			return TextCase{S: pbt.Text(b.String()), I: pbt.Uniform(t, "i", 33) - 16, J: pbt.Uniform(t, "j", 33) - 16, K: pbt.Uniform(t, "k", 1<<10)}
		}, checkText),
		pbt.Fam("keys", 160000, 1280000, func(t *rapidT) KeysCase {
			c := KeysCase{}
			for k := pbt.Uniform(t, "len", 10); k > 0; k-- {
				c.I = append(c.I, pbt.Int(t, "i", -1000, 1000))
				c.S = append(c.S, pbt.Pick(t, "s", []string{"", "a", "b", "aa", "ab", "A", "Z", "é", "1", "10", "2", "~", "世"}))
			}
			return c
		}, checkKeys),
		pbt.Fam("lazy", 800000, 6400000, func(t *rapidT) LazyCase {
			c := LazyCase{From: pbt.Uniform(t, "from", 3)}
			for k := 1 + pbt.Uniform(t, "ops", 12); k > 0; k-- {
				c.Ops = append(c.Ops, pbt.Uniform(t, "op", 7))
			}
			return c
		}, checkLazy),
	},
}

type BisectCase struct {
	A []int `json:"a"`
	N int   `json:"n"`
}

func checkBisect(c BisectCase, r *pbt.R) error {
	r.Exec()
	less, atMost := 0, 0
	for _, x := range c.A {
		if x < c.N {
			less++
		}
		if x <= c.N {
			atMost++
		}
	}
	if got := helpers.BisectLeft(c.A, c.N); got != less {
		return errf("BisectLeft(%v, %d) is %d instead of %d", c.A, c.N, got, less)
	}
	if got := helpers.BisectRight(c.A, c.N); got != atMost {
		return errf("BisectRight(%v, %d) is %d instead of %d", c.A, c.N, got, atMost)
	}
	want := append(append([]int{}, c.A...), c.N)
	sort.Ints(want)
	l := helpers.InsortLeft(append([]int{}, c.A...), c.N)
	rr := helpers.InsortRight(append([]int{}, c.A...), c.N)
	if fmt.Sprint(l) != fmt.Sprint(want) || fmt.Sprint(rr) != fmt.Sprint(want) {
		return errf("inserting %d in %v gives %v and %v", c.N, c.A, l, rr)
	}
	r.NonTrivialIf(len(c.A) >= 3 && atMost > less)
	return nil
}

type TextCase struct {
	S pbt.Text `json:"s"`
	I int      `json:"i"`
	J int      `json:"j"`
	K int      `json:"k"`
}

var colours = []func(string) string{j.Black, j.Red, j.Green, j.Yellow, j.Blue, j.Magenta, j.Cyan, j.White, j.BoldBlack, j.BoldRed, j.BoldGreen, j.BoldYellow, j.BoldBlue, j.BoldMagenta, j.BoldCyan, j.BoldWhite, j.Bold}

// jsSlice is String.prototype.slice, as ECMAScript specifies it (on bytes).
func jsSlice(s string, start, end int) string {
	rel := func(n int) int {
		if n < 0 {
			return max(len(s)+n, 0)
		}
		return min(n, len(s))
	}
	from, to := rel(start), rel(end)
	if from >= to {
		return ""
	}
	return s[from:to]
}

func unescape(s string) (string, bool) {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] != '\\' {
			b.WriteByte(s[i])
			continue
		}
		i++
		if i == len(s) {
			return "", false
		}
		k := strings.IndexByte("nrt\\afbv", s[i])
		if k < 0 {
			return "", false
		}
		b.WriteByte("\n\r\t\\\a\f\b\v"[k])
	}
	return b.String(), true
}

func checkText(c TextCase, r *pbt.R) error {
	s := string(c.S)
	r.Exec()
	want := jsSlice(s, c.I, c.J)
	if got := helpers.SliceString(s, c.I, c.J); got != want {
		return errf("SliceString(%q, %d, %d) is %q instead of %q", s, c.I, c.J, got, want)
	}
	r.ClassIf(want != "" && want != s, "sliced")
	r.NonTrivialIf(want != "" && want != s)

	// the last characters
	var last string
	p := pbt.Catch(func() { last = helpers.LastNRunes(s, c.I) })
	rest, bad := s, false
	for n := c.I; n > 0 && rest != ""; n-- {
		ch, size := utf8.DecodeLastRuneInString(rest)
		if ch == utf8.RuneError && size == 1 {
			bad = true
			break
		}
		rest = rest[:len(rest)-size]
	}
	if bad {
		if p == nil {
			return errf("LastNRunes(%q, %d) did not panic on an invalid character", s, c.I)
		}
	} else if p != nil || last != s[len(rest):] {
		return errf("LastNRunes(%q, %d) is %q (panic %v) instead of %q", s, c.I, last, p, s[len(rest):])
	}
	if utf8.ValidString(s) {
		rev := []rune(s)[len([]rune(rest)):]
		for a, b := 0, len(rev)-1; a < b; a, b = a+1, b-1 {
			rev[a], rev[b] = rev[b], rev[a]
		}
		if got := helpers.LastNRunesReversed(s, c.I); got != string(rev) {
			return errf("LastNRunesReversed(%q, %d) is %q instead of %q", s, c.I, got, string(rev))
		}
		r.NonTrivialIf(len(rev) > 1 && len(string(rev)) > len(rev))
	}

	// decoration
	ascii := len(s) == utf8.RuneCountInString(s) && utf8.ValidString(s)
	pl, pr := helpers.PadLeft(s, c.J), helpers.PadRight(s, c.J)
	if !strings.HasPrefix(pl, s) || strings.Trim(pl[len(s):], " ") != "" || ascii && len(pl) != max(len(s), c.J) {
		return errf("PadLeft(%q, %d) is %q", s, c.J, pl)
	}
	if !strings.HasSuffix(pr, s) || strings.Trim(pr[:len(pr)-len(s)], " ") != "" || ascii && len(pr) != max(len(s), c.J) {
		return errf("PadRight(%q, %d) is %q", s, c.J, pr)
	}
	if n := max(-1, c.I); helpers.Indent(n) != strings.Repeat("  ", max(n, 0)) {
		return errf("Indent(%d) is %q", n, helpers.Indent(n))
	}
	for _, esc := range []string{helpers.Escape(s), helpers.EscapeButKeepNonAscii(s)} {
		back, ok := unescape(esc)
		if !ok || back != s || strings.ContainsAny(esc, "\n\r\t\a\f\b\v") {
			return errf("%q is escaped into %q, which means %q", s, esc, back)
		}
		r.ClassIf(esc != s, "escaped")
		r.NonTrivialIf(esc != s)
	}

	// colours
	if plain := strings.ReplaceAll(s, "\a", ""); utf8.ValidString(plain) {
		col := colours[c.K%len(colours)]
		col2 := colours[c.K/7%len(colours)]
		for _, x := range []string{plain, helpers.StripAnsi(col(plain)), helpers.StripAnsi(col2(plain) + col(plain))[len(plain):], helpers.StripAnsi(col(col2(plain)))} {
			if x != plain {
				return errf("%q is %q once its colours are stripped", plain, x)
			}
		}
		if col(plain) == plain || !strings.Contains(col(plain), plain) {
			return errf("%q is coloured into %q", plain, col(plain))
		}
	}

	// comparisons
	if helpers.Min(c.I, c.J) != min(c.I, c.J) || helpers.Max(c.I, c.J) != max(c.I, c.J) || helpers.Min(s, "b") != min(s, "b") || helpers.Max(s, "b") != max(s, "b") {
		return errf("Min, Max of %d, %d: %d, %d", c.I, c.J, helpers.Min(c.I, c.J), helpers.Max(c.I, c.J))
	}
	if helpers.BoolToString(true) != "y" || helpers.BoolToString(false) != "n" || helpers.TypeOfToString(c) != "props.TextCase" {
		return errf("BoolToString, TypeOfToString")
	}
	return nil
}

type KeysCase struct {
	I []int    `json:"i"`
	S []string `json:"s"`
}

func checkKeys(c KeysCase, r *pbt.R) error {
	r.Exec()
	hi, hs := map[int]bool{}, map[string]int{}
	for _, x := range c.I {
		hi[x] = true
	}
	for i, x := range c.S {
		hs[x] = i
	}
	ki, ks := helpers.SortIntKeys(hi), helpers.SortStringKeys(hs)
	if len(ki) != len(hi) || len(ks) != len(hs) {
		return errf("keys of %v, %v: %v, %v", hi, hs, ki, ks)
	}
	for i, k := range ki {
		if _, ok := hi[k]; !ok || i > 0 && ki[i-1] >= k {
			return errf("keys of %v: %v", hi, ki)
		}
	}
	for i, k := range ks {
		if _, ok := hs[k]; !ok || i > 0 && ks[i-1] >= k {
			return errf("keys of %v: %q", hs, ks)
		}
	}
	r.NonTrivialIf(len(ki) >= 3 && len(ks) >= 3)
	return nil
}

// LazyCase: operations on a lazy value (0 and 1: get, 2: is set, 3: set, 4: set
// the function, 5: clear, 6: set a zero).
type LazyCase struct {
	From int   `json:"from"`
	Ops  []int `json:"ops"`
}

func checkLazy(c LazyCase, r *pbt.R) error {
	if e := lazyOf(c, r, func(n int) int { return n % 3 }); e != nil {
		return e
	}
	things := []any{nil, 0, "x"}
	if e := lazyOf(c, r, func(n int) any { return things[n%3] }); e != nil {
		return errf("interfaces: %v", e)
	}
	ptrs := []*int{nil, new(int), new(int)}
	if e := lazyOf(c, r, func(n int) *int { return ptrs[n%3] }); e != nil {
		return errf("pointers: %v", e)
	}
	return lazyOf(c, r, func(n int) string { return []string{"", "x", "y"}[n%3] })
}

func lazyOf[T comparable](c LazyCase, r *pbt.R, val func(int) T) error {
	r.Exec()
	calls, expected := 0, 0
	isSet, hasF := false, false
	var cur T
	next := 1
	fun := func(n int) func() T {
		return func() T { calls++; return val(n) }
	}
	var fval T
	var l *helpers.Lazy[T]
	switch c.From {
	case 0:
		l = helpers.NewLazy[T]()
	case 1:
		cur, isSet = val(next), true
		l = helpers.LazyFromValue(cur)
	case 2:
		fval, hasF = val(next), true
		l = helpers.LazyFromFunc(fun(next))
	}
	computed, overridden := false, false
	for i, op := range c.Ops {
		next++
		switch op {
		case 0, 1:
			if !isSet && !hasF {
				continue // not specified
			}
			if !isSet {
				cur, isSet = fval, true
				expected++
				computed = true
			}
			if got := l.Get(); got != cur {
				return errf("operation %d of %v: Get() returned %v instead of %v", i, c.Ops, got, cur)
			}
		case 3, 6:
			if op == 6 {
				next -= next % 3
			}
			overridden = overridden || isSet || hasF
			cur, isSet = val(next), true
			l.Set(cur)
		case 4:
			if isSet {
				// a value which is already there stays
				overridden = true
			}
			fval, hasF = val(next), true
			l.SetLazy(fun(next))
		case 5:
			isSet, hasF = false, false
			l.Clear()
		}
		if l.IsSet() != isSet {
			return errf("operation %d of %v: IsSet() is %v", i, c.Ops, l.IsSet())
		}
		if calls != expected {
			return errf("operation %d of %v: the function was called %d times instead of %d", i, c.Ops, calls, expected)
		}
	}
	r.NonTrivialIf(computed && overridden)
	return nil
}
