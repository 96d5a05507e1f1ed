package model

import (
	"sort"
	"strconv"
	"strings"
)

// Val is a production.
type Val struct {
	K     byte // S string, A array, M map, U undefined, N node, I int, ? other
	S     string
	A     []*Val
	Keys  []string // of a map, in order; values in A
	Rule  string   // of a node
	Start int
	End   int
	Line  int
}

var Undef = &Val{K: 'U'}

func Sv(s string) *Val { return &Val{K: 'S', S: s} }
func Iv(n int) *Val    { return &Val{K: 'I', S: strconv.Itoa(n)} }
func Av(a ...*Val) *Val {
	return &Val{K: 'A', A: a}
}

func (v *Val) Get(k string) *Val {
	for i, x := range v.Keys {
		if x == k {
			return v.A[i]
		}
	}
	return nil
}

func (v *Val) with(k string, x *Val) *Val {
	c := &Val{K: 'M'}
	c.Keys = append(c.Keys, v.Keys...)
	c.A = append(c.A, v.A...)
	for i, y := range c.Keys {
		if y == k {
			c.A[i] = x
			return c
		}
	}
	c.Keys = append(c.Keys, k)
	c.A = append(c.A, x)
	return c
}

// Canon is a text which is the same for equal productions.
func (v *Val) Canon(spans bool) string {
	var b strings.Builder
	v.canon(&b, spans)
	return b.String()
}

func (v *Val) canon(b *strings.Builder, spans bool) {
	if v == nil {
		b.WriteString("nil")
		return
	}
	switch v.K {
	case 'S':
		b.WriteString(strconv.Quote(v.S))
	case 'I':
		b.WriteString(v.S)
	case 'U':
		b.WriteString("undefined")
	case 'A':
		b.WriteByte('[')
		for i, x := range v.A {
			if i > 0 {
				b.WriteByte(',')
			}
			x.canon(b, spans)
		}
		b.WriteByte(']')
	case 'M':
		b.WriteByte('{')
		for i, x := range v.A {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(v.Keys[i])
			b.WriteByte(':')
			x.canon(b, spans)
		}
		b.WriteByte('}')
	case 'N':
		b.WriteString("<" + v.Rule)
		if spans {
			b.WriteString("@" + strconv.Itoa(v.Start) + "-" + strconv.Itoa(v.End) + "/" + strconv.Itoa(v.Line))
		}
		b.WriteByte(' ')
		v.A[0].canon(b, spans)
		b.WriteByte('>')
	default:
		b.WriteString("?" + v.S)
	}
}

// SortedKeys is used where the order of keys is not specified.
func (v *Val) SortedKeys() []string {
	a := append([]string{}, v.Keys...)
	sort.Strings(a)
	return a
}

// Walk visits a production, outermost first.
func (v *Val) Walk(f func(*Val)) {
	if v == nil {
		return
	}
	f(v)
	for _, x := range v.A {
		x.Walk(f)
	}
}
