package pbt

import (
	"math/bits"

	"pgregory.net/rapid"
)

// Int draws in [lo,hi].
func Int(t *rapid.T, label string, lo, hi int) int {
	return rapid.IntRange(lo, hi).Draw(t, label)
}

func Bool(t *rapid.T, label string) bool { return rapid.Bool().Draw(t, label) }

// Chance is true about pct% of the time; shrinks to false.
func Chance(t *rapid.T, label string, pct int) bool {
	return Uniform(t, label, 100) >= 100-pct
}

// Uniform draws in [0,n) without rapid's bias to small values: from bits, which
// are the only draws of rapid that have no bias.
func Uniform(t *rapid.T, label string, n int) int {
	if n <= 1 {
		return 0
	}
	k := bits.Len(uint(n - 1))
	for try := 0; ; try++ {
		v := drawBits(t, label, k)
		if v < n {
			return v
		}
		if try == 20 {
			return v % n
		}
	}
}

var coin = rapid.Bool()

func drawBits(t *rapid.T, label string, k int) int {
	v := 0
	for ; k > 0; k-- {
		v <<= 1
		if coin.Draw(t, label) {
			v++
		}
	}
	return v
}

func Pick[T any](t *rapid.T, label string, a []T) T {
	return a[Uniform(t, label, len(a))]
}

// Tape is a list of small numbers which decides later choices.
func Tape(t *rapid.T, label string, max int) []int {
	return rapid.SliceOfN(rapid.IntRange(0, 251), 0, max).Draw(t, label)
}

// FullTape is a tape whose length is not biased to short ones.
func FullTape(t *rapid.T, label string, n int) []int {
	tape := make([]int, n)
	for i := range tape {
		tape[i] = drawBits(t, label, 8) % 252
	}
	return tape
}

// TapeReader consumes a tape; it yields 0 once exhausted.
type TapeReader struct {
	T []int
	i int
}

func (r *TapeReader) Next(n int) int {
	if n <= 0 || r.i >= len(r.T) {
		return 0
	}
	v, span := 0, 1
	for span < n && r.i < len(r.T) { // an entry has 252 values: a larger n takes several
		v = v*252 + r.T[r.i]
		span *= 252
		r.i++
	}
	return v % n
}

func (r *TapeReader) Done() bool { return r.i >= len(r.T) }
