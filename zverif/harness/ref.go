// Package harness holds the properties as executable specifications over the public API.
package harness

import "github.com/alexander-yu/stream/zverif/sym"

func ip(v int) *int           { return &v }
func fp(v float64) *float64   { return &v }
func ok(err error, m string)  { sym.Assert(err == nil, m+" must succeed") }
func bad(err error, m string) { sym.Assert(err != nil, m+" must be an error") }

// sz picks the quick or the thorough bound.
func sz(quick, thorough int) int {
	if sym.Thorough() {
		return thorough
	}
	return quick
}

// ipow is x^k by multiplication.
func ipow(x float64, k int) float64 {
	r := 1.0
	for i := 0; i < k; i++ {
		r *= x
	}
	return r
}

func mean(xs []float64) float64 {
	s := 0.0
	for _, x := range xs {
		s += x
	}
	return s / float64(len(xs))
}

// csum is the k-th centralized power sum.
func csum(xs []float64, k int) float64 {
	m := mean(xs)
	s := 0.0
	for _, x := range xs {
		s += ipow(x-m, k)
	}
	return s
}

// tail is the part of xs a window covers (0: everything).
func tail(xs []float64, w int) []float64 {
	if w > 0 && len(xs) > w {
		return xs[len(xs)-w:]
	}
	return xs
}

// weights are those of an exponentially weighted statistic over n values.
func weights(n int, a float64) []float64 {
	ws := make([]float64, n)
	for i := range ws {
		ws[i] = ipow(1-a, n-1-i)
		if i > 0 {
			ws[i] *= a
		}
	}
	return ws
}

func wmean(xs, ws []float64) float64 {
	s := 0.0
	for i := range xs {
		s += ws[i] * xs[i]
	}
	return s
}

// wsum is the weighted k-th central sum about the weighted mean.
func wsum(xs, ws []float64, k int) float64 {
	m := wmean(xs, ws)
	s := 0.0
	for i := range xs {
		s += ws[i] * ipow(xs[i]-m, k)
	}
	return s
}

// decay is any number strictly between 0 and 1.
func decay() float64 {
	a := sym.Float()
	sym.Assume(a > 0)
	sym.Assume(a < 1)
	return a
}
