package harness

import (
	"math"

	"github.com/alexander-yu/stream/moment"
	"github.com/alexander-yu/stream/zverif/sym"
)

func checkCore(c *moment.Core, xs []float64, ks []int) {
	sym.Assert(c.Count() == len(xs), "count is the number of values covered")
	m, err := c.Mean()
	if len(xs) == 0 {
		bad(err, "mean of nothing")
		return
	}
	ok(err, "mean")
	sym.Assert(sym.Eq(m, mean(xs)), "mean equals the batch mean")
	sym.ObserveFloat("mean", m)
	for _, k := range ks {
		s, err := c.Sum(k)
		ok(err, "sum of a tracked power")
		sym.Assert(sym.Eq(s, csum(xs, k)), "centralized sum equals the batch sum")
		sym.ObserveFloat("sum", s)
	}
}

// P01Windowed pushes past the window, with one Clear at any point or none.
// bound: windows 0..6 (quick) / 0..8, every set of tracked powers up to 4, window+3 pushes, at most one Clear, at any position
func P01Windowed() {
	w := sym.Choice(sz(7, 9))
	mask := sym.Choice(16)
	n := w + 3
	clearAt := sym.Choice(n+1) - 1
	cfg := &moment.CoreConfig{Window: ip(w)}
	var ks []int
	if mask > 0 {
		cfg.Sums = moment.SumsConfig{}
	}
	for k := 1; k <= 4; k++ {
		if mask&(1<<uint(k-1)) != 0 {
			cfg.Sums[k] = true
			ks = append(ks, k)
		}
	}
	c, err := moment.NewCore(cfg)
	ok(err, "core")
	var xs []float64
	for i := 0; i < n; i++ {
		if i == clearAt {
			c.Clear()
			xs = nil
			checkCore(c, xs, ks)
			sym.Reach("cleared")
		}
		x := sym.Float()
		ok(c.Push(x), "push")
		xs = tail(append(xs, x), w)
		checkCore(c, xs, ks)
	}
	sym.Reach("pushed past the window")
}

// P01High checks high powers.
// bound: power 5..9 (quick) / 5..12, windows 0, 2, 3 and 4 (quick) / 6, window+2 pushes (5 without a window)
func P01High() {
	k := 5 + sym.Choice(sz(5, 8))
	w := []int{0, 2, 3, sz(4, 6)}[sym.Choice(4)]
	c, err := moment.NewCore(&moment.CoreConfig{Window: ip(w), Sums: moment.SumsConfig{k: true}})
	ok(err, "core")
	var xs []float64
	n := w + 2
	if w == 0 {
		n = 5
	}
	for i := 0; i < n; i++ {
		x := sym.Float()
		ok(c.Push(x), "push")
		xs = tail(append(xs, x), w)
		checkCore(c, xs, []int{k})
		sym.Reach("high power")
	}
}

// P01Long keeps one window running for many evictions.
// bound: windows 1..5, 3*window+4 pushes (quick) / windows 1..7, 4*window+4, powers 2..4
func P01Long() {
	w := 1 + sym.Choice(sz(5, 7))
	n := sz(3, 4)*w + 4
	ks := []int{2, 3, 4}
	c, err := moment.NewCore(&moment.CoreConfig{Window: ip(w), Sums: moment.SumsConfig{2: true, 3: true, 4: true}})
	ok(err, "core")
	var xs []float64
	for i := 0; i < n; i++ {
		x := sym.Float()
		ok(c.Push(x), "push")
		xs = tail(append(xs, x), w)
		checkCore(c, xs, ks)
		sym.Reach("long")
	}
}

// P01Zero pushes more values into a core without a window.
// bound: 12 pushes (quick) / 18 pushes, powers 2..4
func P01Zero() {
	ks := []int{2, 3, 4}
	c, err := moment.NewCore(&moment.CoreConfig{Window: ip(0), Sums: moment.SumsConfig{2: true, 3: true, 4: true}})
	ok(err, "core")
	var xs []float64
	for i := 0; i < sz(12, 18); i++ {
		x := sym.Float()
		ok(c.Push(x), "push")
		xs = append(xs, x)
		checkCore(c, xs, ks)
		sym.Reach("zero")
	}
}

// P01Wide uses wider windows, below, at and above the powers of two the queue rounds its capacity to.
// bound: windows 7, 8, 9, 15, 16, 17 (quick) / also 31, 32, 33, window+3 pushes, mean and power 2, Clear while filling or when full, or none
func P01Wide() {
	w := []int{7, 8, 9, 15, 16, 17, 31, 32, 33}[sym.Choice(sz(6, 9))]
	clearAt := []int{-1, w - 2, w + 1}[sym.Choice(3)]
	c, err := moment.NewCore(&moment.CoreConfig{Window: ip(w), Sums: moment.SumsConfig{2: true}})
	ok(err, "core")
	var xs []float64
	for round := 0; round < 2; round++ {
		for i := 0; i < w+3; i++ {
			if i == clearAt {
				break
			}
			x := sym.Float()
			ok(c.Push(x), "push")
			xs = tail(append(xs, x), w)
			if i < 2 || i >= w-2 {
				checkCore(c, xs, []int{2})
			}
			sym.Reach("wide")
		}
		if clearAt < 0 {
			return
		}
		c.Clear()
		xs, clearAt = nil, -1
		checkCore(c, xs, nil)
	}
}

// span is a number of pushes past the window.
func span(w int) int {
	if w == 0 {
		return 6
	}
	return w + 3
}

// drive pushes n values with an optional Clear and reports the window's content at each step.
func drive(w, n int, push func(float64) error, clear func(), check func(xs []float64)) {
	clearAt := sym.Choice(n+1) - 1
	var xs []float64
	for i := 0; i < n; i++ {
		if i == clearAt {
			clear()
			xs = nil
			check(xs)
			sym.Reach("cleared")
		}
		x := sym.Float()
		ok(push(x), "push")
		xs = tail(append(xs, x), w)
		check(xs)
	}
}

func expect(v float64, err error, want float64, what string) {
	ok(err, what)
	sym.Assert(sym.Eq(v, want), what+" equals its sample formula")
	sym.ObserveFloat(what, v)
}

// P02Mean checks Mean.
// bound: windows 0..8 (quick) / 0..10, window+3 pushes (6 without a window), one Clear anywhere
func P02Mean() {
	w := sym.Choice(sz(9, 11))
	m := moment.NewMean(w)
	if w == 0 && sym.Bool() {
		m = moment.NewGlobalMean()
	}
	ok(moment.Init(m), "init")
	drive(w, span(w), m.Push, m.Clear, func(xs []float64) {
		v, err := m.Value()
		if len(xs) == 0 {
			bad(err, "mean of nothing")
			return
		}
		expect(v, err, mean(xs), "mean")
		sym.Reach("mean")
	})
}

// P02Moment checks the k-th Moment.
// bound: k 1..5, windows 0..7 (quick) / k 1..8, windows 0..8; window+3 pushes (6 without a window), one Clear anywhere
func P02Moment() {
	k := 1 + sym.Choice(sz(5, 8))
	w := sym.Choice(sz(8, 9))
	m := moment.New(k, w)
	if w == 0 && sym.Bool() {
		m = moment.NewGlobal(k)
	}
	ok(moment.Init(m), "init")
	drive(w, span(w), m.Push, m.Clear, func(xs []float64) {
		v, err := m.Value()
		if len(xs) == 0 {
			bad(err, "moment of nothing")
			return
		}
		if len(xs) >= 2 {
			expect(v, err, csum(xs, k)/float64(len(xs)-1), "moment")
			sym.Reach("moment")
		}
	})
}

// P02Std checks Std.
// bound: windows 0..8 (quick) / 0..10, window+3 pushes (6 without a window), one Clear anywhere
func P02Std() {
	w := sym.Choice(sz(9, 11))
	m := moment.NewStd(w)
	if w == 0 && sym.Bool() {
		m = moment.NewGlobalStd()
	}
	ok(moment.Init(m), "init")
	drive(w, span(w), m.Push, m.Clear, func(xs []float64) {
		v, err := m.Value()
		if len(xs) == 0 {
			bad(err, "std of nothing")
			return
		}
		if len(xs) >= 2 {
			expect(v, err, math.Sqrt(csum(xs, 2)/float64(len(xs)-1)), "std")
			sym.Reach("std")
		}
	})
}

// P02Skewness checks the adjusted Fisher-Pearson coefficient.
// bound: windows 0, 3..8 (quick) / 0, 3..9, window+2 pushes (6 without a window), one Clear anywhere
// assume: the variance of the window is not zero
func P02Skewness() {
	w := sym.Choice(sz(7, 8))
	n := 6
	if w > 0 {
		w += 2
		n = w + 2
	}
	m := moment.NewSkewness(w)
	if w == 0 && sym.Bool() {
		m = moment.NewGlobalSkewness()
	}
	ok(moment.Init(m), "init")
	drive(w, n, m.Push, m.Clear, func(xs []float64) {
		if len(xs) == 0 {
			_, err := m.Value()
			bad(err, "skewness of nothing")
			return
		}
		if len(xs) < 3 {
			return
		}
		n := float64(len(xs))
		m2, m3 := csum(xs, 2)/n, csum(xs, 3)/n
		sym.Assume(m2 > 0)
		v, err := m.Value()
		expect(v, err, math.Sqrt(n*(n-1))/(n-2)*m3/(m2*math.Sqrt(m2)), "skewness")
		sym.Reach("skewness")
	})
}

// P02Kurtosis checks the sample excess kurtosis.
// bound: windows 0, 2..8 (quick) / 0, 2..9, window+2 pushes (6 without a window), one Clear anywhere
// assume: the variance of the window is not zero
func P02Kurtosis() {
	w := sym.Choice(sz(8, 9))
	n := 6
	if w > 0 {
		w++
		n = w + 2
	}
	m := moment.NewKurtosis(w)
	if w == 0 && sym.Bool() {
		m = moment.NewGlobalKurtosis()
	}
	ok(moment.Init(m), "init")
	drive(w, n, m.Push, m.Clear, func(xs []float64) {
		if len(xs) == 0 {
			_, err := m.Value()
			bad(err, "kurtosis of nothing")
			return
		}
		if len(xs) < 2 {
			return
		}
		n := float64(len(xs))
		m2, m4 := csum(xs, 2)/n, csum(xs, 4)/n
		sym.Assume(m2 > 0)
		v, err := m.Value()
		expect(v, err, m4/(m2*m2)-3, "kurtosis")
		sym.Reach("kurtosis")
	})
}

// P03Core checks a core with decay.
// bound: powers 1..6 tracked together, 6 pushes (quick) / powers to 7, 8 pushes, one Clear anywhere, any decay
func P03Core() {
	a := decay()
	cfg := &moment.CoreConfig{Window: ip(0), Decay: fp(a), Sums: moment.SumsConfig{}}
	kmax := sz(6, 7)
	for k := 1; k <= kmax; k++ {
		cfg.Sums[k] = true
	}
	c, err := moment.NewCore(cfg)
	ok(err, "core")
	drive(0, sz(6, 8), c.Push, c.Clear, func(xs []float64) {
		sym.Assert(c.Count() == len(xs), "count")
		m, err := c.Mean()
		if len(xs) == 0 {
			bad(err, "mean of nothing")
			return
		}
		ws := weights(len(xs), a)
		expect(m, err, wmean(xs, ws), "weighted mean")
		for k := 1; k <= kmax; k++ {
			s, err := c.Sum(k)
			expect(s, err, wsum(xs, ws, k), "weighted sum")
		}
		sym.Reach("weighted core")
	})
}

// P03EWMA checks EWMA.
// bound: 10 pushes (quick) / 14, one Clear anywhere, any decay
func P03EWMA() {
	a := decay()
	m := moment.NewEWMA(a)
	ok(moment.Init(m), "init")
	drive(0, sz(10, 14), m.Push, m.Clear, func(xs []float64) {
		v, err := m.Value()
		if len(xs) == 0 {
			bad(err, "EWMA of nothing")
			return
		}
		expect(v, err, wmean(xs, weights(len(xs), a)), "EWMA")
		sym.Reach("EWMA")
	})
}

// P03EWMMoment checks EWMMoment.
// bound: k 1..7, 6 pushes (quick) / k 1..8, 7 pushes, one Clear anywhere, any decay
func P03EWMMoment() {
	k := 1 + sym.Choice(sz(7, 8))
	a := decay()
	m := moment.NewEWMMoment(k, a)
	ok(moment.Init(m), "init")
	drive(0, sz(6, 7), m.Push, m.Clear, func(xs []float64) {
		v, err := m.Value()
		if len(xs) == 0 {
			bad(err, "EWMMoment of nothing")
			return
		}
		expect(v, err, wsum(xs, weights(len(xs), a), k), "EWMMoment")
		sym.Reach("EWMMoment")
	})
}

// P03EWMStd checks EWMStd.
// bound: 7 pushes (quick) / 8, one Clear anywhere, any decay
func P03EWMStd() {
	a := decay()
	m := moment.NewEWMStd(a)
	ok(moment.Init(m), "init")
	drive(0, sz(7, 8), m.Push, m.Clear, func(xs []float64) {
		v, err := m.Value()
		if len(xs) == 0 {
			bad(err, "EWMStd of nothing")
			return
		}
		expect(v, err, math.Sqrt(wsum(xs, weights(len(xs), a), 2)), "EWMStd")
		sym.Reach("EWMStd")
	})
}
