package harness

import (
	"github.com/alexander-yu/stream/joint"
	"github.com/alexander-yu/stream/moment"
	"github.com/alexander-yu/stream/zverif/sym"
)

// The harnesses of this file compute in IEEE 754 doubles, rounding included.

// offset is what all values of a stream have in common.
func offset() float64 { return []float64{1e9, -3e8, 1e7}[sym.Choice(3)] }

// P31Core pushes values with a large common part into a core.
// flags: mode=fp ring=fifo qtimeout=120000
// bound: offsets 1e9, -3e8, 1e7; windows 0 and 3, 4 pushes of the offset and a small whole number, one of them arbitrary in 0..15
func P31Core() {
	c0 := offset()
	w := 3 * sym.Choice(2)
	n := 4
	ds := make([]int, n)
	for i := range ds {
		ds[i] = i * 5 % 7
	}
	ds[n-1-2*sym.Choice(2)] = sym.Int(0, 15)
	c, err := moment.NewCore(&moment.CoreConfig{Window: ip(w), Sums: moment.SumsConfig{2: true}})
	ok(err, "core")
	for _, d := range ds {
		ok(c.Push(c0+float64(d)), "push")
	}
	if w > 0 {
		ds = ds[n-w:]
	}
	s, q := 0, 0
	for _, d := range ds {
		s += d
		q += d * d
	}
	got, err := c.Sum(2)
	ok(err, "sum")
	diff := got*float64(len(ds)) - float64(len(ds)*q-s*s)
	sym.Assert(sym.And(diff <= 0.01, diff >= -0.01), "a large offset does not spoil the sum of squares")
	sym.Reach("stable")
}

// P31Joint pushes pairs with large common parts into a joint core.
// flags: mode=fp ring=fifo qtimeout=120000
// bound: offsets 1e9, -3e8, 1e7 for the first variable and 3e8 for the second; windows 0 and 3, 4 pushes of the offsets and small whole numbers, one of the first variable arbitrary in 0..15
func P31Joint() {
	c0 := offset()
	w := 3 * sym.Choice(2)
	n := 4
	xs, ys := make([]int, n), make([]int, n)
	for i := range xs {
		xs[i], ys[i] = i*5%7, i*3%5
	}
	xs[n-1-2*sym.Choice(sz(1, 2))] = sym.Int(0, 15)
	c, err := joint.NewCore(&joint.CoreConfig{Window: ip(w), Sums: joint.SumsConfig{{1, 1}}})
	ok(err, "core")
	for i := range xs {
		ok(c.Push(c0+float64(xs[i]), 3e8+float64(ys[i])), "push")
	}
	if w > 0 {
		xs, ys = xs[n-w:], ys[n-w:]
	}
	s, t, q := 0, 0, 0
	for i := range xs {
		s += xs[i]
		t += ys[i]
		q += xs[i] * ys[i]
	}
	got, err := c.Sum(1, 1)
	ok(err, "sum")
	diff := got*float64(len(xs)) - float64(len(xs)*q-s*t)
	sym.Assert(sym.And(diff <= 0.01, diff >= -0.01), "large offsets do not spoil the sum of products")
	sym.Reach("stable")
}

// P31Long ends a long stream with an arbitrary value.
// flags: mode=fp ring=fifo qtimeout=120000 maxsteps=200000000
// bound: offsets 1e9, -3e8, 1e7; windows 0, 7 and 50 of a univariate core, 400 fixed pushes (quick) / 3000 and one arbitrary small whole number in 0..15 with the offset
func P31Long() {
	c0 := offset()
	w := []int{0, 7, 50}[sym.Choice(3)]
	n := sz(400, 3000)
	ds := make([]int, n+1)
	for i := range ds {
		ds[i] = (i*i*3 + i) % 13
	}
	ds[n] = sym.Int(0, 15)
	c, err := moment.NewCore(&moment.CoreConfig{Window: ip(w), Sums: moment.SumsConfig{2: true}})
	ok(err, "core")
	for _, d := range ds {
		ok(c.Push(c0+float64(d)), "push")
	}
	if w > 0 {
		ds = ds[n+1-w:]
	}
	s, q := 0, 0
	for _, d := range ds {
		s += d
		q += d * d
	}
	got, err := c.Sum(2)
	ok(err, "sum")
	size := float64(len(ds))
	diff := got*size - float64(len(ds)*q-s*s)
	sym.Assert(sym.And(diff <= 0.01*size*size, diff >= -0.01*size*size), "a large offset does not spoil the sum of squares of a long stream")
	sym.Reach("stable")
}

// P31Spread has a window fill up with one value.
// flags: mode=fp ring=fifo qtimeout=120000
// bound: window 2 (quick) / windows 2 and 3, one arbitrary multiple of 1/10 up to 1.5 before as many equal values (1/10, 7/10 or 1e9) as the window holds
func P31Spread() {
	w := 2 + sym.Choice(sz(1, 2))
	m := moment.NewStd(w)
	ok(moment.Init(m), "Init")
	ok(m.Push(float64(sym.Int(0, 15))/10), "push")
	x := []float64{0.1, 0.7, 1e9}[sym.Choice(3)]
	for i := 0; i < w; i++ {
		ok(m.Push(x), "push")
	}
	v, err := m.Value()
	ok(err, "std")
	sym.Assert(v >= 0, "a standard deviation is a number and not negative")
	sym.Reach("spread")
}

// P31Decay pushes values with a large common part into decaying cores.
// flags: mode=fp ring=fifo qtimeout=120000
// bound: offsets 1e9, -3e8, 1e7; decay 1/2 or 1/4; univariate and joint (the second variable around 3e8), 3 pushes of the offset and a small whole number, the last or the last but one arbitrary in 0..15
func P31Decay() {
	c0 := offset()
	a := []float64{0.5, 0.25}[sym.Choice(2)]
	const n = 3
	xs, ys := make([]int, n), make([]int, n)
	for i := range xs {
		xs[i], ys[i] = i*5%7, i*3%5
	}
	xs[n-1-sym.Choice(sz(1, 2))] = sym.Int(0, 15)
	var got float64
	joined := sym.Bool()
	if joined {
		c, err := joint.NewCore(&joint.CoreConfig{Window: ip(0), Decay: &a, Sums: joint.SumsConfig{{1, 1}}})
		ok(err, "core")
		for i := range xs {
			ok(c.Push(c0+float64(xs[i]), 3e8+float64(ys[i])), "push")
		}
		got, err = c.Sum(1, 1)
		ok(err, "sum")
	} else {
		c, err := moment.NewCore(&moment.CoreConfig{Window: ip(0), Decay: &a, Sums: moment.SumsConfig{2: true}})
		ok(err, "core")
		for i := range xs {
			ok(c.Push(c0+float64(xs[i])), "push")
		}
		got, err = c.Sum(2)
		ok(err, "sum")
		ys = xs
	}
	// weights in units of (1/4)^n: exact whole numbers
	unit := 1
	for i := 0; i < n; i++ {
		unit *= 4
	}
	k := int(4 * a)
	s, t, q := 0, 0, 0
	for i := range xs {
		wt := unit
		if i > 0 {
			wt = wt * k / 4
		}
		for j := i + 1; j < n; j++ {
			wt = wt * (4 - k) / 4
		}
		s += wt * xs[i]
		t += wt * ys[i]
		q += wt * xs[i] * ys[i]
	}
	u := float64(unit)
	diff := got*u*u - float64(unit*q-s*t)
	sym.Assert(sym.And(diff <= 0.01*u*u, diff >= -0.01*u*u), "a large offset does not spoil decaying sums")
	sym.Reach("decay")
}
