package harness

import (
	"math"

	"github.com/alexander-yu/stream/joint"
	"github.com/alexander-yu/stream/moment"
	"github.com/alexander-yu/stream/zverif/sym"
)

// The streams of this file are long. Most of their values are fixed, those at a few places are
// arbitrary; the claims hold for every value at these places.

// bulk is the i-th fixed value: small numbers with repetitions, rises and falls.
func bulk(i int) float64 { return float64((i*i*7+i*13)%31)/4 - 3 }

// flow is a long stream of n values with arbitrary ones at the given places.
func flow(n int, at ...int) []float64 {
	xs := make([]float64, n)
	for i := range xs {
		xs[i] = bulk(i)
	}
	for _, i := range at {
		if i >= 0 && i < n {
			xs[i] = sym.Float()
		}
	}
	return xs
}

// places are where a stream of n values for window w has its arbitrary values.
func places(n, w int) []int {
	if w > 0 && n > w+2 {
		if n > 100 {
			return []int{n - w - 1, n - 1}
		}
		return []int{n - w - 2, n - w - 1, n - 2, n - 1}
	}
	if n > 100 {
		return []int{n - 2, n - 1}
	}
	return []int{0, n / 2, n - 2, n - 1}
}

// deepWindow is a window and a number of pushes.
func deepWindow() (int, int) {
	switch sym.Choice(sz(7, 10)) {
	case 0:
		return 0, 70
	case 1:
		return 0, 1100
	case 2:
		return 12, 60
	case 3:
		return 33, 140
	case 4:
		return 64, 150
	case 5:
		return 129, 300
	case 6:
		return 257, 530
	case 7:
		return 100, 1000
	case 8:
		return 1000, 1010
	}
	return 0, 5000
}

// P01Deep pushes long streams into univariate cores.
// flags: maxsteps=200000000
// bound: windows 12, 33, 64, 129 and 257 with 60..530 pushes, no window with 70 and 1100 (quick) / also windows 100 and 1000 with 1000 and 1010, no window with 5000; powers 2 to 4 (2 and 3 for windows above 100) tracked; 2 arbitrary values (4 up to 100 pushes), one of them evicted in the end, the others fixed
func P01Deep() {
	w, n := deepWindow()
	ks := []int{2, 3, 4}
	if w > 100 {
		ks = ks[:2]
	}
	cfg := &moment.CoreConfig{Window: ip(w), Sums: moment.SumsConfig{}}
	for _, k := range ks {
		cfg.Sums[k] = true
	}
	c, err := moment.NewCore(cfg)
	ok(err, "core")
	xs := flow(n, places(n, w)...)
	for i, x := range xs {
		ok(c.Push(x), "push")
		if i >= n-2 || i == w || i%499 == 0 {
			checkCore(c, tail(xs[:i+1], w), ks)
		}
	}
	sym.Reach("deep")
}

// P02Deep pushes long streams into every univariate metric.
// flags: maxsteps=200000000
// bound: as P01Deep, Moment of powers 2 and 3; 2 arbitrary values for Skewness and Kurtosis (1 for windows above 100)
// assume: the variance is not zero
func P02Deep() {
	w, n := deepWindow()
	kind := sym.Choice(6)
	at := places(n, w)
	if kind >= 4 {
		at = at[len(at)-2:]
		if w > 100 {
			at = at[1:]
		}
	}
	xs := flow(n, at...)
	m := []moment.Metric{moment.NewMean(w), moment.New(2, w), moment.New(3, w), moment.NewStd(w), moment.NewSkewness(w), moment.NewKurtosis(w)}[kind]
	ok(moment.Init(m), "init")
	for i, x := range xs {
		ok(m.Push(x), "push")
		if i < n-1 && i%499 != 498 {
			continue
		}
		t := tail(xs[:i+1], w)
		l := float64(len(t))
		v, err := m.Value()
		switch kind {
		case 0:
			expect(v, err, mean(t), "mean")
		case 1:
			expect(v, err, csum(t, 2)/(l-1), "moment")
		case 2:
			expect(v, err, csum(t, 3)/(l-1), "moment")
		case 3:
			expect(v, err, math.Sqrt(csum(t, 2)/(l-1)), "std")
		case 4:
			m2, m3 := csum(t, 2)/l, csum(t, 3)/l
			expect(v, err, math.Sqrt(l*(l-1))/(l-2)*m3/(m2*math.Sqrt(m2)), "skewness")
		case 5:
			m2, m4 := csum(t, 2)/l, csum(t, 4)/l
			expect(v, err, m4/(m2*m2)-3, "kurtosis")
		}
	}
	sym.Reach("deep")
}

// P03Deep pushes long streams into exponentially weighted univariate metrics.
// flags: maxsteps=200000000
// bound: decay 1/2 or 1/4, 150 pushes (quick) / 600, the first, one in the middle and the last two arbitrary
func P03Deep() {
	a := []float64{0.5, 0.25}[sym.Choice(2)]
	n := sz(150, 600)
	kind := sym.Choice(4)
	xs := flow(n, 0, n/2, n-2, n-1)
	m := []moment.Metric{moment.NewEWMA(a), moment.NewEWMMoment(3, a), moment.NewEWMStd(a), moment.NewEWMMoment(4, a)}[kind]
	ok(moment.Init(m), "init")
	for i, x := range xs {
		ok(m.Push(x), "push")
		if i < n-2 && i%50 != 0 {
			continue
		}
		t := xs[:i+1]
		ws := weights(i+1, a)
		v, err := m.Value()
		switch kind {
		case 0:
			expect(v, err, wmean(t, ws), "EWMA")
		case 1:
			expect(v, err, wsum(t, ws, 3), "EWMMoment")
		case 2:
			expect(v, err, math.Sqrt(wsum(t, ws, 2)), "EWMStd")
		case 3:
			expect(v, err, wsum(t, ws, 4), "EWMMoment")
		}
	}
	sym.Reach("deep")
}

// pairs is a long stream of observations of d variables with arbitrary ones at the given places.
func pairs(n, d int, at ...int) [][]float64 {
	rows := make([][]float64, n)
	for i := range rows {
		rows[i] = make([]float64, d)
		for j := range rows[i] {
			rows[i][j] = bulk(i*(2*j+1) + 5*j)
		}
	}
	for _, i := range at {
		if i >= 0 && i < n {
			rows[i] = obs(d)
		}
	}
	return rows
}

// P04Deep pushes long streams into joint cores.
// flags: maxsteps=400000000
// bound: windows 12, 64, 129 and 257 with 60..530 pushes, no window with 1100 / also window 1000 with 2010, no window with 2000; tuple sets of 2 and 3 variables; one observation about to be evicted and the last one arbitrary, the others fixed
func P04Deep() {
	w, n := 0, sz(1100, 2000)
	switch sym.Choice(sz(5, 6)) {
	case 1:
		w, n = 12, 60
	case 2:
		w, n = 64, 150
	case 3:
		w, n = 129, 270
	case 4:
		w, n = 257, 530
	case 5:
		w, n = 1000, 2010
	}
	set := [][]joint.Tuple{{{1, 1}, {2, 0}, {0, 2}}, {{2, 1}, {1, 2}}, {{1, 1, 1}}}[sym.Choice(3)]
	d := len(set[0])
	c, err := joint.NewCore(&joint.CoreConfig{Sums: copySums(set), Window: ip(w)})
	ok(err, "core")
	es := dominated(set)
	rows := pairs(n, d, n-w-1, n-1)
	for i, x := range rows {
		ok(c.Push(x...), "push")
		if i >= n-2 || i == w {
			checkJoint(c, jtail(rows[:i+1], w), d, es)
		}
	}
	sym.Reach("deep")
}

// P05Deep pushes long streams into Cov and Corr.
// flags: maxsteps=400000000
// bound: windows 12, 33, 129 and 257 with 60..530 pushes, no window with 1100 / also window 1000 with 2010, no window with 2000; one pair about to be evicted and the last two (the last one for Corr) arbitrary, the others fixed
// assume: neither variable is constant in the window
func P05Deep() {
	w, n := 0, sz(1100, 2000)
	switch sym.Choice(sz(5, 6)) {
	case 1:
		w, n = 12, 60
	case 2:
		w, n = 33, 80
	case 3:
		w, n = 129, 270
	case 4:
		w, n = 257, 530
	case 5:
		w, n = 1000, 2010
	}
	if sym.Bool() {
		m := joint.NewCov(w)
		ok(joint.Init(m), "init")
		rows := pairs(n, 2, n-w-2, n-2, n-1)
		for i, x := range rows {
			ok(m.Push(x...), "push")
			if i >= n-2 {
				t := jtail(rows[:i+1], w)
				v, err := m.Value()
				expect(v, err, jsum(t, joint.Tuple{1, 1})/float64(len(t)-1), "cov")
			}
		}
		sym.Reach("cov")
		return
	}
	m := joint.NewCorr(w)
	ok(joint.Init(m), "init")
	rows := pairs(n, 2, n-w-1, n-1)
	for _, x := range rows {
		ok(m.Push(x...), "push")
	}
	t := jtail(rows, w)
	vx, vy := jsum(t, joint.Tuple{2, 0}), jsum(t, joint.Tuple{0, 2})
	sym.Assume(vx > 0)
	sym.Assume(vy > 0)
	v, err := m.Value()
	expect(v, err, jsum(t, joint.Tuple{1, 1})/math.Sqrt(vx*vy), "corr")
	sym.Reach("corr")
}

// P06Deep pushes long streams into EWMCov and EWMCorr.
// flags: maxsteps=400000000
// bound: decay 1/2 or 1/4, 400 pushes (quick) / 600, the first pair and the last two (EWMCorr: the last) arbitrary
// assume: neither variable is constant
func P06Deep() {
	a := []float64{0.5, 0.25}[sym.Choice(2)]
	n := sz(400, 600)
	ws := weights(n, a)
	if sym.Bool() {
		m := joint.NewEWMCov(a)
		ok(joint.Init(m), "init")
		rows := pairs(n, 2, 0, n-2, n-1)
		for _, x := range rows {
			ok(m.Push(x...), "push")
		}
		v, err := m.Value()
		expect(v, err, jwsum(rows, ws, joint.Tuple{1, 1}), "EWMCov")
		sym.Reach("EWMCov")
		return
	}
	m := joint.NewEWMCorr(a)
	ok(joint.Init(m), "init")
	rows := pairs(n, 2, n-1)
	for _, x := range rows {
		ok(m.Push(x...), "push")
	}
	vx, vy := jwsum(rows, ws, joint.Tuple{2, 0}), jwsum(rows, ws, joint.Tuple{0, 2})
	sym.Assume(vx > 0)
	sym.Assume(vy > 0)
	v, err := m.Value()
	expect(v, err, jwsum(rows, ws, joint.Tuple{1, 1})/math.Sqrt(vx*vy), "EWMCorr")
	sym.Reach("EWMCorr")
}

// P07Deep uses long lags.
// flags: maxsteps=400000000
// bound: lags 10, 16, 17, 40 and 130 with windows 0, 5 and 20 and lag+window+8 pushes; one value lag steps before the last, the one evicted last and the last one arbitrary
// assume: neither series of the pairs is constant in the window
func P07Deep() {
	lag := []int{10, 16, 17, 40, 130}[sym.Choice(5)]
	w := []int{0, 5, 20}[sym.Choice(3)]
	n := lag + w + 8
	if sym.Bool() {
		m, err := joint.NewAutocov(lag, w)
		ok(err, "constructor")
		ok(joint.Init(m), "init")
		xs := flow(n, n-1-lag-w, n-1-lag, n-1)
		for i, x := range xs {
			ok(m.Push(x), "push")
			if rows := lagPairs(xs[:i+1], lag, w); len(rows) == 0 {
				_, err := m.Value()
				bad(err, "Autocov without a complete pair")
			} else if len(rows) > 1 {
				v, err := m.Value()
				expect(v, err, jsum(rows, joint.Tuple{1, 1})/float64(len(rows)-1), "Autocov")
			}
		}
		sym.Reach("Autocov")
		return
	}
	m, err := joint.NewAutocorr(lag, w)
	ok(err, "constructor")
	ok(joint.Init(m), "init")
	xs := flow(n, n-1-lag-w, n-1)
	for _, x := range xs {
		ok(m.Push(x), "push")
	}
	rows := lagPairs(xs, lag, w)
	vx, vy := jsum(rows, joint.Tuple{2, 0}), jsum(rows, joint.Tuple{0, 2})
	sym.Assume(vx > 0)
	sym.Assume(vy > 0)
	v, err := m.Value()
	expect(v, err, jsum(rows, joint.Tuple{1, 1})/math.Sqrt(vx*vy), "Autocorr")
	sym.Reach("Autocorr")
}
