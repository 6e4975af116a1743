package harness

import (
	"math"

	"github.com/alexander-yu/stream/joint"
	"github.com/alexander-yu/stream/moment"
	"github.com/alexander-yu/stream/zverif/sym"
)

func obs(d int) []float64 {
	x := make([]float64, d)
	for i := range x {
		x[i] = sym.Float()
	}
	return x
}

func column(rows [][]float64, i int) []float64 {
	c := make([]float64, len(rows))
	for r := range rows {
		c[r] = rows[r][i]
	}
	return c
}

// jsum is the joint central sum of the given exponents.
func jsum(rows [][]float64, e joint.Tuple) float64 {
	ms := make([]float64, len(e))
	for i := range e {
		ms[i] = mean(column(rows, i))
	}
	s := 0.0
	for _, r := range rows {
		t := 1.0
		for i := range e {
			t *= ipow(r[i]-ms[i], e[i])
		}
		s += t
	}
	return s
}

func jwsum(rows [][]float64, ws []float64, e joint.Tuple) float64 {
	ms := make([]float64, len(e))
	for i := range e {
		ms[i] = wmean(column(rows, i), ws)
	}
	s := 0.0
	for j, r := range rows {
		t := ws[j]
		for i := range e {
			t *= ipow(r[i]-ms[i], e[i])
		}
		s += t
	}
	return s
}

func jtail(rows [][]float64, w int) [][]float64 {
	if w > 0 && len(rows) > w {
		return rows[len(rows)-w:]
	}
	return rows
}

// dominated lists every nonzero tuple below some tuple of the set, once.
func dominated(set []joint.Tuple) []joint.Tuple {
	var out []joint.Tuple
	for _, t := range set {
		n := 1
		for _, e := range t {
			n *= e + 1
		}
		for i := 1; i < n; i++ {
			x := make(joint.Tuple, len(t))
			r := i
			for j, e := range t {
				x[j] = r % (e + 1)
				r /= e + 1
			}
			dup := false
			for _, y := range out {
				same := true
				for j := range y {
					same = same && x[j] == y[j]
				}
				dup = dup || same
			}
			if !dup {
				out = append(out, x)
			}
		}
	}
	return out
}

// jsets are tuple sets with single, overlapping, nested, duplicate and zero-exponent tuples.
func jsets(all bool) [][]joint.Tuple {
	s := [][]joint.Tuple{
		{{1, 1}},
		{{1, 1}, {2, 0}, {0, 2}},
		{{1, 1}, {1, 1}},
		{{2, 1}, {1, 2}},
		{{2, 2}},
		{{0, 3}},
		{{1, 0}, {0, 1}},
		{{2, 1}, {1, 1}, {2, 0}},
		{{1, 1, 1}},
		{{1, 1, 0}, {0, 1, 1}, {1, 0, 1}},
		{{2, 0, 1}, {0, 1, 1}},
		{{3, 1}},
	}
	if sym.Thorough() || all {
		s = append(s, [][]joint.Tuple{
			{{3, 2}},
			{{4, 0}, {0, 4}, {2, 2}},
			{{1, 1, 1}, {2, 0, 0}, {0, 2, 0}, {0, 0, 2}},
			{{1, 1, 1, 1}},
			{{2, 1, 1}},
			{{0, 0, 2}, {2, 0, 0}, {2, 0, 0}},
			{{1, 4}},
		}...)
	}
	return s
}

func copySums(set []joint.Tuple) joint.SumsConfig {
	s := joint.SumsConfig{}
	for _, t := range set {
		s = append(s, append(joint.Tuple{}, t...))
	}
	return s
}

func checkJoint(c *joint.Core, rows [][]float64, d int, es []joint.Tuple) {
	sym.Assert(c.Count() == len(rows), "count is the number of observations covered")
	for i := 0; i < d; i++ {
		m, err := c.Mean(i)
		if len(rows) == 0 {
			bad(err, "mean of nothing")
			continue
		}
		expect(m, err, mean(column(rows, i)), "mean of a variable")
	}
	for _, e := range es {
		s, err := c.Sum(e...)
		if len(rows) == 0 {
			bad(err, "sum of nothing")
			continue
		}
		expect(s, err, jsum(rows, e), "joint sum")
	}
}

// P04Core checks count, means and every non-zero dominated tuple.
// bound: 19 tuple sets, windows 0..3 (quick) / 0..5, window+2 pushes (4 without a window), one Clear anywhere
func P04Core() {
	sets := jsets(true)
	set := sets[sym.Choice(len(sets))]
	w := sym.Choice(sz(4, 6))
	d := len(set[0])
	n := w + 2
	if w == 0 {
		n = 4
	}
	clearAt := sym.Choice(n+1) - 1
	c, err := joint.NewCore(&joint.CoreConfig{Sums: copySums(set), Window: ip(w)})
	ok(err, "core")
	es := dominated(set)
	var rows [][]float64
	for i := 0; i < n; i++ {
		if i == clearAt {
			c.Clear()
			rows = nil
			checkJoint(c, rows, d, es)
			sym.Reach("cleared")
		}
		x := obs(d)
		ok(c.Push(x...), "push")
		rows = jtail(append(rows, x), w)
		checkJoint(c, rows, d, es)
	}
	sym.Reach("done")
}

// P04Long keeps a window running for several evictions.
// bound: 6 tuple sets, windows 1..5 (quick) / 1..7, 2*window+3 pushes
func P04Long() {
	set := jsets(false)[sym.Choice(6)]
	w := 1 + sym.Choice(sz(5, 7))
	c, err := joint.NewCore(&joint.CoreConfig{Sums: copySums(set), Window: ip(w), Vars: ip(2)})
	ok(err, "core")
	es := dominated(set)
	var rows [][]float64
	for i := 0; i < 2*w+3; i++ {
		x := obs(2)
		ok(c.Push(x...), "push")
		rows = jtail(append(rows, x), w)
		checkJoint(c, rows, 2, es)
	}
	sym.Reach("long")
}

// P04NoSums tracks means only.
// bound: 2..3 variables, windows 0..3, window+3 pushes
func P04NoSums() {
	d := 2 + sym.Choice(2)
	w := sym.Choice(4)
	c, err := joint.NewCore(&joint.CoreConfig{Window: ip(w), Vars: ip(d)})
	ok(err, "core")
	var rows [][]float64
	for i := 0; i < w+3; i++ {
		x := obs(d)
		ok(c.Push(x...), "push")
		rows = jtail(append(rows, x), w)
		checkJoint(c, rows, d, nil)
	}
	sym.Reach("means only")
}

// jdrive pushes n pairs with an optional Clear.
func jdrive(w, n int, push func(...float64) error, clear func(), check func(rows [][]float64)) {
	clearAt := sym.Choice(n+1) - 1
	var rows [][]float64
	for i := 0; i < n; i++ {
		if i == clearAt {
			clear()
			rows = nil
			check(rows)
			sym.Reach("cleared")
		}
		x := obs(2)
		ok(push(x...), "push")
		rows = jtail(append(rows, x), w)
		check(rows)
	}
}

// P05Cov checks Cov.
// bound: windows 0..8 (quick) / 0..10, window+3 pushes (6 without a window), one Clear anywhere
func P05Cov() {
	w := sym.Choice(sz(9, 11))
	m := joint.NewCov(w)
	if w == 0 && sym.Bool() {
		m = joint.NewGlobalCov()
	}
	ok(joint.Init(m), "init")
	jdrive(w, span(w), m.Push, m.Clear, func(rows [][]float64) {
		v, err := m.Value()
		if len(rows) == 0 {
			bad(err, "cov of nothing")
			return
		}
		if len(rows) >= 2 {
			expect(v, err, jsum(rows, joint.Tuple{1, 1})/float64(len(rows)-1), "cov")
			sym.Reach("cov")
		}
	})
}

// P05Corr checks Corr.
// bound: windows 0..6 (quick) / 0..7, window+2 pushes (5 without a window), one Clear anywhere
// assume: neither variable is constant in the window
func P05Corr() {
	w := sym.Choice(sz(7, 8))
	n := w + 2
	if w == 0 {
		n = 5
	}
	m := joint.NewCorr(w)
	if w == 0 && sym.Bool() {
		m = joint.NewGlobalCorr()
	}
	ok(joint.Init(m), "init")
	jdrive(w, n, m.Push, m.Clear, func(rows [][]float64) {
		if len(rows) == 0 {
			_, err := m.Value()
			bad(err, "corr of nothing")
			return
		}
		if len(rows) < 2 {
			return
		}
		vx, vy := jsum(rows, joint.Tuple{2, 0}), jsum(rows, joint.Tuple{0, 2})
		sym.Assume(vx > 0)
		sym.Assume(vy > 0)
		v, err := m.Value()
		expect(v, err, jsum(rows, joint.Tuple{1, 1})/math.Sqrt(vx*vy), "corr")
		sym.Reach("corr")
	})
}

// P05Symmetric swaps the variables.
// bound: windows 0..5, window+2 pushes
// assume: neither variable is constant in the window
func P05Symmetric() {
	w := sym.Choice(6)
	a, b := joint.NewCorr(w), joint.NewCorr(w)
	c, d := joint.NewCov(w), joint.NewCov(w)
	ok(joint.Init(a), "init")
	ok(joint.Init(b), "init")
	ok(joint.Init(c), "init")
	ok(joint.Init(d), "init")
	var rows [][]float64
	for i := 0; i < w+2; i++ {
		x, y := sym.Float(), sym.Float()
		rows = jtail(append(rows, []float64{x, y}), w)
		ok(a.Push(x, y), "push")
		ok(b.Push(y, x), "push")
		ok(c.Push(x, y), "push")
		ok(d.Push(y, x), "push")
	}
	if len(rows) < 2 {
		return
	}
	sym.Assume(jsum(rows, joint.Tuple{2, 0}) > 0)
	sym.Assume(jsum(rows, joint.Tuple{0, 2}) > 0)
	va, ea := a.Value()
	vb, eb := b.Value()
	ok(ea, "corr")
	expect(vb, eb, va, "swapped corr")
	vc, ec := c.Value()
	vd, ed := d.Value()
	ok(ec, "cov")
	expect(vd, ed, vc, "swapped cov")
	sym.Reach("symmetric")
}

// P06Core checks a joint core with decay.
// bound: 19 tuple sets, 3 pushes (quick) / 4, one Clear anywhere, any decay
func P06Core() {
	a := decay()
	sets := jsets(true)
	set := sets[sym.Choice(len(sets))]
	d := len(set[0])
	n := sz(3, 4)
	clearAt := sym.Choice(n+1) - 1
	c, err := joint.NewCore(&joint.CoreConfig{Sums: copySums(set), Window: ip(0), Decay: fp(a)})
	ok(err, "core")
	es := dominated(set)
	var rows [][]float64
	for i := 0; i < n; i++ {
		if i == clearAt {
			c.Clear()
			rows = nil
			checkJoint(c, rows, d, es)
		}
		x := obs(d)
		ok(c.Push(x...), "push")
		rows = append(rows, x)
		sym.Assert(c.Count() == len(rows), "count")
		ws := weights(len(rows), a)
		for j := 0; j < d; j++ {
			m, err := c.Mean(j)
			expect(m, err, wmean(column(rows, j), ws), "weighted mean of a variable")
		}
		for _, e := range es {
			s, err := c.Sum(e...)
			expect(s, err, jwsum(rows, ws, e), "weighted joint sum")
		}
	}
	sym.Reach("weighted joint core")
}

// P06EWMCov checks EWMCov.
// bound: 7 pushes (quick) / 10, one Clear anywhere, any decay
func P06EWMCov() {
	a := decay()
	m := joint.NewEWMCov(a)
	ok(joint.Init(m), "init")
	jdrive(0, sz(7, 10), m.Push, m.Clear, func(rows [][]float64) {
		v, err := m.Value()
		if len(rows) == 0 {
			bad(err, "EWMCov of nothing")
			return
		}
		expect(v, err, jwsum(rows, weights(len(rows), a), joint.Tuple{1, 1}), "EWMCov")
		sym.Reach("EWMCov")
	})
}

// P06EWMCorr checks EWMCorr.
// bound: 5 pushes (quick) / 7, one Clear anywhere, any decay
// assume: neither variable is constant
func P06EWMCorr() {
	a := decay()
	m := joint.NewEWMCorr(a)
	ok(joint.Init(m), "init")
	jdrive(0, sz(5, 7), m.Push, m.Clear, func(rows [][]float64) {
		if len(rows) == 0 {
			_, err := m.Value()
			bad(err, "EWMCorr of nothing")
			return
		}
		if len(rows) < 2 {
			return
		}
		ws := weights(len(rows), a)
		vx, vy := jwsum(rows, ws, joint.Tuple{2, 0}), jwsum(rows, ws, joint.Tuple{0, 2})
		sym.Assume(vx > 0)
		sym.Assume(vy > 0)
		v, err := m.Value()
		expect(v, err, jwsum(rows, ws, joint.Tuple{1, 1})/math.Sqrt(vx*vy), "EWMCorr")
		sym.Reach("EWMCorr")
	})
}

// lagPairs are the complete pairs of the most recent w.
func lagPairs(xs []float64, lag, w int) [][]float64 {
	var rows [][]float64
	for t := lag; t < len(xs); t++ {
		rows = append(rows, []float64{xs[t], xs[t-lag]})
	}
	return jtail(rows, w)
}

// P07Autocov checks Autocov.
// bound: lags 0..6, windows 0..5 (quick) / lags 0..9, windows 0..6; lag+window+3 pushes, one Clear anywhere
func P07Autocov() {
	lag := sym.Choice(sz(7, 10))
	w := sym.Choice(sz(6, 7))
	m, err := joint.NewAutocov(lag, w)
	if w == 0 && sym.Bool() {
		m, err = joint.NewGlobalAutocov(lag)
	}
	ok(err, "constructor")
	ok(joint.Init(m), "init")
	drive(0, lag+w+3, m.Push, m.Clear, func(xs []float64) {
		rows := lagPairs(xs, lag, w)
		v, err := m.Value()
		if len(rows) == 0 {
			bad(err, "Autocov without a complete pair")
			sym.Reach("no pair")
			return
		}
		if len(rows) >= 2 {
			expect(v, err, jsum(rows, joint.Tuple{1, 1})/float64(len(rows)-1), "Autocov")
			sym.Reach("Autocov")
		}
	})
}

// P07Autocorr checks Autocorr.
// bound: lags 0..5, windows 0, 2..4 (quick) / lags 0..6, windows 0, 2..5; lag+window+2 pushes, one Clear anywhere
// assume: neither series of the pairs is constant in the window
func P07Autocorr() {
	lag := sym.Choice(sz(6, 7))
	w := sym.Choice(sz(4, 5))
	n := lag + 4
	if w > 0 {
		w++
		n = lag + w + 2
	}
	m, err := joint.NewAutocorr(lag, w)
	if w == 0 && sym.Bool() {
		m, err = joint.NewGlobalAutocorr(lag)
	}
	ok(err, "constructor")
	ok(joint.Init(m), "init")
	drive(0, n, m.Push, m.Clear, func(xs []float64) {
		rows := lagPairs(xs, lag, w)
		if len(rows) == 0 {
			_, err := m.Value()
			bad(err, "Autocorr without a complete pair")
			sym.Reach("no pair")
			return
		}
		if len(rows) < 2 {
			return
		}
		vx, vy := jsum(rows, joint.Tuple{2, 0}), jsum(rows, joint.Tuple{0, 2})
		sym.Assume(vx > 0)
		sym.Assume(vy > 0)
		v, err := m.Value()
		expect(v, err, jsum(rows, joint.Tuple{1, 1})/math.Sqrt(vx*vy), "Autocorr")
		sym.Reach("Autocorr")
	})
}

var _ = moment.Init
