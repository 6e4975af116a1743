package harness

import (
	"github.com/alexander-yu/stream/joint"
	"github.com/alexander-yu/stream/moment"
	"github.com/alexander-yu/stream/zverif/sym"
)

// The cases of this file use high powers and large exponents. As in deep.go, most values are
// fixed and the claims hold for every value of the arbitrary ones.

// P01HighDeep tracks very high powers.
// flags: maxsteps=200000000
// bound: power 10, 13, 16 or 20 (quick) / also 25 and 31, and all powers below it; windows 0, 2, 3 and 5, window+3 pushes (6 without a window), one Clear before the last four or none, 2 arbitrary values
func P01HighDeep() {
	k := []int{10, 13, 16, 20, 25, 31}[sym.Choice(sz(4, 6))]
	w := []int{0, 2, 3, 5}[sym.Choice(4)]
	n := w + 3
	if w == 0 {
		n = 6
	}
	clearAt := -1
	if sym.Bool() {
		clearAt = n - 4
	}
	cfg := &moment.CoreConfig{Window: ip(w), Sums: moment.SumsConfig{k: true}}
	c, err := moment.NewCore(cfg)
	ok(err, "core")
	ks := []int{2, 3, k - 1, k}
	xs := flow(n, n-2, n-1)
	from := 0
	for i, x := range xs {
		if i == clearAt {
			c.Clear()
			from = i
			checkCore(c, nil, nil)
		}
		ok(c.Push(x), "push")
		checkCore(c, tail(xs[from:i+1], w), ks)
	}
	sym.Reach("high")
}

// P02HighDeep asks for moments of high order.
// flags: maxsteps=200000000
// bound: k 9..16 (quick) / 9..24, windows 0, 2 and 4, window+3 pushes (5 without a window), 2 arbitrary values
func P02HighDeep() {
	k := 9 + sym.Choice(sz(8, 16))
	w := []int{0, 2, 4}[sym.Choice(3)]
	n := w + 3
	if w == 0 {
		n = 5
	}
	m := moment.New(k, w)
	ok(moment.Init(m), "init")
	xs := flow(n, n-2, n-1)
	for i, x := range xs {
		ok(m.Push(x), "push")
		if t := tail(xs[:i+1], w); len(t) > 1 {
			v, err := m.Value()
			expect(v, err, csum(t, k)/float64(len(t)-1), "moment")
		}
	}
	sym.Reach("high")
}

// P03High tracks very high powers with decay.
// flags: maxsteps=200000000
// bound: power 7..16 (quick) / 7..24, decay 1/2 or 1/4, 5 pushes, one Clear before the last three or none, 2 arbitrary values; core and EWMMoment
func P03High() {
	k := 7 + sym.Choice(sz(10, 18))
	a := []float64{0.5, 0.25}[sym.Choice(2)]
	n := 5
	clearAt := -1
	if sym.Bool() {
		clearAt = 2
	}
	c, err := moment.NewCore(&moment.CoreConfig{Window: ip(0), Decay: fp(a), Sums: moment.SumsConfig{k: true}})
	ok(err, "core")
	m := moment.NewEWMMoment(k, a)
	ok(moment.Init(m), "init")
	xs := flow(n, n-3, n-1)
	from := 0
	for i, x := range xs {
		if i == clearAt {
			c.Clear()
			m.Clear()
			from = i
		}
		ok(c.Push(x), "push")
		ok(m.Push(x), "push")
		t := xs[from : i+1]
		ws := weights(len(t), a)
		for _, j := range []int{2, 3, k - 1, k} {
			s, err := c.Sum(j)
			expect(s, err, wsum(t, ws, j), "weighted sum")
		}
		v, err := m.Value()
		expect(v, err, wsum(t, ws, k), "EWMMoment")
	}
	sym.Reach("high")
}

// wideSets are tuple sets with large exponents or many variables.
func wideSets() [][]joint.Tuple {
	s := [][]joint.Tuple{
		{{5, 4}},
		{{9, 1}, {1, 8}},
		{{2, 1, 2}},
		{{1, 3, 2}, {3, 0, 2}, {0, 2, 3}},
		{{0, 2, 4}, {4, 0, 0}},
		{{1, 2, 1, 2}},
		{{2, 0, 0, 2}, {0, 2, 2, 0}, {1, 1, 1, 1}},
		{{1, 1, 1, 1, 1}},
		{{0, 1, 0, 1, 2}, {2, 0, 1, 0, 1}},
		{{1, 0, 0, 0, 0, 0, 2}, {0, 2, 0, 0, 0, 2, 0}},
	}
	if sym.Thorough() {
		s = append(s, [][]joint.Tuple{
			{{7, 7}},
			{{12, 2}, {2, 12}},
			{{17, 0}, {1, 16}},
			{{3, 3, 3}},
			{{2, 2, 2, 2}},
			{{1, 1, 1, 1, 1, 1, 1}},
		}...)
	}
	return s
}

// P04High tracks large exponents and many variables.
// flags: maxsteps=400000000
// bound: 10 tuple sets of 2 to 7 variables with exponents to 9 (quick) / 16 sets, exponents to 17; windows 0, 2 and 3, window+2 pushes (4 without a window), one Clear before the last three or none; the last observation arbitrary, and for up to 3 variables one value of the one before it
func P04High() {
	sets := wideSets()
	set := sets[sym.Choice(len(sets))]
	w := []int{0, 2, 3}[sym.Choice(3)]
	n := w + 2
	if w == 0 {
		n = 4
	}
	clearAt := -1
	if sym.Bool() {
		clearAt = n - 3
	}
	d := len(set[0])
	c, err := joint.NewCore(&joint.CoreConfig{Sums: copySums(set), Window: ip(w)})
	ok(err, "core")
	es := dominated(set)
	rows := pairs(n, d, n-1)
	if d <= 3 {
		rows[n-2][0] = sym.Float()
	}
	from := 0
	for i, x := range rows {
		if i == clearAt {
			c.Clear()
			from = i
			checkJoint(c, nil, d, es)
		}
		ok(c.Push(x...), "push")
		if i >= n-2 || i == clearAt {
			checkJoint(c, jtail(rows[from:i+1], w), d, es)
		}
	}
	sym.Reach("high")
}

// P06High tracks large exponents and many variables with decay.
// flags: maxsteps=400000000
// bound: the tuple sets of P04High, decay 1/2 or 1/4, 4 pushes, one Clear before the last three or none; the last observation arbitrary, and for up to 3 variables one value of the one before it
func P06High() {
	sets := wideSets()
	set := sets[sym.Choice(len(sets))]
	a := []float64{0.5, 0.25}[sym.Choice(2)]
	n := 4
	clearAt := -1
	if sym.Bool() {
		clearAt = n - 3
	}
	d := len(set[0])
	c, err := joint.NewCore(&joint.CoreConfig{Sums: copySums(set), Window: ip(0), Decay: fp(a)})
	ok(err, "core")
	es := dominated(set)
	rows := pairs(n, d, n-1)
	if d <= 3 {
		rows[n-2][0] = sym.Float()
	}
	from := 0
	for i, x := range rows {
		if i == clearAt {
			c.Clear()
			from = i
		}
		ok(c.Push(x...), "push")
		if i < n-2 && i != clearAt {
			continue
		}
		t := rows[from : i+1]
		ws := weights(len(t), a)
		sym.Assert(c.Count() == len(t), "count is the number of observations covered")
		for j := 0; j < d; j++ {
			m, err := c.Mean(j)
			expect(m, err, wmean(column(t, j), ws), "weighted mean of a variable")
		}
		for _, e := range es {
			s, err := c.Sum(e...)
			expect(s, err, jwsum(t, ws, e), "weighted joint sum")
		}
	}
	sym.Reach("high")
}
