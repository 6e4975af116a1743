package harness

import (
	heapops "container/heap"
	"sort"

	"github.com/alexander-yu/stream/quantile"
	"github.com/alexander-yu/stream/quantile/heap"
	"github.com/alexander-yu/stream/quantile/order"
	"github.com/alexander-yu/stream/quantile/ost/avl"
	"github.com/alexander-yu/stream/quantile/ost/rb"
	"github.com/alexander-yu/stream/quantile/skiplist"
	"github.com/alexander-yu/stream/zverif/sym"
)

// Containers and windows of several hundred values, one of them arbitrary.

// place is where x goes in sorted values.
func place(s []float64, x float64) int {
	lo, hi := 0, len(s)
	for lo < hi {
		m := (lo + hi) / 2
		if s[m] < x {
			lo = m + 1
		} else {
			hi = m
		}
	}
	return lo
}

func putIn(s []float64, x float64) []float64 {
	i := place(s, x)
	r := append(append(make([]float64, 0, len(s)+1), s[:i]...), x)
	return append(r, s[i:]...)
}

// crowd are n fixed values with at most 101 different ones.
func crowd(n int) []float64 { return arranged(3+sym.Choice(2), n) }

// sortedBut sorts values of which the one at the given place is arbitrary.
func sortedBut(xs []float64, at int) []float64 {
	var s []float64
	for i, x := range xs {
		if i != at {
			s = append(s, x)
		}
	}
	sort.Float64s(s)
	if at >= 0 && at < len(xs) {
		s = putIn(s, xs[at])
	}
	return s
}

func hugeStat(s order.Statistic, balance func(n int)) {
	n := sz(600, 1500)
	xs := crowd(n)
	for _, x := range xs {
		s.Add(x)
	}
	balance(n)
	gone := n/3 + sym.Choice(2)*n/3
	for i := 0; i < gone; i++ {
		s.Remove(xs[i])
	}
	balance(n - gone)
	ref := append([]float64{}, xs[gone:]...)
	sort.Float64s(ref)
	x := sym.Float()
	i := place(ref, x)
	sym.Assert(s.Rank(x) == i, "Rank is the number of smaller values")
	switch sym.Choice(2) {
	case 0:
		s.Add(x)
		ref = putIn(ref, x)
	case 1:
		s.Remove(x)
		if i < len(ref) && ref[i] == x {
			ref = append(append([]float64{}, ref[:i]...), ref[i+1:]...)
		}
	}
	n = len(ref)
	balance(n)
	sym.Assert(s.Size() == n, "Size is the number of stored values")
	for _, k := range []int{0, i - 1, i, i + 1, n / 2, n - 1} {
		if k >= 0 && k < n {
			sym.Assert(s.Select(k).Value() == ref[k], "Select returns the k-th smallest value")
		}
	}
	sym.Reach("huge")
}

// P11Huge changes trees of several hundred values.
// flags: maxsteps=400000000
// bound: both trees, 2 arrangements of 600 values (quick) / 1500, a third or two thirds removed, then the rank of any value and its addition or removal
func P11Huge() {
	var s order.Statistic = &avl.Tree{}
	if sym.Bool() {
		s = &rb.Tree{}
	}
	hugeStat(s, func(int) {})
}

// P12Huge changes skip lists of several hundred values.
// flags: maxsteps=400000000
// bound: maximum levels 4, 12 and 64 with levels of a fixed pattern, otherwise as P11Huge
func P12Huge() {
	sym.FixedDraws(true)
	hugeStat(newSkip(skiplist.MaxLevelOption([]int{4, 12, 64}[sym.Choice(3)])), func(int) {})
}

// P13Huge checks the balance of trees of several hundred values.
// flags: maxsteps=400000000
// bound: as P11Huge
func P13Huge() {
	if sym.Bool() {
		t := &avl.Tree{}
		hugeStat(t, func(n int) { avlBalance(t, n) })
		return
	}
	t := &rb.Tree{}
	hugeStat(t, func(n int) { rbBalance(t, n) })
}

// hugeWindow is a window, a number of pushes and the place of the arbitrary one.
func hugeWindow() (w, n, at int) {
	w, n = 0, sz(600, 1100)
	switch sym.Choice(sz(2, 3)) {
	case 1:
		w, n = 257, 600
	case 2:
		w, n = 600, 1300
	}
	at = n - 1
	if w > 0 && sym.Bool() {
		at = n - w
	}
	return
}

// hugeRun pushes a long stream and one more value.
func hugeRun(w, n, at int, push func(float64) error, check func(win []float64, at int)) {
	xs := crowd(n)
	xs[at] = sym.Float()
	for i, x := range xs {
		if i == 2*w+1 || i == at {
			check(tail(xs[:i], w), -1)
		}
		ok(push(x), "push")
	}
	l := len(tail(xs, w))
	check(tail(xs, w), at-(n-l))
	ok(push(11), "push")
	xs = append(xs, 11)
	if w == 0 {
		check(xs, at)
	} else {
		check(tail(xs, w), at-(n+1-w))
	}
	sym.Reach("huge")
}

// P08Huge asks quantiles of wide windows.
// flags: maxsteps=400000000
// bound: every structure (skip list levels of a fixed pattern), window 257 with 600 pushes, no window with 600 (quick) / also window 600 with 1300, no window with 1100; linear interpolation; the last value or the one evicted last arbitrary
func P08Huge() {
	sym.FixedDraws(true)
	w, n, at := hugeWindow()
	m, err := quantile.New(w, deepImpl(), quantile.InterpolationOption(quantile.Linear))
	ok(err, "constructor")
	hugeRun(w, n, at, m.Push, func(win []float64, at int) {
		s := sortedBut(win, at)
		for _, q := range []float64{0.125, 0.75} {
			v, err := m.Value(q)
			expect(v, err, interpolate(s, q, quantile.Linear), "quantile")
		}
	})
}

// P09Huge follows wide windows.
// flags: maxsteps=400000000
// bound: window 257 with 600 pushes, no window with 600 (quick) / also window 600 with 1300, no window with 1100; the last value or the one evicted last arbitrary
func P09Huge() {
	w, n, at := hugeWindow()
	m, err := quantile.NewHeapMedian(w)
	ok(err, "constructor")
	hugeRun(w, n, at, m.Push, func(win []float64, at int) {
		s := sortedBut(win, at)
		l := len(s)
		want := s[l/2]
		if l%2 == 0 {
			want = (s[l/2-1] + s[l/2]) / 2
		}
		v, err := m.Value()
		expect(v, err, want, "median")
	})
}

// P10Huge computes Median and IQR of wide windows.
// flags: maxsteps=400000000
// bound: as P08Huge
func P10Huge() {
	sym.FixedDraws(true)
	w, n, at := hugeWindow()
	im := deepImpl()
	q := 0.5
	var push func(float64) error
	var value func() (float64, error)
	if sym.Bool() {
		m, err := quantile.NewMedian(w, im)
		ok(err, "constructor")
		push, value = m.Push, m.Value
	} else {
		m, err := quantile.NewIQR(w, im)
		ok(err, "constructor")
		push, value, q = m.Push, m.Value, 0.75
	}
	hugeRun(w, n, at, push, func(win []float64, at int) {
		s := sortedBut(win, at)
		want := interpolate(s, q, quantile.Midpoint)
		if q > 0.5 {
			want -= interpolate(s, 1-q, quantile.Midpoint)
		}
		v, err := value()
		expect(v, err, want, "value")
	})
}

// P15Huge follows the extremes of wide windows.
// flags: maxsteps=400000000
// bound: as P09Huge
func P15Huge() {
	w, n, at := hugeWindow()
	isMin := sym.Bool()
	m := extremes(isMin, w)
	hugeRun(w, n, at, m.Push, func(win []float64, at int) {
		s := sortedBut(win, at)
		want := s[0]
		if !isMin {
			want = s[len(s)-1]
		}
		v, err := m.Value()
		expect(v, err, want, "extreme")
	})
}

// P14Huge changes one item of a heap of several hundred values.
// flags: maxsteps=400000000
// bound: min and max order, 2 arrangements of 400 values (quick) / 1000 given or pushed, every third removed, one of 5 others updated to any value; its place and the next ten pops
func P14Huge() {
	isMin := sym.Bool()
	n := sz(400, 1000)
	xs := crowd(n)
	h := heap.New("h", nil, better(isMin))
	items := make([]*heap.Item, n)
	for i, x := range xs {
		items[i] = &heap.Item{Val: x}
		heapops.Push(h, items[i])
	}
	var ref []float64
	u := []int{0, 1, n / 2, n - 2, n - 5}[sym.Choice(5)]
	if u%3 == 2 {
		u--
	}
	for i := range xs {
		if i%3 == 2 {
			h.Remove(items[i])
		} else if i != u {
			ref = append(ref, xs[i])
		}
	}
	sort.Float64s(ref)
	x := sym.Float()
	h.Update(items[u], x)
	ref = putIn(ref, x)
	l := len(ref)
	sym.Assert(h.Len() == l, "length is the number of stored values")
	for i := 0; i < 10; i++ {
		want := ref[i]
		if !isMin {
			want = ref[l-1-i]
		}
		sym.Assert(h.Peek() == want, "Peek is the next in order")
		it := heapops.Pop(h).(*heap.Item)
		sym.Assert(it.Val == want, "Pop returns the next in order")
	}
	sym.Reach("huge")
}
