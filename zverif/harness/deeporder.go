package harness

import (
	heapops "container/heap"

	"github.com/alexander-yu/stream/quantile"
	"github.com/alexander-yu/stream/quantile/heap"
	"github.com/alexander-yu/stream/quantile/order"
	"github.com/alexander-yu/stream/quantile/ost/avl"
	"github.com/alexander-yu/stream/quantile/ost/rb"
	"github.com/alexander-yu/stream/quantile/skiplist"
	"github.com/alexander-yu/stream/zverif/sym"
)

// Large containers and long streams of mostly fixed values, see deep.go.

const arrangements = 5

// arranged are n fixed values in one of several orders.
func arranged(how, n int) []float64 {
	xs := make([]float64, n)
	for i := range xs {
		switch how {
		case 0:
			xs[i] = float64(i)
		case 1:
			xs[i] = float64(n - i)
		case 2: // from both ends
			xs[i] = float64(i / 2)
			if i%2 == 1 {
				xs[i] = float64(n) - xs[i]
			}
		case 3: // scattered
			xs[i] = float64(i * 37 % 101)
		case 4: // with many ties
			xs[i] = bulk(i)
		}
	}
	return xs
}

// churn fills an order statistic, takes some of the values out again and puts some back.
func churn(s order.Statistic, how, n int, each func(ref []float64)) []float64 {
	xs := arranged(how, n)
	var ref []float64
	add := func(x float64) {
		s.Add(x)
		ref = insert(ref, x)
		each(ref)
	}
	for _, x := range xs {
		add(x)
	}
	for i := 0; i < n; i += 2 {
		x := xs[(i*5+1)%n]
		s.Remove(x)
		ref = without(ref, x)
		s.Remove(500)
		each(ref)
	}
	for i := 0; i < n/3; i++ {
		add(xs[(i*7+2)%n])
	}
	return ref
}

// deepStat does something arbitrary to a large order statistic.
func deepStat(s order.Statistic, n int, each func(ref []float64)) {
	ref := churn(s, sym.Choice(arrangements), n, each)
	for i := 0; i < sz(1, 2); i++ {
		x := sym.Float()
		switch sym.Choice(3 - i) {
		case 0:
			s.Add(x)
			ref = insert(ref, x)
		case 1:
			s.Remove(x)
			ref = without(ref, x)
		case 2:
			s.Clear()
			s.Add(x)
			s.Remove(2)
			ref = without([]float64{x}, 2)
		}
		each(ref)
		checkStat(s, ref)
	}
	sym.Reach("deep")
}

// sizes checks a few answers of a large order statistic.
func sizes(s order.Statistic) func(ref []float64) {
	return func(ref []float64) {
		n := len(ref)
		sym.Assert(s.Size() == n, "Size is the number of stored values")
		for _, k := range []int{0, n / 3, n - 1} {
			if n > 0 {
				sym.Assert(s.Select(k).Value() == ref[k], "Select returns the k-th smallest value")
			}
		}
		sym.Assert(isNil(s.Select(n)), "Select out of range is nil")
	}
}

// P11Deep changes large trees.
// flags: maxsteps=400000000
// bound: both trees, 5 arrangements of 30 values (quick) / 60, half of them removed, a third added again, then one (quick) / two additions or removals of anything, or Clear
func P11Deep() {
	var s order.Statistic = &avl.Tree{}
	if sym.Bool() {
		s = &rb.Tree{}
	}
	deepStat(s, sz(30, 60), sizes(s))
}

// P12Deep changes large skip lists.
// flags: maxsteps=400000000
// bound: maximum levels 1, 5, 12, 13, 33 and 64, 5 arrangements of 20 values (quick) / 50 with levels of a fixed pattern up to the maximum, half of them removed, a third added again, then one (quick) / two additions (any level) or removals of anything, or Clear
func P12Deep() {
	sym.FixedDraws(true)
	l := []int{1, 5, 12, 13, 33, 64}[sym.Choice(6)]
	s := newSkip(skiplist.MaxLevelOption(l))
	deepStat(s, sz(20, 50), sizes(s))
}

// P13Deep checks the balance of large trees.
// flags: maxsteps=400000000
// bound: both trees, 5 arrangements of 30 values (quick) / 80, checked after every addition and removal, then one (quick) / two additions or removals of anything, or Clear
func P13Deep() {
	if sym.Bool() {
		t := &avl.Tree{}
		deepStat(t, sz(30, 80), func(ref []float64) { avlBalance(t, len(ref)) })
		return
	}
	t := &rb.Tree{}
	deepStat(t, sz(30, 80), func(ref []float64) { rbBalance(t, len(ref)) })
}

// P14Deep changes one item of a large heap and drains it.
// flags: maxsteps=400000000
// bound: 5 arrangements of 20 values (quick) / 40 given or pushed, min and max order; an update of any item to any value, a removal of any item or a push of any value, then pops until nothing is left
func P14Deep() {
	isMin := sym.Bool()
	how := sym.Choice(arrangements)
	n := sz(20, 40)
	xs := arranged(how, n)
	h := heap.New("h", nil, better(isMin))
	var items []*heap.Item
	for _, x := range xs {
		it := &heap.Item{Val: x}
		items = append(items, it)
		heapops.Push(h, it)
	}
	ref := sorted(xs)
	i := sym.Choice(n)
	switch sym.Choice(3) {
	case 0:
		x := sym.Float()
		ref = insert(without(ref, xs[i]), x)
		h.Update(items[i], x)
		sym.Assert(items[i].Val == x, "an updated item has its new value")
	case 1:
		ref = without(ref, xs[i])
		h.Remove(items[i])
	case 2:
		if i > 0 {
			return
		}
		x := sym.Float()
		ref = insert(ref, x)
		heapops.Push(h, &heap.Item{Val: x})
	}
	drain(h, ref, isMin)
}

// P14Shrink fills a large heap, takes most of it out again and changes what is left.
// flags: maxsteps=400000000
// bound: 5 arrangements of 40 values (quick) / 150 pushed, all but 2, 5 or 9 popped or removed, then an update, removal or push of any value and a removal of another item; min and max order
func P14Shrink() {
	isMin := sym.Bool()
	how := sym.Choice(arrangements)
	n := sz(40, 150)
	left := []int{2, 5, 9}[sym.Choice(3)]
	popping := sym.Bool()
	h := heap.New("h", nil, better(isMin))
	var items []*heap.Item
	for _, x := range arranged(how, n) {
		it := &heap.Item{Val: x}
		items = append(items, it)
		heapops.Push(h, it)
	}
	for len(items) > left {
		i := len(items) * 2 / 3
		if popping {
			it := heapops.Pop(h).(*heap.Item)
			i = -1
			for j := range items {
				if items[j] == it {
					i = j
				}
			}
			sym.Assert(i >= 0, "Pop returns an item that is in the heap")
		} else {
			h.Remove(items[i])
		}
		items = append(items[:i:i], items[i+1:]...)
		sym.Assert(h.Len() == len(items), "length is the number of stored values")
	}
	i := sym.Choice(left)
	switch sym.Choice(3) {
	case 0:
		h.Update(items[i], sym.Float())
	case 1:
		h.Remove(items[i])
		items = append(items[:i:i], items[i+1:]...)
	case 2:
		if i > 0 {
			return
		}
		it := &heap.Item{Val: sym.Float()}
		items = append(items, it)
		heapops.Push(h, it)
	}
	h.Remove(items[0])
	var ref []float64
	for _, it := range items[1:] {
		ref = insert(ref, it.Val)
	}
	drain(h, ref, isMin)
}

func drain(h *heap.Heap, ref []float64, isMin bool) {
	n := len(ref)
	for k := range ref {
		want := ref[k]
		if !isMin {
			want = ref[n-1-k]
		}
		sym.Assert(h.Len() == n-k, "length is the number of stored values")
		sym.Assert(h.Peek() == want, "Peek is the next in order")
		it := heapops.Pop(h).(*heap.Item)
		sym.Assert(it.Val == want, "Pop returns the next in order")
	}
	sym.Assert(h.Len() == 0, "drained")
	sym.Reach("drain")
}

// P14DeepInit drains a large heap built from given values.
// bound: 5 arrangements of 30 values (quick) / 60, one of them arbitrary; min and max order
func P14DeepInit() {
	isMin := sym.Bool()
	n := sz(30, 60)
	xs := arranged(sym.Choice(arrangements), n)
	xs[n/2] = sym.Float()
	h := heap.New("h", append([]float64{}, xs...), better(isMin))
	drain(h, sorted(xs), isMin)
}

// spots are where a stream of n values for window w has its two arbitrary values.
func spots(n, w int) []int {
	if w > 0 {
		return []int{n - w, n - 1}
	}
	return []int{n / 2, n - 1}
}

// P15Deep follows wide windows.
// flags: maxsteps=400000000
// bound: windows 0, 16 and 70 (quick) / also 129, 3*window/2+10 pushes (60 without a window), 5 arrangements; the last value and, for windows up to 16, one about to be evicted arbitrary
func P15Deep() {
	w := []int{0, 16, 70, 129}[sym.Choice(sz(3, 4))]
	isMin := sym.Bool()
	n := 60
	if w > 0 {
		n = w + w/2 + 10
	}
	xs := arranged(sym.Choice(arrangements), n)
	for k, i := range spots(n, w) {
		if k > 0 || w < 20 {
			xs[i] = sym.Float()
		}
	}
	m := extremes(isMin, w)
	for i, x := range xs {
		ok(m.Push(x), "push")
		if i >= n-2 || i%11 == 0 {
			checkExtreme(m, isMin, tail(xs[:i+1], w))
		}
	}
	// everything that is left
	for i := 0; i < 5; i++ {
		xs = append(xs, 50)
		ok(m.Push(50), "push")
	}
	checkExtreme(m, isMin, tail(xs, w))
	sym.Reach("deep")
}

// P09Deep follows wide windows.
// flags: maxsteps=400000000
// bound: windows 0, 11, 16, 33 and 64 (quick) / also 100, 2*window+5 pushes (40 without a window), 5 arrangements; the last value and, for windows up to 16, one about to be evicted arbitrary
func P09Deep() {
	w := []int{0, 11, 16, 33, 64, 100}[sym.Choice(sz(5, 6))]
	n := 40
	if w > 0 {
		n = 2*w + 5
	}
	xs := arranged(sym.Choice(arrangements), n)
	for i, at := range spots(n, w) {
		if i > 0 || w == 11 || w == 16 && sym.Thorough() {
			xs[at] = sym.Float()
		}
	}
	m, err := quantile.NewHeapMedian(w)
	ok(err, "constructor")
	for i, x := range xs {
		ok(m.Push(x), "push")
		v, err := m.Value()
		if i >= n-2 || i%7 == 0 {
			expect(v, err, median(tail(xs[:i+1], w)), "median")
		}
	}
	// what is left behind by the arbitrary values
	for i := 0; i < 4; i++ {
		xs = append(xs, bulk(i))
		ok(m.Push(bulk(i)), "push")
		v, err := m.Value()
		expect(v, err, median(tail(xs, w)), "median")
	}
	sym.Reach("deep")
}

// deepImpl is any backing structure with its default options.
func deepImpl() quantile.Option {
	return quantile.ImplOption(quantile.Impl([]int{int(quantile.AVL), int(quantile.RedBlack), int(quantile.SkipList)}[sym.Choice(3)]))
}

// P08Deep asks quantiles of wide windows.
// flags: maxsteps=400000000
// bound: windows 0, 10, 20 (quick) / also 50, 2*window+4 pushes (30 without a window), 5 arrangements, every structure (skip list levels of a fixed pattern) and mode; the last value arbitrary and q in {0.01, 0.25, 0.5, 0.9, 0.999}, or q arbitrary
func P08Deep() {
	sym.FixedDraws(true)
	w := []int{0, 10, 20, 50}[sym.Choice(sz(3, 4))]
	n := 30
	if w > 0 {
		n = 2*w + 4
	}
	mode := quantile.Interpolation(sym.Choice(5))
	m, err := quantile.New(w, deepImpl(), quantile.InterpolationOption(mode))
	ok(err, "constructor")
	xs := arranged(sym.Choice(arrangements), n)
	anyQ := sym.Bool()
	if !anyQ {
		xs[n-1] = sym.Float()
	}
	for _, x := range xs {
		ok(m.Push(x), "push")
	}
	if anyQ {
		checkQuantile(m, mode, tail(xs, w), decay())
		return
	}
	for _, q := range []float64{0.01, 0.25, 0.5, 0.9, 0.999} {
		checkQuantile(m, mode, tail(xs, w), q)
	}
}

// P10Deep computes Median and IQR of wide windows.
// flags: maxsteps=400000000
// bound: windows 0, 10, 25 and 64 (quick) / also 100, 2*window+5 pushes (40 without a window), 5 arrangements, every structure (skip list levels of a fixed pattern); the last value arbitrary
func P10Deep() {
	sym.FixedDraws(true)
	w := []int{0, 10, 25, 64, 100}[sym.Choice(sz(4, 5))]
	n := 40
	if w > 0 {
		n = 2*w + 5
	}
	o := deepImpl()
	m, err := quantile.NewMedian(w, o)
	ok(err, "constructor")
	r, err := quantile.NewIQR(w, o)
	ok(err, "constructor")
	xs := arranged(sym.Choice(arrangements), n)
	xs[n-1] = sym.Float()
	for i, x := range xs {
		ok(m.Push(x), "push")
		ok(r.Push(x), "push")
		if i >= n-1 || i%9 == 0 {
			t := tail(xs[:i+1], w)
			v, err := m.Value()
			expect(v, err, median(t), "median")
			u, err := r.Value()
			expect(u, err, iqr(t), "IQR")
			sym.Assert(u >= 0, "IQR is not negative")
		}
	}
	sym.Reach("deep")
}

// P16Deep clears objects that have seen much.
// flags: sched=one maxsteps=400000000 qtimeout=500
// bound: every metric, core, aggregate and order statistic, windows 0, 5 and 20, lag 3, 50 fixed pushes, Clear, then 26 pushes, the first and the last of them arbitrary; skip list levels of a fixed pattern
func P16Deep() {
	sym.FixedDraws(true)
	w := []int{0, 5, 20}[sym.Choice(3)]
	i := sym.Choice(11 + 2 + 4 + 2 + 2 + orderedKinds + 2 + 3)
	im := quantile.ImplOption(quantile.AVL)
	if i >= 21+3 && i < 21+orderedKinds {
		im = deepImpl()
	}
	mk := func() *thing {
		k := i
		switch {
		case k < 11:
			return newMoment(k, w, 0.5)
		case k == 11:
			return newMomentCore(w, nil)
		case k == 12:
			return newMomentCore(0, fp(0.25))
		case k < 17:
			return newJoint(k-13, w, 0.5)
		case k < 19:
			return newLagged(k == 18, 3, w)
		case k == 19:
			return newJointCore(w, nil)
		case k == 20:
			return newJointCore(0, fp(0.25))
		case k < 21+orderedKinds:
			return newOrdered(k-21, w, im, 0.375)
		case k == 21+orderedKinds:
			return newAggregate(w, 0.5)
		case k == 22+orderedKinds:
			return newJointAggregate(w, 0.5)
		}
		if k == 25+orderedKinds {
			return statThing(newSkip(skiplist.MaxLevelOption(20)))
		}
		return statThing(newStat(k - 23 - orderedKinds))
	}
	used, fresh := mk(), mk()
	for j := 0; j < 50; j++ {
		ok(used.push([]float64{bulk(j), bulk(3*j + 1)}[:used.vars]...), "push")
	}
	used.clear()
	same(used, fresh)
	for j := 0; j < 26; j++ {
		xs := []float64{bulk(2 * j), bulk(j + 4)}[:used.vars]
		if j == 0 || j == 25 {
			xs = values(used.vars)
		}
		ok(used.push(dup(xs)...), "push after Clear")
		ok(fresh.push(dup(xs)...), "push")
		same(used, fresh)
	}
	sym.Reach("deep")
}
