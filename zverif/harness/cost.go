package harness

import (
	"github.com/alexander-yu/stream/aggregate"
	"github.com/alexander-yu/stream/moment"
	"github.com/alexander-yu/stream/quantile"
	"github.com/alexander-yu/stream/quantile/order"
	"github.com/alexander-yu/stream/quantile/ost/avl"
	"github.com/alexander-yu/stream/quantile/ost/rb"
	"github.com/alexander-yu/stream/quantile/skiplist"
	"github.com/alexander-yu/stream/sample"
	"github.com/alexander-yu/stream/zverif/sym"
)

// patterned is the i-th value of a long stream: rising, falling, constant, scattered or in waves.
func patterned(how, i int) float64 {
	switch how {
	case 0:
		return float64(i) / 4
	case 1:
		return -float64(i) / 4
	case 2:
		return 1.5
	case 3:
		return bulk(i)
	}
	return float64(i%7) - float64(i/7)/8
}

func (t *thing) feed(how, from, n int, reads bool) {
	for i := from; i < from+n; i++ {
		ok(t.push([]float64{patterned(how, i), bulk(i)}[:t.vars]...), "push")
		if reads && (i%50 == 0 || i == from+n-1) {
			t.read()
		}
	}
}

// constant are the objects whose pushes and values take constant time, with their windows and lags.
func constant(k, w, lag int) *thing {
	switch {
	case k < 11:
		return newMoment(k, w, 0.5)
	case k == 11:
		return newMomentCore(w, nil)
	case k == 12:
		return newMomentCore(0, fp(0.25))
	case k < 17:
		return newJoint(k-13, w, 0.5)
	case k < 19:
		return newLagged(k == 18, lag, w)
	case k == 19:
		return newJointCore(w, nil)
	case k == 20:
		return newJointCore(0, fp(0.25))
	case k == 21:
		m, s := moment.NewMean(w), moment.NewEWMStd(0.5)
		ok(moment.Init(m), "Init")
		ok(moment.Init(s), "Init")
		g := aggregate.NewSimpleAggregateMetric(m, s)
		return &thing{1, one(g.Push), func() ([]float64, error) {
			vs, err := g.Values()
			return readMap(vs, err, m.String(), s.String())
		}, g.Clear, nil}
	}
	return newJointAggregate(w, 0.5)
}

const constantKinds = 23

// spaceOf drives one object and watches its memory.
func spaceOf(mk func() *thing, per, n int) {
	how := sym.Choice(5)
	warm := mk()
	warm.feed(3, 0, 3, true)
	base := sym.Space()
	t := mk()
	fresh := sym.Space(t)
	t.feed(how, 0, 2*per+10, true)
	full := sym.Space(t)
	t.feed(how, 2*per+10, n, true)
	t.push(values(t.vars)...)
	t.read()
	full2 := sym.Space(t)
	sym.Assert(full2 <= full+1024+100*per, "memory does not grow with the length of the stream")
	t.clear()
	empty := sym.Space(t)
	sym.Assert(empty <= fresh+1024, "a cleared object takes no more memory than a new one")
	t.feed(how, 0, 1, false)
	t = nil
	sym.Assert(sym.Space() <= base+1024, "an object that is no longer used leaves nothing behind")
	sym.Reach("space")
}

// P32Constant watches the memory of the metrics on cores and of aggregates.
// flags: maxsteps=400000000 sched=one races=off syncs=100000
// bound: every kind, windows 0, 1 and 5, lags 0 and 3, 5 streams (rising, falling, constant, scattered, waves) of 400 values (quick) / 2000 and an arbitrary one, a read now and then, then Clear
func P32Constant() {
	k := sym.Choice(constantKinds)
	w := []int{0, 1, 5}[sym.Choice(3)]
	lag := 0
	if k == 17 || k == 18 {
		lag = 3 * sym.Choice(2)
	}
	spaceOf(func() *thing { return constant(k, w, lag) }, w+lag, sz(400, 2000))
}

// P32Ordered watches the memory of windows of ordered values.
// flags: maxsteps=400000000
// bound: Min, Max, HeapMedian, Median, IQR and Quantile on every structure (skip list levels of a fixed pattern), windows 1 and 5 (Min and Max: also 0), otherwise as P32Constant
func P32Ordered() {
	sym.EvenDraws()
	k := sym.Choice(orderedKinds)
	w := []int{1, 5, 0}[sym.Choice(3)]
	if k > 1 {
		sym.Assume(w > 0)
	}
	var im quantile.Option
	switch {
	case k < 3:
		im = quantile.ImplOption(quantile.AVL)
	default:
		im = deepImpl()
	}
	spaceOf(func() *thing { return newOrdered(k, w, im, 0.375) }, w, sz(400, 2000))
}

// P32Statistic watches the memory of order statistics.
// flags: maxsteps=400000000
// bound: every structure (skip list levels of a fixed pattern), rising, scattered and wavy arrangements of 150 values (quick) / 400 and an arbitrary one added; then all removed, in one of two orders
func P32Statistic() {
	sym.EvenDraws()
	how, k := []int{0, 3, 4}[sym.Choice(3)], sym.Choice(3)
	mk := func() order.Statistic {
		switch k {
		case 0:
			return &avl.Tree{}
		case 1:
			return &rb.Tree{}
		}
		return newSkip()
	}
	warm := mk()
	warm.Add(1)
	warm.Remove(1)
	s := mk()
	fresh := sym.Space(s)
	n := sz(150, 400)
	x := sym.Float()
	for i := 0; i < n; i++ {
		s.Add(patterned(how, i))
	}
	s.Add(x)
	sym.Assert(sym.Space(s) <= fresh+400*n+1024, "memory is linear in the number of values")
	for i := 0; i < n; i++ {
		j := i
		if how == 4 {
			j = n - 1 - i
		}
		s.Remove(patterned(how, j))
	}
	sym.Assert(s.Size() == 1, "one value is left")
	s.Remove(x)
	s.Rank(0)
	sym.Assert(sym.Space(s) <= fresh+600, "removed values take no memory")
	sym.Reach("space")
}

// P32Reservoir watches the memory of reservoirs.
// flags: maxsteps=400000000
// bound: sizes 0, 1 and 6, 400 values (quick) / 2000 with draws of a fixed pattern, a sample read after every push
func P32Reservoir() {
	sym.FixedDraws(true)
	r := &sample.Reservoir{Size: []int{0, 1, 6}[sym.Choice(3)]}
	push := func(n int) {
		for i := 0; i < n; i++ {
			r.Push(make([]int, 100))
			r.Sample()
		}
	}
	push(20)
	full := sym.Space(r)
	push(sz(400, 2000))
	sym.Assert(sym.Space(r) <= full+1024, "memory does not grow with the length of the stream")
	sym.Reach("space")
}

// effort is the work of a call.
func effort(f func()) int {
	w := sym.Work()
	f()
	return sym.Work() - w
}

// used measures the last of n pushes and the read after it.
func used(t *thing, how, n int, last []float64) (push, read int) {
	t.feed(how, 0, n-1, false)
	t.read()
	push = effort(func() { ok(t.push(last...), "push") })
	read = effort(func() { t.read() })
	return
}

// P33Constant measures the work of metrics on cores.
// flags: maxsteps=400000000 sched=one races=off syncs=100000
// bound: every kind, windows of 8 and 300 (quick) / 1500 or none, streams of 20 and 320 values (quick) / 1520, scattered and rising, the last value arbitrary; lags of 2 and 150 (quick) / 700
func P33Constant() {
	k := sym.Choice(constantKinds)
	how := 3 * sym.Choice(2)
	n := sz(320, 1520)
	w1, w2, l1, l2 := 0, 0, 0, 0
	if sym.Bool() {
		w1, w2 = 8, n-20
	}
	if k == 17 || k == 18 {
		l1, l2 = 2, n/2
	}
	vars := constant(k, w1, l1).vars
	last := values(vars)
	p1, r1 := used(constant(k, w1, l1), how, 20, last)
	p2, r2 := used(constant(k, w2, l2), how, n+l2, last)
	sym.Assert(4*p2 <= 5*p1+200, "a push takes constant time")
	sym.Assert(4*r2 <= 5*r1+200, "a value takes constant time")
	sym.Reach("work")
}

// P33Extremes measures the work of Min and Max.
// flags: maxsteps=400000000
// bound: windows of 8 and 120 (quick) / 500 or none, 5 streams of twice the window, one value arbitrary; the average over a window of pushes and reads
func P33Extremes() {
	isMin := sym.Bool()
	how := sym.Choice(5)
	n := sz(120, 500)
	w1, w2 := 0, 0
	if sym.Bool() {
		w1, w2 = 8, n
	}
	x := sym.Float()
	run := func(w, n int) int {
		m := extremes(isMin, w)
		for i := 0; i < n; i++ {
			ok(m.Push(patterned(how, i)), "push")
		}
		return effort(func() {
			ok(m.Push(x), "push")
			for i := n + 1; i < 2*n; i++ {
				ok(m.Push(patterned(how, i)), "push")
				m.Value()
			}
		})
	}
	e1, e2 := run(w1, 8), run(w2, n)
	sym.Assert(e2/n <= 2*(e1/8)+20, "pushes and values take amortized constant time")
	sym.Reach("work")
}

// P33Ordered measures the work of windows of ordered values.
// flags: maxsteps=400000000
// bound: HeapMedian, Median, IQR and Quantile on every structure (skip list levels of a fixed pattern), windows of 16 and 1000 (HeapMedian: 4000) (quick) / 4000, a scattered stream of a fifth more, the last value arbitrary; the most of the last 8 pushes and reads
func P33Ordered() {
	sym.EvenDraws()
	k := 2 + sym.Choice(orderedKinds-2)
	var im quantile.Option
	if k > 2 {
		im = deepImpl()
	}
	n, f := sz(1000, 4000), sz(3, 4)
	if k == 2 {
		n, f = 4000, 4
	}
	x := sym.Float()
	run := func(w int) (push, read int) {
		t := newOrdered(k, w, im, 0.375)
		n := w * 6 / 5
		for i, v := range arranged(3, n) {
			e := effort(func() { ok(t.push(v), "push") })
			if i < n-8 {
				continue
			}
			if e > push {
				push = e
			}
			if e := effort(func() { t.read() }); e > read {
				read = e
			}
		}
		if e := effort(func() { ok(t.push(x), "push") }); e > push {
			push = e
		}
		if e := effort(func() { t.read() }); e > read {
			read = e
		}
		return
	}
	p1, r1 := run(16)
	p2, r2 := run(n)
	sym.Assert(p2 <= f*p1+60, "a push takes logarithmic time")
	if k == 2 {
		sym.Assert(r2 <= r1+20, "the value of a HeapMedian takes constant time")
	} else {
		sym.Assert(r2 <= f*r1+60, "a value takes logarithmic time")
	}
	sym.Reach("work")
}

// P33Statistic measures the work of order statistics.
// flags: maxsteps=400000000
// bound: every structure (skip list levels of a fixed pattern), rising, falling and scattered arrangements of 16 and 1000 values (quick) / 4000; addition, rank and removal of an arbitrary value (rising and falling: between 4.5 and 12.5), selection in five places
func P33Statistic() {
	sym.EvenDraws()
	how, k := []int{0, 1, 3}[sym.Choice(3)], sym.Choice(3)
	x := sym.Float()
	if how < 3 {
		sym.Assume(x > 4.5)
		sym.Assume(x < 12.5)
	}
	run := func(n int) int {
		var s order.Statistic
		switch k {
		case 0:
			s = &avl.Tree{}
		case 1:
			s = &rb.Tree{}
		default:
			s = newSkip(skiplist.MaxLevelOption(12))
		}
		for _, v := range arranged(how, n) {
			s.Add(v)
		}
		most := 0
		see := func(f func()) {
			if e := effort(f); e > most {
				most = e
			}
		}
		see(func() { s.Add(x) })
		see(func() { s.Rank(x) })
		see(func() { s.Size() })
		for i := 0; i < 5; i++ {
			see(func() { s.Select(i * n / 4) })
		}
		see(func() { s.Remove(x) })
		return most
	}
	e1 := run(16)
	sym.Assert(run(sz(1000, 4000)) <= 4*e1+100, "every operation takes logarithmic time")
	sym.Reach("work")
}
