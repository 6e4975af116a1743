package harness

import (
	"sync"

	"github.com/alexander-yu/stream/joint"
	"github.com/alexander-yu/stream/minmax"
	"github.com/alexander-yu/stream/moment"
	"github.com/alexander-yu/stream/quantile"
	"github.com/alexander-yu/stream/quantile/skiplist"
	"github.com/alexander-yu/stream/zverif/sym"
)

const globalKinds = 15

// globalPair makes a metric with its global constructor and one with window 0.
func globalPair(i int) (a, b *thing) {
	um := func(x, y moment.Metric) (*thing, *thing) {
		ok(moment.Init(x), "Init")
		ok(moment.Init(y), "Init")
		return simple(x), simple(y)
	}
	jm := func(x, y joint.Metric) (*thing, *thing) {
		ok(joint.Init(x), "Init")
		ok(joint.Init(y), "Init")
		return simpleJoint(x), simpleJoint(y)
	}
	switch i {
	case 0:
		return um(moment.NewGlobalMean(), moment.NewMean(0))
	case 1:
		k := 1 + sym.Choice(sz(4, 6))
		return um(moment.NewGlobal(k), moment.New(k, 0))
	case 2:
		return um(moment.NewGlobalStd(), moment.NewStd(0))
	case 3:
		return um(moment.NewGlobalSkewness(), moment.NewSkewness(0))
	case 4:
		return um(moment.NewGlobalKurtosis(), moment.NewKurtosis(0))
	case 5:
		return jm(joint.NewGlobalCov(), joint.NewCov(0))
	case 6:
		return jm(joint.NewGlobalCorr(), joint.NewCorr(0))
	case 7:
		l := sym.Choice(sz(3, 5))
		x, err := joint.NewGlobalAutocov(l)
		ok(err, "constructor")
		y, err := joint.NewAutocov(l, 0)
		ok(err, "constructor")
		ok(joint.Init(x), "Init")
		ok(joint.Init(y), "Init")
		return simple(x), simple(y)
	case 8:
		l := sym.Choice(sz(3, 5))
		x, err := joint.NewGlobalAutocorr(l)
		ok(err, "constructor")
		y, err := joint.NewAutocorr(l, 0)
		ok(err, "constructor")
		ok(joint.Init(x), "Init")
		ok(joint.Init(y), "Init")
		return simple(x), simple(y)
	case 9:
		y, err := minmax.NewMin(0)
		ok(err, "constructor")
		return simple(minmax.NewGlobalMin()), simple(y)
	case 10:
		y, err := minmax.NewMax(0)
		ok(err, "constructor")
		return simple(minmax.NewGlobalMax()), simple(y)
	case 11:
		y, err := quantile.NewHeapMedian(0)
		ok(err, "constructor")
		return simple(quantile.NewGlobalHeapMedian()), simple(y)
	}
	var opts []quantile.Option
	if sym.Bool() {
		opts = append(opts, impl(1))
	}
	switch i {
	case 12:
		x, err := quantile.NewGlobalMedian(opts...)
		ok(err, "constructor")
		y, err := quantile.NewMedian(0, opts...)
		ok(err, "constructor")
		return simple(x), simple(y)
	case 13:
		x, err := quantile.NewGlobalIQR(opts...)
		ok(err, "constructor")
		y, err := quantile.NewIQR(0, opts...)
		ok(err, "constructor")
		return simple(x), simple(y)
	}
	if sym.Bool() {
		opts = append(opts, quantile.InterpolationOption(quantile.Interpolation(sym.Choice(5))))
	}
	x, err := quantile.NewGlobalQuantile(opts...)
	ok(err, "constructor")
	y, err := quantile.New(0, opts...)
	ok(err, "constructor")
	th := func(q *quantile.Quantile) *thing {
		return &thing{1, one(q.Push), single(func() (float64, error) { return q.Value(0.3) }), q.Clear, q.String}
	}
	return th(x), th(y)
}

// P29Global compares what the global constructors make with a window of 0.
// flags: qtimeout=500
// bound: every metric with a global constructor (powers 1..4, lags 0..2), 4 pushes (quick) / 6 of any values (order statistics: 3 / 4), one Clear anywhere or none; values, errors and names
func P29Global() {
	i := sym.Choice(globalKinds)
	a, b := globalPair(i)
	sym.Assert(a.str() == b.str(), "a global metric has the name of one with window 0")
	n := sz(4, 6)
	if i >= 9 {
		n = sz(3, 4)
	}
	clearAt := sym.Choice(n + 1)
	for j := 0; j < n; j++ {
		if j == clearAt {
			a.clear()
			b.clear()
			same(a, b)
		}
		xs := values(a.vars)
		ok(a.push(dup(xs)...), "push")
		ok(b.push(dup(xs)...), "push")
		same(a, b)
	}
	sym.Reach("global")
}

// P29Long follows both for longer.
// flags: maxsteps=200000000 qtimeout=500
// bound: every metric with a global constructor, 40 fixed pushes, Clear or not, 40 more (quick) / 150 each, the last one arbitrary
func P29Long() {
	a, b := globalPair(sym.Choice(globalKinds))
	n := sz(40, 150)
	clearing := sym.Bool()
	for j := 0; j < 2*n; j++ {
		if j == n && clearing {
			a.clear()
			b.clear()
		}
		xs := make([]float64, a.vars)
		for v := range xs {
			xs[v] = bulk(j + 5*v)
			if j == 2*n-1 {
				xs[v] = sym.Float()
			}
		}
		ok(a.push(dup(xs)...), "push")
		ok(b.push(dup(xs)...), "push")
		if j%7 == 0 || j >= 2*n-2 {
			same(a, b)
		}
	}
	sym.Reach("long")
}

// P29Lag gives the global constructors any lag.
// bound: any lag up to 3
func P29Lag() {
	l := sym.AnyInt()
	sym.Assume(l <= 3)
	x, err := joint.NewGlobalAutocov(l)
	y, err2 := joint.NewGlobalAutocorr(l)
	u, err3 := joint.NewAutocov(l, 0)
	sym.Assert((err == nil) == (err3 == nil) && (err2 == nil) == (err3 == nil), "global constructors accept the lags that the others accept")
	if err == nil && u != nil {
		sym.Assert(*x.Config().Window == 0 && *y.Config().Window == 0, "a global metric asks for window 0")
	}
	sym.Reach("lag")
}

// P30Univariate calls the unsafe methods of a core under its lock and the others on a twin.
// flags: ring=fifo
// bound: windows 0..2 or a decay, powers up to 3, 4 operations (quick) / 5 out of push, clear, and every read in between; requests of any int power
func P30Univariate() {
	w := sym.Choice(4)
	var a *float64
	if w == 3 {
		w, a = 0, fp(0.5)
	}
	mk := func() *moment.Core {
		c, err := moment.NewCore(&moment.CoreConfig{Window: ip(w), Decay: a, Sums: moment.SumsConfig{3: true}})
		ok(err, "core")
		return c
	}
	c, d := mk(), mk()
	for i := 0; i < sz(4, 5); i++ {
		if i > 0 && sym.Choice(3) == 0 {
			c.Lock()
			c.UnsafeClear()
			c.Unlock()
			d.Clear()
		} else {
			x := sym.Float()
			c.Lock()
			err := c.UnsafePush(x)
			c.Unlock()
			bothFail(err, d.Push(x))
		}
		k := sym.AnyInt()
		c.RLock()
		n := c.UnsafeCount()
		m, err := c.UnsafeMean()
		s, err2 := c.UnsafeSum(k)
		c.RUnlock()
		sym.Assert(n == d.Count(), "UnsafeCount is Count")
		m2, e := d.Mean()
		bothFail(err, e)
		s2, e2 := d.Sum(k)
		bothFail(err2, e2)
		sym.Assert(err != nil || sym.Eq(m, m2), "UnsafeMean gives what Mean gives")
		sym.Assert(err2 != nil || sym.Eq(s, s2), "UnsafeSum gives what Sum gives")
		sym.Reach("univariate")
	}
	// under the write lock
	c.Lock()
	n := c.UnsafeCount()
	m, err := c.UnsafeMean()
	s, err2 := c.UnsafeSum(2)
	c.Unlock()
	m2, _ := d.Mean()
	s2, _ := d.Sum(2)
	sym.Assert(n == d.Count(), "UnsafeCount works under either lock")
	sym.Assert(err != nil || sym.Eq(m, m2), "UnsafeMean works under either lock")
	sym.Assert(err2 != nil || sym.Eq(s, s2), "UnsafeSum works under either lock")
	sym.Reach("locked")
}

// P30Joint does the same for joint cores.
// flags: ring=fifo
// bound: 2 variables, windows 0..2 or a decay, 3 operations (quick) / 4 out of push (of 1 to 3 values), clear, and every read in between; in the end requests of any variable and of an exponent in -1..3 with another
func P30Joint() {
	w := sym.Choice(4)
	var a *float64
	if w == 3 {
		w, a = 0, fp(0.5)
	}
	mk := func() *joint.Core {
		c, err := joint.NewCore(&joint.CoreConfig{Window: ip(w), Decay: a, Sums: joint.SumsConfig{{1, 2}}})
		ok(err, "core")
		return c
	}
	c, d := mk(), mk()
	n := sz(3, 4)
	for i := 0; i < n; i++ {
		switch j := sym.Choice(4); j {
		case 3:
			c.Lock()
			c.UnsafeClear()
			c.Unlock()
			d.Clear()
		default:
			xs := values([]int{2, 1, 3}[j])
			c.Lock()
			err := c.UnsafePush(dup(xs)...)
			c.Unlock()
			bothFail(err, d.Push(dup(xs)...))
		}
		v, t := 1, []int{1, 2}
		if i == n-1 {
			v, t[0] = sym.AnyInt(), sym.Choice(5)-1
		}
		c.RLock()
		count := c.UnsafeCount()
		m, err := c.UnsafeMean(v)
		s, err2 := c.UnsafeSum(t...)
		c.RUnlock()
		sym.Assert(count == d.Count(), "UnsafeCount is Count")
		m2, e := d.Mean(v)
		bothFail(err, e)
		s2, e2 := d.Sum(t...)
		bothFail(err2, e2)
		sym.Assert(err != nil || sym.Eq(m, m2), "UnsafeMean gives what Mean gives")
		sym.Assert(err2 != nil || sym.Eq(s, s2), "UnsafeSum gives what Sum gives")
		sym.Reach("joint")
	}
	c.Lock()
	count := c.UnsafeCount()
	m, err := c.UnsafeMean(1)
	s, err2 := c.UnsafeSum(1, 1)
	c.Unlock()
	m2, _ := d.Mean(1)
	s2, _ := d.Sum(1, 1)
	sym.Assert(count == d.Count(), "UnsafeCount works under either lock")
	sym.Assert(err != nil || sym.Eq(m, m2), "UnsafeMean works under either lock")
	sym.Assert(err2 != nil || sym.Eq(s, s2), "UnsafeSum works under either lock")
	sym.Reach("locked")
}

func bothFail(a, b error) {
	sym.Assert((a == nil) == (b == nil), "an unsafe call fails exactly when the locking one does")
}

// P30Exclusive has a goroutine hold the lock of a core while another calls something.
// flags: ring=fifo preempt=2 tpreempt=3
// bound: univariate and joint cores, windows 0 and 2 or a decay, 1 value before; a held Lock (read, push, read) or a held RLock (two reads) against one or two calls of Push, Clear, Count, Mean, Sum, at most 2 (quick) / 3 preemptions
func P30Exclusive() {
	sym.Schedules(false)
	w := 2 * sym.Choice(2)
	var a *float64
	if w == 0 && sym.Bool() {
		a = fp(0.5)
	}
	joined := sym.Bool()
	reading := sym.Bool()
	var lock, unlock, rlock, runlock, clear func()
	var push, upush func(x float64) error
	var count, ucount func() int
	var mean, sum, umean, usum func() (float64, error)
	if joined {
		c, err := joint.NewCore(&joint.CoreConfig{Window: ip(w), Decay: a, Sums: joint.SumsConfig{{1, 1}}})
		ok(err, "core")
		lock, unlock, rlock, runlock, clear = c.Lock, c.Unlock, c.RLock, c.RUnlock, c.Clear
		push, upush = func(x float64) error { return c.Push(x, x+1) }, func(x float64) error { return c.UnsafePush(x, x+1) }
		count, ucount = c.Count, c.UnsafeCount
		mean, umean = func() (float64, error) { return c.Mean(0) }, func() (float64, error) { return c.UnsafeMean(0) }
		sum, usum = func() (float64, error) { return c.Sum(1, 1) }, func() (float64, error) { return c.UnsafeSum(1, 1) }
	} else {
		c, err := moment.NewCore(&moment.CoreConfig{Window: ip(w), Decay: a, Sums: moment.SumsConfig{2: true}})
		ok(err, "core")
		lock, unlock, rlock, runlock, clear = c.Lock, c.Unlock, c.RLock, c.RUnlock, c.Clear
		push, upush = c.Push, c.UnsafePush
		count, ucount, mean, umean = c.Count, c.UnsafeCount, c.Mean, c.UnsafeMean
		sum, usum = func() (float64, error) { return c.Sum(2) }, func() (float64, error) { return c.UnsafeSum(2) }
	}
	ok(push(4), "push")
	calls := []func(){
		func() { ok(push(8), "push") },
		clear,
		func() { count() },
		func() { _, _ = mean() },
		func() { _, _ = sum() },
	}
	k := sym.Choice(len(calls))
	l := sym.Choice(sz(2, len(calls)))
	sym.Schedules(true)
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		calls[k]()
		calls[l]()
	}()
	go func() {
		defer wg.Done()
		if reading {
			rlock()
			n := ucount()
			m, err := umean()
			s, err2 := usum()
			n2 := ucount()
			m2, e := umean()
			s2, e2 := usum()
			runlock()
			bothFail(err, e)
			bothFail(err2, e2)
			sym.Assert(n == n2 && m == m2 && s == s2, "nothing changes while a read lock is held")
			return
		}
		lock()
		n := ucount()
		ok(upush(2), "push")
		n2 := ucount()
		m, err := umean()
		m2, e := umean()
		unlock()
		ok(err, "mean")
		ok(e, "mean")
		sym.Assert(n2 == n+1 || w == 2 && n == 2 && n2 == 2, "nothing but the holder of the lock pushes or clears")
		sym.Assert(m == m2, "nothing changes while the lock is held")
	}()
	wg.Wait()
	sym.Reach("exclusive")
}

// P29IEEE compares the order statistics over any doubles.
// flags: mode=fp
// bound: Min, Max, HeapMedian, Median on the default structure; 3 pushes (quick) / 4 of any doubles but NaN, infinities included, one Clear anywhere or none
func P29IEEE() {
	a, b := globalPair(9 + sym.Choice(4))
	n := sz(3, 4)
	clearAt := sym.Choice(n + 1)
	for j := 0; j < n; j++ {
		if j == clearAt {
			a.clear()
			b.clear()
		}
		x := number()
		ok(a.push(x), "push")
		ok(b.push(x), "push")
		v, err := a.read()
		ok(err, "read")
		u, err := b.read()
		ok(err, "read")
		sym.Assert(sym.Or(v[0] == u[0], sym.And(v[0] != v[0], u[0] != u[0])), "a global metric reports what one with window 0 does")
	}
	sym.Reach("global")
}

// P29Options gives the global constructors any options.
// bound: NewGlobalQuantile, NewGlobalMedian, NewGlobalIQR; up to 3 options out of implementations (one unknown), interpolations (one unknown), skip list options for a tree; 3 fixed pushes
func P29Options() {
	var opts []quantile.Option
	for i, n := 0, sym.Choice(4); i < n; i++ {
		switch sym.Choice(7) {
		case 0:
			opts = append(opts, quantile.ImplOption(quantile.AVL))
		case 1:
			opts = append(opts, quantile.ImplOption(quantile.SkipList, skiplist.MaxLevelOption(2)))
		case 2:
			opts = append(opts, quantile.ImplOption(quantile.RedBlack, skiplist.MaxLevelOption(2)))
		case 3:
			opts = append(opts, quantile.ImplOption(quantile.Impl(17)))
		case 4:
			opts = append(opts, quantile.InterpolationOption(quantile.Lower))
		case 5:
			opts = append(opts, quantile.InterpolationOption(quantile.Interpolation(17)))
		case 6:
			opts = append(opts, quantile.ImplOption(quantile.SkipList, skiplist.MaxLevelOption(0)))
		}
	}
	var err, err2 error
	var a, b *thing
	switch sym.Choice(3) {
	case 0:
		x, e := quantile.NewGlobalMedian(opts...)
		y, e2 := quantile.NewMedian(0, opts...)
		err, err2 = e, e2
		if e == nil && e2 == nil {
			a, b = simple(x), simple(y)
		}
	case 1:
		x, e := quantile.NewGlobalIQR(opts...)
		y, e2 := quantile.NewIQR(0, opts...)
		err, err2 = e, e2
		if e == nil && e2 == nil {
			a, b = simple(x), simple(y)
		}
	case 2:
		x, e := quantile.NewGlobalQuantile(opts...)
		y, e2 := quantile.New(0, opts...)
		err, err2 = e, e2
		if e == nil && e2 == nil {
			th := func(q *quantile.Quantile) *thing {
				return &thing{1, one(q.Push), single(func() (float64, error) { return q.Value(0.3) }), q.Clear, q.String}
			}
			a, b = th(x), th(y)
		}
	}
	sym.Assert((err == nil) == (err2 == nil), "global constructors accept the options that the others accept")
	if a == nil {
		sym.Reach("rejected")
		return
	}
	sym.Assert(a.str() == b.str(), "a global metric has the name of one with window 0")
	for i := 0; i < 3; i++ {
		ok(a.push(float64(i*i%3)), "push")
		ok(b.push(float64(i*i%3)), "push")
		same(a, b)
	}
	sym.Reach("accepted")
}
