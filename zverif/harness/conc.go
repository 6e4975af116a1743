package harness

import (
	"sync"

	"github.com/alexander-yu/stream/joint"
	"github.com/alexander-yu/stream/minmax"
	"github.com/alexander-yu/stream/moment"
	"github.com/alexander-yu/stream/quantile"
	"github.com/alexander-yu/stream/sample"
	"github.com/alexander-yu/stream/zverif/sym"
)

// shared is an object that several goroutines use at once.
type shared struct {
	vars int
	ops  []func(xs []float64) ([]float64, error)
	end  func() ([]float64, error) // everything it reports once at rest

	fails []func() error // calls that cannot succeed
}

func share(t *thing) *shared {
	s := &shared{t.vars, []func([]float64) ([]float64, error){
		func(xs []float64) ([]float64, error) { return nil, t.push(xs...) },
		func([]float64) ([]float64, error) { return t.read() },
		func([]float64) ([]float64, error) { t.clear(); return nil, nil },
	}, t.read, nil}
	if t.vars > 1 {
		s.fails = append(s.fails, func() error { return t.push(1) }, func() error { return t.push(1, 2, 3) })
	}
	return s
}

func shareMomentCore(w int, a *float64) *shared {
	c, err := moment.NewCore(&moment.CoreConfig{Window: ip(w), Decay: a, Sums: moment.SumsConfig{3: true}})
	ok(err, "core")
	t := &thing{1, one(c.Push), func() ([]float64, error) { // one value pushed: every sum exists
		r := []float64{float64(c.Count())}
		if c.Count() == 0 {
			return r, nil
		}
		m, err := c.Mean()
		ok(err, "mean")
		s, err := c.Sum(2)
		ok(err, "sum")
		u, err := c.Sum(3)
		ok(err, "sum")
		return append(r, m, s, u), nil
	}, c.Clear, nil}
	s := share(t)
	s.fails = append(s.fails, func() error { _, err := c.Sum(4); return err }, func() error { _, err := c.Sum(-1); return err })
	s.ops[1] = func([]float64) ([]float64, error) { v, err := c.Mean(); return []float64{v}, err }
	s.ops = append(s.ops,
		func([]float64) ([]float64, error) { v, err := c.Sum(2); return []float64{v}, err },
		func([]float64) ([]float64, error) { return []float64{float64(c.Count())}, nil },
		func(xs []float64) ([]float64, error) {
			c.Lock()
			defer c.Unlock()
			if err := c.UnsafePush(xs[0]); err != nil {
				return nil, err
			}
			return nil, c.UnsafePush(xs[0] + 1)
		},
		func([]float64) ([]float64, error) {
			c.RLock()
			defer c.RUnlock()
			if c.UnsafeCount() == 0 {
				return nil, nil
			}
			v, err := c.UnsafeMean()
			if err != nil {
				return nil, err
			}
			u, err := c.UnsafeSum(2)
			return []float64{v, u, float64(c.UnsafeCount())}, err
		})
	return s
}

func shareJointCore(w int, a *float64) *shared {
	c, err := joint.NewCore(&joint.CoreConfig{Window: ip(w), Decay: a, Sums: joint.SumsConfig{{1, 1}}})
	ok(err, "core")
	t := &thing{2, c.Push, func() ([]float64, error) {
		r := []float64{float64(c.Count())}
		if c.Count() == 0 {
			return r, nil
		}
		m, err := c.Mean(1)
		ok(err, "mean")
		s, err := c.Sum(1, 1)
		ok(err, "sum")
		return append(r, m, s), nil
	}, c.Clear, nil}
	s := share(t)
	s.fails = append(s.fails, func() error { _, err := c.Sum(2, 2); return err }, func() error { _, err := c.Sum(1); return err },
		func() error { _, err := c.Mean(2); return err }, func() error { _, err := c.Mean(-1); return err })
	s.ops[1] = func([]float64) ([]float64, error) { v, err := c.Mean(1); return []float64{v}, err }
	s.ops = append(s.ops,
		func([]float64) ([]float64, error) { v, err := c.Sum(1, 1); return []float64{v}, err },
		func([]float64) ([]float64, error) { return []float64{float64(c.Count())}, nil },
		func(xs []float64) ([]float64, error) {
			c.Lock()
			defer c.Unlock()
			if err := c.UnsafePush(xs[0], xs[1]); err != nil {
				return nil, err
			}
			return nil, c.UnsafePush(xs[1], xs[0])
		},
		func([]float64) ([]float64, error) {
			c.RLock()
			defer c.RUnlock()
			if c.UnsafeCount() == 0 {
				return nil, nil
			}
			v, err := c.UnsafeMean(0)
			if err != nil {
				return nil, err
			}
			u, err := c.UnsafeSum(1, 1)
			return []float64{v, u, float64(c.UnsafeCount())}, err
		})
	return s
}

// shareQuantile is a quantile with its exported read lock.
func shareQuantile(w int, im quantile.Option) *shared {
	q, err := quantile.New(w, im)
	ok(err, "constructor")
	read := func(p float64) func() ([]float64, error) {
		return single(func() (float64, error) { return q.Value(p) })
	}
	s := share(&thing{1, one(q.Push), read(0.25), q.Clear, nil})
	s.fails = append(s.fails, func() error { _, err := q.Value(2); return err }, func() error { _, err := q.Value(-1); return err })
	s.ops = append(s.ops, func([]float64) ([]float64, error) { return read(0.5)() },
		func([]float64) ([]float64, error) {
			q.RLock()
			q.RUnlock()
			return nil, nil
		})
	return s
}

const sharedKinds = 11 + 2 + 4 + 2 + 2 + 5 + 1 + 2

// newShared makes the i-th kind. im selects the structure of the order statistics.
func newShared(i, w, im int) *shared {
	if i < 11 {
		return share(newMoment(i, w, 0.5))
	}
	i -= 11
	if i < 2 {
		if i == 0 {
			return shareMomentCore(w, nil)
		}
		return shareMomentCore(0, fp(0.5))
	}
	i -= 2
	if i < 4 {
		return share(newJoint(i, w, 0.5))
	}
	i -= 4
	if i < 2 {
		return share(newLagged(i == 1, 1, w))
	}
	i -= 2
	if i < 2 {
		if i == 0 {
			return shareJointCore(w, nil)
		}
		return shareJointCore(0, fp(0.5))
	}
	i -= 2
	if i < 5 {
		return share(newOrdered(i, w, implOf(im, sz(1, 2)), 0.375))
	}
	i -= 5
	if i < 1 {
		return shareQuantile(w, implOf(im, sz(1, 2)))
	}
	if i == 1 {
		return share(newAggregate(w, 0.5))
	}
	return share(newJointAggregate(w, 0.5))
}

// P21Deadlock lets three goroutines call anything at once.
// flags: ring=fifo races=off preempt=2 tpreempt=3
// bound: every metric and core (windows 0 and 2, lag 1, every order statistic), one value (quick) / 1..3 values pushed before; three goroutines with one call each out of all methods, at most 2 (quick) / 3 preemptions between synchronisation operations, writers waiting for readers included
func P21Deadlock() {
	i := sym.Choice(sharedKinds - 2)
	im := 0
	if i >= sharedKinds-5 {
		im = sym.Choice(3)
	}
	storm(i, im)
}

// P21Aggregate lets three goroutines call an aggregate at once.
// flags: ring=fifo races=off delay=2 tdelay=3
// bound: both aggregates (windows 0 and 2), one value (quick) / 1..3 values pushed before; three goroutines with one call each out of all methods, at most 2 (quick) / 3 departures (preemptions included) from running the oldest enabled goroutine
func P21Aggregate() { storm(sharedKinds-2+sym.Choice(2), 0) }

func storm(i, im int) {
	sym.Schedules(false)
	s := newShared(i, 2*sym.Choice(2), im)
	n := len(s.ops)
	a := sym.Choice(n)
	b := a + sym.Choice(n-a)
	c := b + sym.Choice(n-b)
	for k := 0; k < 1+sym.Choice(sz(1, 3)); k++ {
		ok(s.vals(k), "push")
	}
	sym.Schedules(true)
	var wg sync.WaitGroup
	for g, o := range []int{a, b, c} {
		wg.Add(1)
		go func(g, o int) {
			defer wg.Done()
			_, _ = s.ops[o]([]float64{float64(g), float64(g * g)}[:s.vars])
		}(g, o)
	}
	wg.Wait()
	sym.Schedules(false)
	_, err := s.end()
	sym.ObserveInt("reported", b2i(err == nil))
	sym.Reach("returned")
}

func (s *shared) vals(k int) error {
	_, err := s.ops[0]([]float64{float64(3 - k), float64(k)}[:s.vars])
	return err
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// P21Failed has calls that fail leave every lock free.
// flags: ring=fifo races=off preempt=0 tpreempt=1
// bound: every metric, core and aggregate, windows 0 and 2, 0..3 values pushed before; a read of nothing or any call that cannot succeed (wrong number of values, untracked sum, no such variable, quantile out of range), then two goroutines with one call each out of all methods, no preemption (quick) / 1
func P21Failed() {
	sym.Schedules(false)
	i := sym.Choice(sharedKinds)
	s := newShared(i, 2*sym.Choice(2), sym.Choice(3))
	for k, n := 0, sym.Choice(4); k < n; k++ {
		ok(s.vals(k), "push")
	}
	if len(s.fails) > 0 {
		_ = s.fails[sym.Choice(len(s.fails))]()
	} else {
		s.ops[2](nil)
		_, _ = s.ops[1](nil)
	}
	n := len(s.ops)
	a := sym.Choice(n)
	b := a + sym.Choice(n-a)
	sym.Schedules(i < sharedKinds-2)
	var wg sync.WaitGroup
	for g, o := range []int{a, b} {
		wg.Add(1)
		go func(g, o int) {
			defer wg.Done()
			_, _ = s.ops[o]([]float64{float64(g), float64(g * g)}[:s.vars])
		}(g, o)
	}
	wg.Wait()
	sym.Schedules(false)
	_, err := s.end()
	sym.ObserveInt("reported", b2i(err == nil))
	sym.Reach("returned")
}

// P21Reentry lets a goroutine call twice while two others call once.
// flags: ring=fifo races=off preempt=2 tpreempt=3 tier=thorough
// bound: as P21Deadlock, the first goroutine making two calls
func P21Reentry() {
	i := sym.Choice(sharedKinds - 2)
	w := 2 * sym.Choice(2)
	s := newShared(i, w, 0)
	n := len(s.ops)
	a, b := sym.Choice(n), sym.Choice(n)
	c := sym.Choice(n)
	d := c + sym.Choice(n-c)
	ok(s.vals(0), "push")
	var wg sync.WaitGroup
	for g, o := range [][]int{{a, b}, {c}, {d}} {
		wg.Add(1)
		go func(g int, o []int) {
			defer wg.Done()
			for _, k := range o {
				_, _ = s.ops[k]([]float64{float64(g), float64(g * g)}[:s.vars])
			}
		}(g, o)
	}
	wg.Wait()
	sym.Schedules(false)
	_, err := s.end()
	sym.ObserveInt("reported", b2i(err == nil))
	sym.Reach("returned")
}

type result struct {
	vals []float64
	err  error
}

func identical(a, b result) bool {
	if (a.err == nil) != (b.err == nil) || a.err == nil && len(a.vals) != len(b.vals) {
		return false
	}
	if a.err == nil {
		for i := range a.vals {
			if !sym.Identical(a.vals[i], b.vals[i]) {
				return false
			}
		}
	}
	return true
}

func alike(a, b result) bool {
	if (a.err == nil) != (b.err == nil) || a.err == nil && len(a.vals) != len(b.vals) {
		return false
	}
	if a.err != nil {
		return true
	}
	r := true
	for i := range a.vals {
		r = sym.And(r, sym.Eq(a.vals[i], b.vals[i]))
	}
	return r
}

// orders are the interleavings of two sequences of lengths n and m (true: the first moves).
func orders(n, m int) [][]bool {
	if n == 0 && m == 0 {
		return [][]bool{nil}
	}
	var r [][]bool
	if n > 0 {
		for _, o := range orders(n-1, m) {
			r = append(r, append([]bool{true}, o...))
		}
	}
	if m > 0 {
		for _, o := range orders(n, m-1) {
			r = append(r, append([]bool{false}, o...))
		}
	}
	return r
}

// nonlinear are the kinds whose values divide by or take roots of the data; the calls of these
// use fixed values, as their data does not influence the synchronisation.
var nonlinear = map[int]bool{4: true, 5: true, 6: true, 10: true, 14: true, 16: true, 18: true}

// linearizable runs p and q concurrently and looks for a sequential order that explains it.
func linearizable(mk func() *shared, pre int, p, q []int, fixed bool) {
	drawn := 0
	values := func(n int) []float64 {
		if !fixed {
			return values(n)
		}
		r := make([]float64, n)
		for i := range r {
			drawn++
			r[i] = float64(drawn*drawn*drawn%11) + float64(drawn)/4
		}
		return r
	}
	sym.Schedules(false)
	s := mk()
	before := make([][]float64, pre)
	for i := range before {
		before[i] = values(s.vars)
		_, err := s.ops[0](dup(before[i]))
		ok(err, "push")
	}
	in := [2][][]float64{}
	for g, ops := range [][]int{p, q} {
		for range ops {
			in[g] = append(in[g], values(s.vars))
		}
	}
	after := values(s.vars)
	var out [2][]result
	sym.Schedules(true)
	var wg sync.WaitGroup
	for g, ops := range [][]int{p, q} {
		out[g] = make([]result, len(ops))
		wg.Add(1)
		go func(g int, ops []int) {
			defer wg.Done()
			for i, o := range ops {
				v, err := s.ops[o](dup(in[g][i]))
				out[g][i] = result{v, err}
			}
		}(g, ops)
	}
	wg.Wait()
	sym.Schedules(false)
	v, err := s.end()
	end := result{v, err}
	_, err = s.ops[0](dup(after))
	ok(err, "push")
	v, err = s.end()
	last := result{v, err}

	// every call's result in each sequential order; most often one order explains them
	// trivially, and the solver decides over all of them otherwise
	got := append(append(append([]result{}, out[0]...), out[1]...), end, last)
	var all [][]result
	for _, o := range orders(len(p), len(q)) {
		t := mk()
		for i := range before {
			_, err := t.ops[0](dup(before[i]))
			ok(err, "push")
		}
		want := make([]result, len(got))
		var at [2]int
		for _, first := range o {
			g, op := 1, 0
			if first {
				g = 0
			}
			k := at[g]
			at[g]++
			if g == 0 {
				op = p[k]
			} else {
				op = q[k]
			}
			v, err := t.ops[op](dup(in[g][k]))
			if g == 1 {
				k += len(p)
			}
			want[k] = result{v, err}
		}
		v, err := t.end()
		want[len(p)+len(q)] = result{v, err}
		_, err = t.ops[0](dup(after))
		ok(err, "push")
		v, err = t.end()
		want[len(p)+len(q)+1] = result{v, err}
		same := true
		for i := range got {
			same = same && identical(got[i], want[i])
		}
		if same {
			sym.Reach("concurrent")
			return
		}
		all = append(all, want)
	}
	var explained []bool
	for _, want := range all {
		fits := true
		for i := range got {
			fits = sym.And(fits, alike(got[i], want[i]))
		}
		explained = append(explained, fits)
	}
	sym.Assert(sym.Or(explained...), "some sequential order of the calls explains what they returned")
	sym.Reach("concurrent by solver")
}

func dup(xs []float64) []float64 { return append([]float64{}, xs...) }

// P22Linear checks two goroutines with two calls and one.
// flags: ring=fifo preempt=1 tpreempt=2 qtimeout=500
// bound: every metric and core (windows 0 and 2, lag 1, AVL trees; any values, fixed ones for standard deviations, skewness, kurtosis and correlations), 1 (quick) / 0..2 values before; every pair of calls of one goroutine against every call of another, at most 1 (quick) / 2 preemptions
func P22Linear() {
	i := sym.Choice(sharedKinds - 2)
	w := 2 * sym.Choice(2)
	pre := 1
	if sym.Thorough() {
		pre = sym.Choice(3)
	}
	mk := func() *shared { return newShared(i, w, 0) }
	n := len(mk().ops)
	p := []int{sym.Choice(n), sym.Choice(n)}
	linearizable(mk, pre, p, []int{sym.Choice(n)}, nonlinear[i])
}

// P22Aggregate checks two goroutines with one call each on an aggregate.
// flags: ring=fifo delay=2 tdelay=3 qtimeout=500
// bound: both aggregates, windows 0 and 2, 1 value before, every pair of calls, at most 2 (quick) / 3 departures (preemptions included) from running the oldest enabled goroutine
func P22Aggregate() {
	i := sharedKinds - 2 + sym.Choice(2)
	w := 2 * sym.Choice(2)
	mk := func() *shared { return newShared(i, w, 0) }
	a := sym.Choice(3)
	linearizable(mk, 1, []int{a}, []int{a + sym.Choice(3-a)}, false)
}

// P22Structures checks the order statistics other than AVL trees.
// flags: ring=fifo preempt=1 tpreempt=2 qtimeout=500
// bound: Median, IQR and Quantile on red-black trees and skip lists, windows 0 and 2, 1 value before, every pair of calls, at most 1 (quick) / 2 preemptions
func P22Structures() {
	i := sharedKinds - 5 + sym.Choice(3)
	w := 2 * sym.Choice(2)
	im := 1 + sym.Choice(2)
	mk := func() *shared { return newShared(i, w, im) }
	n := len(mk().ops)
	a := sym.Choice(n)
	linearizable(mk, 1, []int{a}, []int{a + sym.Choice(n-a)}, false)
}

// P22Shared lets metrics that share one core be used at once.
// flags: ring=fifo preempt=1 tpreempt=2 qtimeout=500
// bound: Mean, Std and Skewness on one univariate core, Cov and Corr on one joint core, windows 0 and 2, fixed values, 1 before, two calls against one, at most 1 (quick) / 2 preemptions
func P22Shared() {
	w := 2 * sym.Choice(2)
	var mk func() *shared
	if sym.Bool() {
		mk = func() *shared {
			m, s, k := moment.NewMean(w), moment.NewStd(w), moment.NewSkewness(w)
			cfg, err := moment.MergeConfigs(m.Config(), s.Config(), k.Config())
			ok(err, "merge")
			c, err := moment.NewCore(cfg)
			ok(err, "core")
			m.SetCore(c)
			s.SetCore(c)
			k.SetCore(c)
			r := share(simple(m))
			r.ops = append(r.ops, share(simple(s)).ops[1], share(simple(k)).ops[1])
			r.end = func() ([]float64, error) {
				v, err := m.Value()
				u, err2 := s.Value()
				if (err == nil) != (err2 == nil) {
					return nil, nil
				}
				return []float64{v, u}, err
			}
			return r
		}
	} else {
		mk = func() *shared {
			m, s := joint.NewCov(w), joint.NewCorr(w)
			cfg, err := joint.MergeConfigs(m.Config(), s.Config())
			ok(err, "merge")
			c, err := joint.NewCore(cfg)
			ok(err, "core")
			m.SetCore(c)
			s.SetCore(c)
			r := share(simpleJoint(m))
			r.ops = append(r.ops, share(simpleJoint(s)).ops[1])
			r.end = func() ([]float64, error) {
				v, err := m.Value()
				u, err2 := s.Value()
				if (err == nil) != (err2 == nil) {
					return nil, nil
				}
				return []float64{v, u}, err
			}
			return r
		}
	}
	n := len(mk().ops)
	linearizable(mk, 1, []int{sym.Choice(n), sym.Choice(n)}, []int{sym.Choice(n)}, true)
}

// P22Distinct uses separate objects from two goroutines: nothing may be shared.
// flags: ring=fifo preempt=1 tpreempt=2
// bound: every pair of a univariate moment of order 9, a joint core of exponents (5, 4), a median on every structure, Min and a reservoir, built and used concurrently with 2 pushes each
func P22Distinct() {
	mk := func(i int) func() []float64 {
		switch i {
		case 0:
			return func() []float64 {
				m := moment.New(9, 0)
				ok(moment.Init(m), "Init")
				ok(m.Push(1), "push")
				ok(m.Push(3), "push")
				v, err := m.Value()
				ok(err, "Value")
				return []float64{v}
			}
		case 1:
			return func() []float64 {
				c, err := joint.NewCore(&joint.CoreConfig{Window: ip(1), Sums: joint.SumsConfig{{9, 0}}})
				ok(err, "core")
				ok(c.Push(1, 2), "push")
				ok(c.Push(3, 4), "push")
				v, err := c.Sum(8, 0)
				ok(err, "sum")
				return []float64{v}
			}
		case 2:
			return func() []float64 {
				m, err := minmax.NewMin(2)
				ok(err, "constructor")
				ok(m.Push(1), "push")
				ok(m.Push(3), "push")
				v, err := m.Value()
				ok(err, "Value")
				return []float64{v}
			}
		case 3:
			return func() []float64 {
				r := &sample.Reservoir{Size: 2}
				r.Push(1)
				r.Push(2)
				return []float64{float64(len(r.Sample()))}
			}
		}
		return func() []float64 {
			m, err := quantile.NewMedian(1, implOf(i-4, 2))
			ok(err, "constructor")
			ok(m.Push(1), "push")
			ok(m.Push(3), "push")
			v, err := m.Value()
			ok(err, "Value")
			return []float64{v}
		}
	}
	a := sym.Choice(7)
	b := a + sym.Choice(7-a)
	var x, y []float64
	var wg sync.WaitGroup
	wg.Add(2)
	go func() { defer wg.Done(); x = mk(a)() }()
	go func() { defer wg.Done(); y = mk(b)() }()
	wg.Wait()
	u, v := mk(a)(), mk(b)()
	sym.Assert(x[0] == u[0] && y[0] == v[0], "objects used at once report what they report alone")
	sym.Reach("distinct")
}

// P22SharedConfig builds cores from one configuration at once.
// flags: ring=fifo preempt=1
// bound: univariate and joint, with and without sums, two cores from one configuration, one push each
func P22SharedConfig() {
	var wg sync.WaitGroup
	wg.Add(2)
	if sym.Bool() {
		cfg := &moment.CoreConfig{Window: ip(1)}
		if sym.Bool() {
			cfg.Sums = moment.SumsConfig{2: true}
		}
		for i := 0; i < 2; i++ {
			go func() {
				defer wg.Done()
				c, err := moment.NewCore(cfg)
				ok(err, "core")
				ok(c.Push(1), "push")
			}()
		}
	} else {
		cfg := &joint.CoreConfig{Window: ip(1), Vars: ip(2)}
		if sym.Bool() {
			cfg = &joint.CoreConfig{Window: ip(1), Sums: joint.SumsConfig{{1, 1}}}
		}
		for i := 0; i < 2; i++ {
			go func() {
				defer wg.Done()
				c, err := joint.NewCore(cfg)
				ok(err, "core")
				ok(c.Push(1, 2), "push")
			}()
		}
	}
	wg.Wait()
	sym.Reach("configured")
}

// P22Reservoir uses a reservoir from two goroutines.
// flags: ring=fifo preempt=2 tpreempt=3
// bound: sizes 1 and 2, two pushes against one push and one Sample, at most 1 (quick) / 2 preemptions
func P22Reservoir() {
	r := &sample.Reservoir{Size: 1 + sym.Choice(2)}
	var got []interface{}
	var wg sync.WaitGroup
	wg.Add(2)
	go func() { defer wg.Done(); r.Push(1); r.Push(2) }()
	go func() { defer wg.Done(); got = r.Sample(); r.Push(3) }()
	wg.Wait()
	seen := map[interface{}]bool{}
	for _, v := range r.Sample() {
		sym.Assert(!seen[v], "each item is held at most once")
		seen[v] = true
	}
	sym.Assert(len(seen) == r.Size, "a reservoir fills up")
	sym.Assert(len(got) <= 2, "Sample returns items pushed so far")
	for _, v := range got {
		sym.Assert(v == 1 || v == 2, "Sample returns items pushed so far")
	}
	sym.Reach("reservoir")
}
