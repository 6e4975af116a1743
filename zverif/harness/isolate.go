package harness

import (
	"github.com/alexander-yu/stream"
	"github.com/alexander-yu/stream/aggregate"
	"github.com/alexander-yu/stream/joint"
	"github.com/alexander-yu/stream/minmax"
	"github.com/alexander-yu/stream/moment"
	"github.com/alexander-yu/stream/quantile"
	"github.com/alexander-yu/stream/quantile/order"
	"github.com/alexander-yu/stream/quantile/skiplist"
	"github.com/alexander-yu/stream/sample"
	mathutil "github.com/alexander-yu/stream/util/math"
	"github.com/alexander-yu/stream/zverif/sym"
)

// P25Buffer pushes from one slice that is overwritten after every call.
// flags: ring=fifo sched=one
// bound: joint core, metrics and aggregate, windows 0..2, window+2 pushes
func P25Buffer() {
	w := sym.Choice(3)
	i := sym.Choice(len(jointMetrics) + 2)
	mk := func() *thing {
		switch i {
		case len(jointMetrics):
			return newJointCore(w, nil)
		case len(jointMetrics) + 1:
			return newJointAggregate(w, 0.5)
		}
		return newJoint(i, w, 0.5)
	}
	m, o := mk(), mk()
	buf := make([]float64, 2)
	for j := 0; j < w+2; j++ {
		xs := values(2)
		copy(buf, xs)
		ok(m.push(buf...), "push")
		sym.Assert(sym.And(sym.Eq(buf[0], xs[0]), sym.Eq(buf[1], xs[1])), "Push leaves the caller's slice alone")
		buf[0], buf[1] = 1e6, -1e6
		ok(o.push(dup(xs)...), "push")
		same(m, o)
	}
	sym.Reach("buffer")
}

// P25Config changes a configuration after creating a core from it.
// flags: ring=fifo
// bound: univariate and joint cores, window 0..2 or a decay, 2 sums, then 3 pushes; NewCore itself must leave the configuration as it was, nil fields included
func P25Config() {
	w := sym.Choice(4)
	var a *float64
	if w == 3 {
		w, a = 0, fp(decay())
	}
	clone := func() *float64 {
		if a == nil {
			return nil
		}
		return fp(*a)
	}
	if sym.Bool() {
		mk := func() *moment.CoreConfig {
			return &moment.CoreConfig{Window: ip(w), Decay: clone(), Sums: moment.SumsConfig{2: true, 3: true}}
		}
		cfg := mk()
		c, err := moment.NewCore(cfg)
		ok(err, "core")
		sym.Assert(len(cfg.Sums) == 2 && cfg.Sums[2] && cfg.Sums[3], "NewCore leaves the sums alone")
		sym.Assert(*cfg.Window == w && (cfg.Decay == nil) == (a == nil), "NewCore leaves the window and decay alone")
		if a != nil {
			sym.Assert(sym.Eq(*cfg.Decay, *a), "NewCore leaves the decay alone")
		}
		o, err := moment.NewCore(mk())
		ok(err, "core")
		*cfg.Window = 7
		if a != nil {
			*cfg.Decay = 0.875
		}
		delete(cfg.Sums, 3)
		cfg.Sums[6] = true
		cfg.Window, cfg.Decay, cfg.Sums = nil, nil, nil
		for j := 0; j < 3; j++ {
			x := sym.Float()
			ok(c.Push(x), "push")
			ok(o.Push(x), "push")
			u, err := c.Mean()
			ok(err, "mean")
			v, err := o.Mean()
			ok(err, "mean")
			sym.Assert(sym.Eq(u, v), "a core does not follow changes of its configuration")
			for k := 2; k <= 3; k++ {
				u, err := c.Sum(k)
				ok(err, "sum")
				v, err := o.Sum(k)
				ok(err, "sum")
				sym.Assert(sym.Eq(u, v), "a core does not follow changes of its configuration")
			}
			_, err = c.Sum(6)
			bad(err, "a sum added to the configuration afterwards")
		}
		bare := &moment.CoreConfig{Window: ip(w)}
		_, err = moment.NewCore(bare)
		ok(err, "core")
		sym.Assert(bare.Sums == nil && bare.Decay == nil, "NewCore fills no defaults into the caller's configuration")
		sym.Reach("univariate")
		return
	}
	mk := func() *joint.CoreConfig {
		return &joint.CoreConfig{Window: ip(w), Decay: clone(), Sums: joint.SumsConfig{{1, 1}, {0, 2}}}
	}
	cfg := mk()
	c, err := joint.NewCore(cfg)
	ok(err, "core")
	sym.Assert(len(cfg.Sums) == 2 && cfg.Vars == nil && *cfg.Window == w && (cfg.Decay == nil) == (a == nil), "NewCore leaves the configuration alone")
	t := cfg.Sums
	sym.Assert(len(t[0]) == 2 && t[0][0] == 1 && t[0][1] == 1 && len(t[1]) == 2 && t[1][0] == 0 && t[1][1] == 2, "NewCore leaves the tuples alone")
	o, err := joint.NewCore(mk())
	ok(err, "core")
	*cfg.Window = 7
	if a != nil {
		*cfg.Decay = 0.875
	}
	cfg.Sums[0][0] = 2
	cfg.Sums[1] = joint.Tuple{0, 0}
	cfg.Window, cfg.Decay, cfg.Sums, cfg.Vars = nil, nil, nil, ip(4)
	for j := 0; j < 3; j++ {
		x, y := sym.Float(), sym.Float()
		ok(c.Push(x, y), "push")
		ok(o.Push(x, y), "push")
		for _, tu := range []joint.Tuple{{1, 1}, {0, 2}, {1, 0}} {
			u, err := c.Sum(tu...)
			ok(err, "sum")
			v, err := o.Sum(tu...)
			ok(err, "sum")
			sym.Assert(sym.Eq(u, v), "a core does not follow changes of its configuration")
		}
		_, err = c.Sum(2, 0)
		bad(err, "a sum added to the configuration afterwards")
	}
	bare := &joint.CoreConfig{Window: ip(w), Vars: ip(2)}
	_, err = joint.NewCore(bare)
	ok(err, "core")
	sym.Assert(bare.Sums == nil && bare.Decay == nil && *bare.Vars == 2, "NewCore fills no defaults into the caller's configuration")
	sym.Reach("joint")
}

// P25Before compares objects made before and after others came to be.
// flags: qtimeout=500
// bound: univariate and joint cores without sums or with one, every metric; between the two constructions merges of configurations, cores with other sums, other metrics, options and trees; 3 pushes, all of their answers
func P25Before() {
	w := sym.Choice(3)
	i := sym.Choice(4 + len(momentMetrics) + len(jointMetrics) + 2 + orderedKinds)
	mk := func() *thing {
		j := i - 4
		switch {
		case i < 2:
			cfg := &moment.CoreConfig{Window: ip(w)}
			if i == 1 {
				cfg.Sums = moment.SumsConfig{2: true}
			}
			c, err := moment.NewCore(cfg)
			ok(err, "core")
			return &thing{1, one(c.Push), func() ([]float64, error) {
				var r []float64
				for k := -1; k <= 6; k++ {
					r = append(r, answer(c.Sum(k))...)
				}
				r = append(r, answer(c.Mean())...)
				return append(r, float64(c.Count())), nil
			}, c.Clear, nil}
		case i < 4:
			cfg := &joint.CoreConfig{Window: ip(w), Vars: ip(2)}
			if i == 3 {
				cfg.Sums = joint.SumsConfig{{1, 1}}
			}
			c, err := joint.NewCore(cfg)
			ok(err, "core")
			return &thing{2, c.Push, func() ([]float64, error) {
				var r []float64
				for k := 0; k < 9; k++ {
					r = append(r, answer(c.Sum(k/3, k%3))...)
				}
				r = append(r, answer(c.Mean(0))...)
				return append(r, float64(c.Count())), nil
			}, c.Clear, nil}
		case j < len(momentMetrics):
			return newMoment(j, w, 0.5)
		}
		j -= len(momentMetrics)
		if j < len(jointMetrics) {
			return newJoint(j, w, 0.5)
		}
		j -= len(jointMetrics)
		if j < 2 {
			return newLagged(j == 1, 1, w)
		}
		j -= 2
		switch j {
		case 3:
			m, err := quantile.NewMedian(w)
			ok(err, "constructor")
			return simple(m)
		case 4:
			m, err := quantile.NewIQR(w)
			ok(err, "constructor")
			return simple(m)
		case 5:
			m, err := quantile.New(w)
			ok(err, "constructor")
			return &thing{1, one(m.Push), single(func() (float64, error) { return m.Value(0.3) }), m.Clear, m.String}
		}
		return newOrdered(j, w, nil, 0.5)
	}
	a := mk()
	// what must not matter
	one := moment.NewMean(4)
	two := moment.New(3, 4)
	std := moment.NewStd(4)
	mc, err := moment.MergeConfigs(one.Config(), two.Config(), std.Config(), &moment.CoreConfig{Window: ip(4), Sums: moment.SumsConfig{5: true}}, &moment.CoreConfig{})
	ok(err, "merge")
	_, err = moment.NewCore(mc)
	ok(err, "core")
	mc.Sums[4] = true
	ok(moment.Init(two), "Init")
	ok(moment.Init(moment.NewEWMMoment(4, 0.25)), "Init")
	cov, corr := joint.NewCov(4), joint.NewCorr(4)
	jc, err := joint.MergeConfigs(cov.Config(), corr.Config(), &joint.CoreConfig{Window: ip(4), Sums: joint.SumsConfig{{2, 2}}, Vars: ip(2)}, &joint.CoreConfig{})
	ok(err, "merge")
	_, err = joint.NewCore(jc)
	ok(err, "core")
	jc.Sums[0][0] = 9
	ok(joint.Init(joint.NewEWMCorr(0.25)), "Init")
	for _, m := range []quantile.Interpolation{quantile.Lower, quantile.Midpoint} {
		q, err := quantile.New(5, quantile.InterpolationOption(m), quantile.ImplOption(quantile.SkipList, skiplist.MaxLevelOption(1), skiplist.ProbabilityOption(0.75)))
		ok(err, "constructor")
		ok(q.Push(3), "push")
		_, err = quantile.NewIQR(3, quantile.InterpolationOption(m), quantile.ImplOption(quantile.RedBlack))
		ok(err, "constructor")
	}
	_, _ = quantile.New(-1, quantile.ImplOption(99))
	b := mk()
	if a.str != nil {
		sym.Assert(a.str() == b.str(), "a name does not depend on other objects")
	}
	for k := 0; k < 3; k++ {
		xs := values(a.vars)
		ok(a.push(dup(xs)...), "push")
		ok(b.push(dup(xs)...), "push")
		x, err := a.read()
		y, err2 := b.read()
		sym.Assert((err == nil) == (err2 == nil) && len(x) == len(y), "an object answers alike whatever was made before it")
		for l := range x {
			sym.Assert(sym.Eq(x[l], y[l]), "an object answers alike whatever was made before it")
		}
	}
	sym.Reach("before")
}

// answer is a value, or that there is none.
func answer(v float64, err error) []float64 {
	if err != nil {
		return []float64{-1, 0}
	}
	return []float64{1, v}
}

// P25Options passes options in slices with room to spare.
// bound: Quantile, Median and IQR with 0..2 options in a slice of capacity 3; skip list options of capacity 2
func P25Options() {
	calls := 0
	mine := quantile.Option(func(*quantile.Quantile) error { calls++; return nil })
	opts := make([]quantile.Option, 3)
	opts[0] = quantile.InterpolationOption(quantile.Lower)
	opts[1], opts[2] = mine, mine
	n := sym.Choice(3)
	w := sym.Choice(2)
	var err error
	var m *thing
	lists := make([]order.Option, 2)
	lists[0] = skiplist.MaxLevelOption(2)
	lists[1] = func(order.Statistic) error { calls += 10; return nil }
	if sym.Bool() {
		opts[0] = quantile.ImplOption(quantile.SkipList, lists[:1]...)
	}
	switch sym.Choice(3) {
	case 0:
		var q *quantile.Quantile
		q, err = quantile.New(w, opts[:n]...)
		m = &thing{1, one(q.Push), single(func() (float64, error) { return q.Value(0.5) }), q.Clear, q.String}
	case 1:
		var q *quantile.Median
		q, err = quantile.NewMedian(w, opts[:n]...)
		m = simple(q)
	case 2:
		var q *quantile.IQR
		q, err = quantile.NewIQR(w, opts[:n]...)
		m = simple(q)
	}
	ok(err, "constructor")
	ok(m.push(2), "push")
	v, err := m.read()
	ok(err, "Value")
	calls = 0
	var q quantile.Quantile
	for _, o := range opts[1:] {
		_ = o(&q)
	}
	sym.Assert(calls == 2, "the caller's options are left alone")
	_ = lists[1](nil)
	sym.Assert(calls == 12, "the caller's options are left alone")
	opts[0] = mine
	lists[0] = lists[1]
	u, err := m.read()
	ok(err, "Value")
	sym.Assert(sym.Eq(u[0], v[0]), "a metric does not follow changes of its options")
	sym.Reach("options")
}

// P25Reservoir edits what a reservoir returns.
// bound: sizes 1..3, 1..size+2 pushes, every outcome of the random draws; the sample taken is overwritten and appended to
func P25Reservoir() {
	size := 1 + sym.Choice(3)
	r := &sample.Reservoir{Size: size}
	for i, n := 0, 1+sym.Choice(size+2); i < n; i++ {
		r.Push(i)
	}
	s := r.Sample()
	kept := append([]interface{}{}, s...)
	for i := range s {
		s[i] = -1
	}
	_ = append(s, -2)
	again := r.Sample()
	sym.Assert(len(again) == len(kept), "a reservoir does not follow changes of the sample it returned")
	for i := range kept {
		sym.Assert(again[i] == kept[i], "a reservoir does not follow changes of the sample it returned")
	}
	r.Push(100)
	for i := range again {
		sym.Assert(again[i] == kept[i], "a sample does not follow the reservoir")
	}
	sym.Reach("sample")
}

// P25OneOption uses one option for two metrics.
// bound: every structure, windows 0..2, 2 (quick) / 3 pushes to each in turn
func P25OneOption() {
	w := sym.Choice(3)
	o := impl(2)
	mk := func(o quantile.Option) *thing {
		m, err := quantile.NewMedian(w, o)
		ok(err, "constructor")
		return simple(m)
	}
	apart(mk(o), mk(o), mk(implOf(0, 2)), sz(2, 3))
}

// apart pushes to two objects in turn; the first must behave as alone does.
func apart(a, b, alone *thing, n int) {
	for j := 0; j < n; j++ {
		xs := values(a.vars)
		ok(a.push(dup(xs)...), "push")
		ok(alone.push(dup(xs)...), "push")
		ok(b.push(values(b.vars)...), "push")
		same(a, alone)
	}
	b.clear()
	same(a, alone)
	sym.Reach("apart")
}

// P25Apart uses two objects of one kind in turn.
// flags: ring=fifo sched=one qtimeout=500 share=60
// bound: every metric, core and aggregate, windows 0..2, window+1 pushes to each in turn (2 without a window), then Clear of the other
func P25Apart() {
	w := sym.Choice(3)
	i := sym.Choice(11 + 2 + len(jointMetrics) + 2 + 2 + 5 + 2 + 1)
	mk := func() *thing {
		k := i
		switch {
		case k < 11:
			return newMoment(k, w, 0.5)
		case k < 13:
			if k == 11 {
				return newMomentCore(w, nil)
			}
			return newMomentCore(0, fp(0.25))
		case k < 17:
			return newJoint(k-13, w, 0.5)
		case k < 19:
			return newLagged(k == 18, 1, w)
		case k < 21:
			if k == 19 {
				return newJointCore(w, nil)
			}
			return newJointCore(0, fp(0.25))
		case k < 26:
			return newOrdered(k-21, w, implOf(0, 2), 0.375)
		case k < 27:
			return newAggregate(w, 0.5)
		case k < 28:
			return newJointAggregate(w, 0.5)
		}
		return newOrdered(5, w, implOf(1, 2), 0.5)
	}
	n := w + 1
	if w == 0 {
		n = 2
	}
	apart(mk(), mk(), mk(), n)
}

// P25Members changes the slices and maps around aggregates and the configurations that initialised metrics return.
// flags: sched=one
// bound: both aggregates; every moment and joint metric, windows 0 and 2, 3 pushes
func P25Members() {
	w := 2 * sym.Choice(2)
	switch sym.Choice(4) {
	case 0:
		a, err := minmax.NewMin(w)
		ok(err, "constructor")
		b, err := minmax.NewMax(w)
		ok(err, "constructor")
		c, err := minmax.NewMax(w)
		ok(err, "constructor")
		ms := make([]stream.SimpleMetric, 2, 3)
		ms[0], ms[1] = a, b
		g := aggregate.NewSimpleAggregateMetric(ms...)
		ms[0] = c
		x := sym.Float()
		ok(g.Push(x), "push")
		vs, err := g.Values()
		ok(err, "Values")
		sym.Assert(len(vs) == 2, "an aggregate keeps its members")
		v, found := vs[a.String()]
		sym.Assert(found && sym.Eq(v, x), "an aggregate keeps its members")
		vs[a.String()] = 3
		delete(vs, b.String())
		vs, err = g.Values()
		ok(err, "Values")
		v, found = vs[a.String()]
		sym.Assert(len(vs) == 2 && found && sym.Eq(v, x), "an aggregate does not follow changes of the map it returned")
	case 1:
		a, b, c := joint.NewCov(w), joint.NewEWMCov(0.5), joint.NewEWMCov(0.25)
		ok(joint.Init(a), "Init")
		ok(joint.Init(b), "Init")
		ok(joint.Init(c), "Init")
		ms := make([]stream.SimpleJointMetric, 2, 3)
		ms[0], ms[1] = a, b
		g := aggregate.NewSimpleJointAggregateMetric(ms...)
		ms[1] = c
		ok(g.Push(1, 2), "push")
		ok(g.Push(2, 4), "push")
		vs, err := g.Values()
		ok(err, "Values")
		v, found := vs[b.String()]
		u, err := b.Value()
		ok(err, "Value")
		sym.Assert(len(vs) == 2 && found && sym.Eq(u, v), "an aggregate keeps its members")
	case 2:
		i := sym.Choice(len(momentMetrics))
		m, o := momentMetrics[i](w, 0.5), momentMetrics[i](w, 0.5)
		ok(moment.Init(m), "Init")
		ok(moment.Init(o), "Init")
		a, b := simple(m), simple(o)
		for j := 0; j < 3; j++ {
			cfg := m.Config()
			*cfg.Window = 5
			if cfg.Decay != nil {
				*cfg.Decay = 0.125
			}
			for k := range cfg.Sums {
				delete(cfg.Sums, k)
			}
			x := sym.Float()
			ok(a.push(x), "push")
			ok(b.push(x), "push")
			same(a, b)
		}
	case 3:
		i := sym.Choice(len(jointMetrics))
		m, o := jointMetrics[i](w, 0.5), jointMetrics[i](w, 0.5)
		ok(joint.Init(m), "Init")
		ok(joint.Init(o), "Init")
		a, b := simpleJoint(m), simpleJoint(o)
		for j := 0; j < 3; j++ {
			cfg := m.Config()
			*cfg.Window = 5
			if cfg.Decay != nil {
				*cfg.Decay = 0.125
			}
			for _, t := range cfg.Sums {
				for k := range t {
					t[k] = 7
				}
			}
			xs := values(2)
			ok(a.push(dup(xs)...), "push")
			ok(b.push(dup(xs)...), "push")
			same(a, b)
		}
	}
	sym.Reach("members")
}

// P26Binom computes binomial coefficients.
// bound: every 0 <= k <= n <= 60 after any one of 8 earlier calls, decided value by value
func P26Binom() {
	var row [61][61]int
	for n := range row {
		row[n][0] = 1
		for k := 1; k <= n; k++ {
			row[n][k] = row[n-1][k-1] + row[n-1][k]
		}
	}
	for _, before := range [][2]int{{0, 0}, {7, 3}, {8, 4}, {20, 10}, {21, 2}, {30, 15}, {60, 30}, {60, 59}}[sym.Choice(8):] {
		_ = mathutil.Binom(before[0], before[1])
		break
	}
	n := sym.Int(0, 60)
	k := sym.Int(0, 60)
	sym.Assume(k <= n)
	b := mathutil.Binom(sym.Concrete(n), sym.Concrete(k))
	sym.Assert(b == row[sym.Concrete(n)][sym.Concrete(k)], "Binom is the binomial coefficient")
	sym.Reach("binom")
}

// P26Sign computes signs.
// flags: mode=fp
// bound: every int
func P26Sign() {
	k := sym.AnyInt()
	s := mathutil.Sign(k)
	sym.Assert(sym.Or(sym.And(k&1 == 0, s == 1), sym.And(k&1 == 1, s == -1)), "Sign is (-1)^k")
	sym.Reach("sign")
}

// tuples are configurations with exponents below 31; tracked is their meaning.
func tracked(cfg joint.SumsConfig, m []int) bool {
	found := false
	for _, t := range cfg {
		if len(t) != len(m) {
			continue
		}
		leq := true
		for i := range t {
			leq = sym.And(leq, m[i] >= 0, m[i] <= t[i])
		}
		found = sym.Or(found, leq)
	}
	return found
}

// P27Request asks for any tuple.
// flags: ring=fifo
// bound: 11 configurations of 2 or 3 variables with exponents up to 30, some overlapping, some without sums; requests of 0..4 exponents, each any int, before and after a push
func P27Request() {
	cfgs := []joint.SumsConfig{
		{{1, 1}}, {{2, 0}}, {{0, 3}}, {{1, 1}, {2, 0}, {0, 2}}, {{3, 1}, {2, 2}}, {{1, 30}}, {{30, 0}}, {{0, 1, 0}}, {{1, 1, 1}, {2, 0, 0}}, {{0, 0, 30}}, {},
	}
	i := sym.Choice(len(cfgs))
	vars := 2
	if len(cfgs[i]) > 0 {
		vars = len(cfgs[i][0])
	}
	c, err := joint.NewCore(&joint.CoreConfig{Window: ip(0), Sums: cfgs[i], Vars: ip(vars)})
	ok(err, "core")
	m := make([]int, sym.Choice(5))
	for j := range m {
		m[j] = sym.AnyInt()
	}
	_, err = c.Sum(m...)
	bad(err, "a sum of nothing")
	ok(c.Push(make([]float64, vars)...), "push")
	_, err = c.Sum(m...)
	sym.Assert((err == nil) == (len(m) == vars && sym.Branch(tracked(cfgs[i], m))), "a sum request succeeds exactly when its tuple is tracked")
	_, err = c.UnsafeSum(m...)
	sym.Assert((err == nil) == (len(m) == vars && sym.Branch(tracked(cfgs[i], m))), "an unlocked request succeeds exactly when its tuple is tracked")
	sym.Reach("request")
}

// P27Distinct compares the sums of all tracked tuples with their definition: no two share a result.
// flags: ring=fifo maxsteps=100000000
// bound: tuples (30, 1), (1, 30), (2, 0, 30), (5, 4, 6), (2, 6, 6, 2), (3, 1, 4, 5) and (2, 1, 2, 1, 2) on two values whose sums all differ
func P27Distinct() {
	t := []joint.Tuple{{30, 1}, {1, 30}, {2, 0, 30}, {5, 4, 6}, {2, 6, 6, 2}, {3, 1, 4, 5}, {2, 1, 2, 1, 2}}[sym.Choice(7)]
	c, err := joint.NewCore(&joint.CoreConfig{Window: ip(0), Sums: joint.SumsConfig{t}})
	ok(err, "core")
	a, b := make([]float64, len(t)), []float64{1, 1.5, 1.25, 1.375, 1.625}[:len(t)]
	ok(c.Push(a...), "push")
	ok(c.Push(b...), "push")
	m := make([]int, len(t))
	for {
		got, err := c.Sum(m...)
		ok(err, "a tracked sum")
		lo, hi := 1., 1.
		for i := range m {
			for j := 0; j < m[i]; j++ {
				lo *= (a[i] - b[i]) / 2
				hi *= (b[i] - a[i]) / 2
			}
		}
		want := lo + hi
		zero := true
		for i := range m {
			zero = zero && m[i] == 0
		}
		if !zero { // the sum of no powers is not used
			sym.Assert(sym.Eq(got, want), "every tracked tuple has its own sum")
		}
		i := 0
		for i < len(m) && m[i] == t[i] {
			m[i] = 0
			i++
		}
		if i == len(m) {
			break
		}
		m[i]++
	}
	sym.Reach("distinct")
}

// P25Values keeps and edits the maps that aggregates return.
// flags: sched=one
// bound: both aggregates, windows 0 and 2, 1 to 3 pushes before each of two Values, Clear or not in between; an entry of the first map changed, one removed and one added, or left alone
func P25Values() {
	w := 2 * sym.Choice(2)
	mk := func() (push func() error, values func() (map[string]float64, error), clear func()) {
		a := moment.NewMean(w)
		ok(moment.Init(a), "Init")
		b, err := minmax.NewMax(w)
		ok(err, "constructor")
		g := aggregate.NewSimpleAggregateMetric(a, b)
		n := 0
		return func() error { n++; return g.Push(float64(n * n)) }, g.Values, g.Clear
	}
	if sym.Bool() {
		mk = func() (push func() error, values func() (map[string]float64, error), clear func()) {
			a, b := joint.NewCov(w), joint.NewEWMCov(0.5)
			ok(joint.Init(a), "Init")
			ok(joint.Init(b), "Init")
			g := aggregate.NewSimpleJointAggregateMetric(a, b)
			n := 0
			return func() error { n++; return g.Push(float64(n*n), float64(n)) }, g.Values, g.Clear
		}
	}
	push, vals, clear := mk()
	push2, vals2, clear2 := mk()
	more := func() {
		for i, n := 0, 1+sym.Choice(3); i < n; i++ {
			ok(push(), "push")
			ok(push2(), "push")
		}
	}
	more()
	more()
	v, err := vals()
	ok(err, "Values")
	edited := sym.Bool()
	kept := map[string]float64{}
	for k := range v {
		kept[k] = v[k]
	}
	if edited {
		for k := range kept {
			if len(v) == len(kept) {
				delete(v, k)
			} else {
				v[k] = -7
			}
		}
		v["another"] = 1
	}
	if sym.Bool() {
		clear()
		clear2()
		more()
		more()
	}
	more()
	got, err := vals()
	ok(err, "Values")
	want, err := vals2()
	ok(err, "Values")
	sym.Assert(len(got) == len(want), "an aggregate does not follow changes of the map it returned")
	for k := range want {
		x, found := got[k]
		sym.Assert(found && x == want[k], "an aggregate does not follow changes of the map it returned")
	}
	if !edited {
		sym.Assert(len(v) == len(kept), "a returned map does not follow the aggregate")
		for k := range kept {
			x, found := v[k]
			sym.Assert(found && x == kept[k], "a returned map does not follow the aggregate")
		}
	}
	sym.Reach("values")
}
