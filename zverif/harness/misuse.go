package harness

import (
	"github.com/alexander-yu/stream/joint"
	"github.com/alexander-yu/stream/moment"
	"github.com/alexander-yu/stream/zverif/sym"
)

// P20NoCore uses every metric before Init.
// bound: every kind, windows 0 and 2, lags 0 and 1; pushes of 0..3 values where the signature allows
func P20NoCore() {
	w := 2 * sym.Choice(2)
	switch sym.Choice(3) {
	case 0:
		m := momentMetrics[sym.Choice(len(momentMetrics))](w, 0.5)
		_, err := m.Value()
		bad(err, "Value without a core")
		bad(m.Push(sym.Float()), "Push without a core")
		m.Clear()
		_, err = m.Value()
		bad(err, "Value without a core")
		ok(moment.Init(m), "Init")
		_, err = m.Value()
		bad(err, "Value of nothing")
		x := sym.Float()
		ok(m.Push(x), "push")
		_, err = m.Value()
		ok(err, "Value")
	case 1:
		m := jointMetrics[sym.Choice(len(jointMetrics))](w, 0.5)
		_, err := m.Value()
		bad(err, "Value without a core")
		xs := values(sym.Choice(4))
		bad(m.Push(xs...), "Push without a core")
		m.Clear()
		ok(joint.Init(m), "Init")
		_, err = m.Value()
		bad(err, "Value of nothing")
		if len(xs) == 2 {
			ok(m.Push(xs...), "push")
			_, err = m.Value()
			ok(err, "Value")
		} else {
			bad(m.Push(xs...), "wrong number of values")
			_, err = m.Value()
			bad(err, "Value of nothing")
		}
	case 2:
		lag := sym.Choice(2)
		c, err := joint.NewAutocov(lag, w)
		ok(err, "constructor")
		r, err := joint.NewAutocorr(lag, w)
		ok(err, "constructor")
		_, err = c.Value()
		bad(err, "Value without a core")
		_, err = r.Value()
		bad(err, "Value without a core")
		bad(c.Push(sym.Float()), "Push without a core")
		bad(r.Push(sym.Float()), "Push without a core")
		c.Clear()
		r.Clear()
		ok(joint.Init(c), "Init")
		ok(joint.Init(r), "Init")
		for i := 0; i <= lag; i++ {
			_, err = c.Value()
			bad(err, "Value before the lag has passed")
			_, err = r.Value()
			bad(err, "Value before the lag has passed")
			x := sym.Float()
			ok(c.Push(x), "push")
			ok(r.Push(x), "push")
		}
		_, err = c.Value()
		ok(err, "Value")
		_, err = r.Value()
		ok(err, "Value")
	}
	sym.Reach("no core")
}

// P20Moment misuses a univariate core at any point of a history.
// flags: ring=fifo
// bound: windows 0..2 or a decay, tracked powers up to 3, window+2 pushes; a request for any int power and every read before each push
func P20Moment() {
	w := sym.Choice(4)
	var a *float64
	if w == 3 {
		w, a = 0, fp(decay())
	}
	top := sym.Choice(4)
	cfg := &moment.CoreConfig{Window: ip(w), Decay: a}
	if top > 0 {
		cfg.Sums = moment.SumsConfig{top: true}
	}
	c, err := moment.NewCore(cfg)
	ok(err, "core")
	o, err := moment.NewCore(&moment.CoreConfig{Window: ip(w), Decay: a, Sums: cfg.Sums})
	ok(err, "core")
	n := 0
	for i := 0; i < w+2; i++ {
		_, err := c.Mean()
		sym.Assert((err == nil) == (n > 0), "a mean exists once a value was pushed")
		k := sym.AnyInt()
		if sym.Or(k <= 0, k > 3) {
			_, err = c.Sum(k)
			bad(err, "an untracked sum")
		} else {
			_, err = c.Sum(k)
			sym.Assert((err == nil) == (n > 0 && k <= top), "a sum exists when it is tracked and a value was pushed")
		}
		x := sym.Float()
		ok(c.Push(x), "push")
		ok(o.Push(x), "push")
		n++
		u, err := c.Mean()
		v, err2 := o.Mean()
		ok(err, "mean")
		ok(err2, "mean")
		sym.Assert(sym.Eq(u, v) && c.Count() == o.Count(), "failed calls change nothing")
		for k := 1; k <= top; k++ {
			u, err := c.Sum(k)
			v, err2 := o.Sum(k)
			ok(err, "sum")
			ok(err2, "sum")
			sym.Assert(sym.Eq(u, v), "failed calls change nothing")
		}
		sym.Reach("misused")
	}
}

// P20Joint misuses a joint core at any point of a history.
// flags: ring=fifo
// bound: 2 variables, windows 0..2 or a decay, window+2 pushes (quick) / window+3; before each a push of 0, 1, 3 or 4 values, a mean of any int variable, a sum of 0, 1 or 3 exponents or of 2 of any size
func P20Joint() {
	w := sym.Choice(4)
	var a *float64
	if w == 3 {
		w, a = 0, fp(decay())
	}
	mk := func() *joint.Core {
		c, err := joint.NewCore(&joint.CoreConfig{Window: ip(w), Decay: a, Sums: joint.SumsConfig{{1, 1}, {0, 2}}})
		ok(err, "core")
		return c
	}
	c, o := mk(), mk()
	n := 0
	same := func() {
		sym.Assert(c.Count() == o.Count(), "failed calls change nothing")
		for v := 0; v < 2; v++ {
			p, err := c.Mean(v)
			q, err2 := o.Mean(v)
			sym.Assert((err == nil) == (err2 == nil), "failed calls change nothing")
			sym.Assert(sym.Eq(p, q), "failed calls change nothing")
		}
		for _, t := range []joint.Tuple{{1, 1}, {0, 2}, {1, 0}} {
			p, err := c.Sum(t...)
			q, err2 := o.Sum(t...)
			sym.Assert((err == nil) == (err2 == nil), "failed calls change nothing")
			sym.Assert(sym.Eq(p, q), "failed calls change nothing")
		}
	}
	at := sym.Choice(w + sz(2, 3))
	for i := 0; i < w+sz(2, 3); i++ {
		if i == at {
			switch sym.Choice(5) {
			case 0:
				l := []int{0, 1, 3, 4}[sym.Choice(4)]
				bad(c.Push(values(l)...), "wrong number of values")
			case 1:
				v := sym.AnyInt()
				_, err := c.Mean(v)
				sym.Assert((err == nil) == (n > 0 && v >= 0 && v < 2), "a mean exists for a tracked variable once a value was pushed")
			case 2:
				l := []int{0, 1, 3}[sym.Choice(3)]
				_, err := c.Sum(make([]int, l)...)
				bad(err, "wrong number of exponents")
			case 3:
				e, f := sym.AnyInt(), sym.AnyInt()
				sym.Assume(sym.Or(sym.Or(e < 0, f < 0), sym.Or(e > 1, f > 2, sym.And(e == 1, f == 2))))
				_, err := c.Sum(e, f)
				bad(err, "an untracked tuple")
			case 4:
				_, err := c.Sum(1, 1)
				sym.Assert((err == nil) == (n > 0), "a sum exists once a value was pushed")
			}
			same()
			sym.Reach("misused")
		}
		x, y := sym.Float(), sym.Float()
		ok(c.Push(x, y), "push")
		ok(o.Push(x, y), "push")
		n++
		_, err := c.Sum(1, 1)
		ok(err, "sum")
		same()
	}
}

// P20JointMetric pushes the wrong number of values to the joint metrics.
// flags: qtimeout=500
// bound: every kind, windows 0..2, window+2 pushes, one wrong push of 0, 1, 3 or 4 values before any of them
func P20JointMetric() {
	w := sym.Choice(3)
	i := sym.Choice(len(jointMetrics))
	m, o := newJoint(i, w, 0.5), newJoint(i, w, 0.5)
	at := sym.Choice(w + 2)
	for j := 0; j < w+2; j++ {
		if j == at {
			bad(m.push(values([]int{0, 1, 3, 4}[sym.Choice(4)])...), "wrong number of values")
			if j == 0 {
				_, err := m.read()
				bad(err, "Value of nothing")
			} else if j < 3 {
				same(m, o)
			}
			sym.Reach("wrong")
		}
		xs := values(2)
		ok(m.push(xs...), "push")
		ok(o.push(append([]float64{}, xs...)...), "push")
		if j < 4 {
			same(m, o)
		}
	}
}

// P20Shared gives a metric a core that does not track its sums.
// bound: every pair of a univariate metric and a core with powers up to 0..4, and every joint metric with a core of 2 or 3 variables tracking one tuple, 2 pushes
func P20Shared() {
	if sym.Bool() {
		i := sym.Choice(7)
		need := []int{0, 1, 2, 3, 2, 3, 4}[i]
		m := momentMetrics[i](0, 0)
		top := sym.Choice(5)
		cfg := &moment.CoreConfig{Window: ip(0)}
		if top > 0 {
			cfg.Sums = moment.SumsConfig{top: true}
		}
		c, err := moment.NewCore(cfg)
		ok(err, "core")
		m.SetCore(c)
		for j := 0; j < 2; j++ {
			ok(m.Push(sym.Float()), "push")
		}
		_, err = m.Value()
		if i == 1 && top == 0 {
			return // the first moment is 0 whatever the core tracks
		}
		sym.Assert((err == nil) == (need <= top), "a value exists when the core tracks its sums")
		sym.Reach("univariate")
		return
	}
	m := jointMetrics[sym.Choice(len(jointMetrics))](0, 0)
	t := []joint.Tuple{{1, 0}, {0, 2}, {1, 1}, {1, 1, 1}, {2, 2}}[sym.Choice(5)]
	c, err := joint.NewCore(&joint.CoreConfig{Window: ip(0), Sums: joint.SumsConfig{t}})
	ok(err, "core")
	m.SetCore(c)
	for j := 0; j < 2; j++ {
		err := m.Push(sym.Float(), sym.Float())
		sym.Assert((err == nil) == (len(t) == 2), "two values fit a core of two variables")
	}
	_, err = m.Value()
	_, corr := m.(*joint.Corr)
	_, ecorr := m.(*joint.EWMCorr)
	switch {
	case len(t) == 3 || t[0] == 0 || t[1] == 0:
		bad(err, "a value whose sums are not tracked")
	case corr || ecorr:
		sym.Assert((err == nil) == (t[0] == 2), "a correlation needs both variances")
	default:
		ok(err, "covariance")
	}
	sym.Reach("joint")
}

// P20Empty reads every comparison metric and aggregate while empty.
// flags: sched=one
// bound: every kind and structure, windows 0..2, before the first push and after a Clear following 0..2 pushes
func P20Empty() {
	w := sym.Choice(3)
	i := sym.Choice(orderedKinds + 2)
	var m *thing
	switch i {
	case 0, 1, 2:
		m = newOrdered(i, w, nil, 0)
	case orderedKinds:
		m = newAggregate(w, 0.5)
	case orderedKinds + 1:
		m = newJointAggregate(w, 0.5)
	default:
		m = newOrdered(i, w, impl(2), 0.5)
	}
	_, err := m.read()
	bad(err, "Value of nothing")
	n := sym.Choice(3)
	for j := 0; j < n; j++ {
		ok(m.push(values(m.vars)...), "push")
		_, err := m.read()
		ok(err, "Value")
	}
	m.clear()
	_, err = m.read()
	bad(err, "Value of nothing")
	ok(m.push(values(m.vars)...), "push")
	_, err = m.read()
	ok(err, "Value")
	sym.Reach("empty")
}
