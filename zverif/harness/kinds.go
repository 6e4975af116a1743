package harness

import (
	"github.com/alexander-yu/stream"
	"github.com/alexander-yu/stream/aggregate"
	"github.com/alexander-yu/stream/joint"
	"github.com/alexander-yu/stream/minmax"
	"github.com/alexander-yu/stream/moment"
	"github.com/alexander-yu/stream/quantile"
	"github.com/alexander-yu/stream/quantile/order"
	"github.com/alexander-yu/stream/quantile/ost/avl"
	"github.com/alexander-yu/stream/quantile/ost/rb"
	"github.com/alexander-yu/stream/quantile/skiplist"
	"github.com/alexander-yu/stream/zverif/sym"
)

// thing is any object of the library that takes values and reports some.
type thing struct {
	vars  int // values per push
	push  func(xs ...float64) error
	read  func() ([]float64, error) // everything it reports
	clear func()
	str   func() string
}

func one(f func(float64) error) func(xs ...float64) error {
	return func(xs ...float64) error { return f(xs[0]) }
}

func single(f func() (float64, error)) func() ([]float64, error) {
	return func() ([]float64, error) {
		v, err := f()
		if err != nil {
			return nil, err
		}
		return []float64{v}, nil
	}
}

func simple(m stream.SimpleMetric) *thing {
	return &thing{1, one(m.Push), single(m.Value), m.Clear, m.String}
}

func simpleJoint(m stream.SimpleJointMetric) *thing {
	return &thing{2, m.Push, single(m.Value), m.Clear, m.String}
}

// momentMetrics are the univariate moment metrics.
var momentMetrics = []func(w int, a float64) moment.Metric{
	func(w int, a float64) moment.Metric { return moment.NewMean(w) },
	func(w int, a float64) moment.Metric { return moment.New(1, w) },
	func(w int, a float64) moment.Metric { return moment.New(2, w) },
	func(w int, a float64) moment.Metric { return moment.New(3, w) },
	func(w int, a float64) moment.Metric { return moment.NewStd(w) },
	func(w int, a float64) moment.Metric { return moment.NewSkewness(w) },
	func(w int, a float64) moment.Metric { return moment.NewKurtosis(w) },
	func(w int, a float64) moment.Metric { return moment.NewEWMA(a) },
	func(w int, a float64) moment.Metric { return moment.NewEWMMoment(2, a) },
	func(w int, a float64) moment.Metric { return moment.NewEWMMoment(3, a) },
	func(w int, a float64) moment.Metric { return moment.NewEWMStd(a) },
}

func newMoment(i, w int, a float64) *thing {
	m := momentMetrics[i](w, a)
	ok(moment.Init(m), "Init")
	return simple(m)
}

// jointMetrics are the two-variable joint metrics.
var jointMetrics = []func(w int, a float64) joint.Metric{
	func(w int, a float64) joint.Metric { return joint.NewCov(w) },
	func(w int, a float64) joint.Metric { return joint.NewCorr(w) },
	func(w int, a float64) joint.Metric { return joint.NewEWMCov(a) },
	func(w int, a float64) joint.Metric { return joint.NewEWMCorr(a) },
}

func newJoint(i, w int, a float64) *thing {
	m := jointMetrics[i](w, a)
	ok(joint.Init(m), "Init")
	return simpleJoint(m)
}

// lagged are the autocovariance and autocorrelation.
func newLagged(corr bool, lag, w int) *thing {
	if corr {
		m, err := joint.NewAutocorr(lag, w)
		ok(err, "constructor")
		ok(joint.Init(m), "Init")
		return simple(m)
	}
	m, err := joint.NewAutocov(lag, w)
	ok(err, "constructor")
	ok(joint.Init(m), "Init")
	return simple(m)
}

func newMomentCore(w int, a *float64) *thing {
	c, err := moment.NewCore(&moment.CoreConfig{Window: ip(w), Decay: a, Sums: moment.SumsConfig{3: true}})
	ok(err, "core")
	return &thing{1, one(c.Push), func() ([]float64, error) {
		m, err := c.Mean()
		if err != nil {
			sym.Assert(c.Count() == 0, "only an empty core has no mean")
			_, err2 := c.Sum(2)
			bad(err2, "sum of nothing")
			return nil, err
		}
		r := []float64{float64(c.Count()), m}
		for k := 1; k <= 3; k++ {
			s, err := c.Sum(k)
			ok(err, "sum")
			r = append(r, s)
		}
		return r, nil
	}, c.Clear, nil}
}

func newJointCore(w int, a *float64) *thing {
	c, err := joint.NewCore(&joint.CoreConfig{Window: ip(w), Decay: a, Sums: joint.SumsConfig{{1, 1}, {2, 0}}})
	ok(err, "core")
	return &thing{2, c.Push, func() ([]float64, error) {
		m, err := c.Mean(0)
		n, err2 := c.Mean(1)
		if err != nil {
			bad(err2, "mean of nothing")
			sym.Assert(c.Count() == 0, "only an empty core has no mean")
			_, err2 := c.Sum(1, 1)
			bad(err2, "sum of nothing")
			return nil, err
		}
		ok(err2, "mean")
		r := []float64{float64(c.Count()), m, n}
		for _, t := range [][]int{{1, 0}, {0, 1}, {1, 1}, {2, 0}} {
			s, err := c.Sum(t...)
			ok(err, "sum")
			r = append(r, s)
		}
		return r, nil
	}, c.Clear, nil}
}

// newOrdered are the metrics built on comparisons; im selects the backing structure.
func newOrdered(i, w int, im quantile.Option, q float64) *thing {
	switch i {
	case 0:
		m, err := minmax.NewMin(w)
		ok(err, "constructor")
		return simple(m)
	case 1:
		m, err := minmax.NewMax(w)
		ok(err, "constructor")
		return simple(m)
	case 2:
		m, err := quantile.NewHeapMedian(w)
		ok(err, "constructor")
		return simple(m)
	case 3:
		m, err := quantile.NewMedian(w, im)
		ok(err, "constructor")
		return simple(m)
	case 4:
		m, err := quantile.NewIQR(w, im)
		ok(err, "constructor")
		return simple(m)
	}
	m, err := quantile.New(w, im)
	ok(err, "constructor")
	return &thing{1, one(m.Push), single(func() (float64, error) { return m.Value(q) }), m.Clear, m.String}
}

const orderedKinds = 6

// newStat are the bare order statistics.
func newStat(i int) order.Statistic {
	switch i {
	case 0:
		return &avl.Tree{}
	case 1:
		return &rb.Tree{}
	}
	return newSkip(skiplist.MaxLevelOption(2), skiplist.ProbabilityOption(0.5))
}

func statThing(s order.Statistic) *thing {
	return &thing{1, func(xs ...float64) error { s.Add(xs[0]); return nil }, func() ([]float64, error) {
		var r []float64
		for k := 0; k < s.Size(); k++ {
			r = append(r, s.Select(k).Value())
		}
		return r, nil
	}, s.Clear, nil}
}

func readMap(vs map[string]float64, err error, names ...string) ([]float64, error) {
	if err != nil {
		return nil, err
	}
	r := []float64{float64(len(vs))}
	for _, n := range names {
		v, found := vs[n]
		sym.Assert(found, "an aggregate reports each of its metrics")
		r = append(r, v)
	}
	return r, nil
}

func newAggregate(w int, a float64) *thing {
	m := moment.NewMean(w)
	s := moment.NewEWMA(a)
	x, err := minmax.NewMax(w)
	ok(err, "constructor")
	ok(moment.Init(m), "Init")
	ok(moment.Init(s), "Init")
	g := aggregate.NewSimpleAggregateMetric(m, s, x)
	return &thing{1, one(g.Push), func() ([]float64, error) {
		vs, err := g.Values()
		return readMap(vs, err, m.String(), s.String(), x.String())
	}, g.Clear, nil}
}

func newJointAggregate(w int, a float64) *thing {
	m := joint.NewCov(w)
	s := joint.NewEWMCov(a)
	ok(joint.Init(m), "Init")
	ok(joint.Init(s), "Init")
	g := aggregate.NewSimpleJointAggregateMetric(m, s)
	return &thing{2, g.Push, func() ([]float64, error) {
		vs, err := g.Values()
		return readMap(vs, err, m.String(), s.String())
	}, g.Clear, nil}
}
