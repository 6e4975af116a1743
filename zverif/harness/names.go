package harness

import (
	"github.com/alexander-yu/stream/joint"
	"github.com/alexander-yu/stream/moment"
	"github.com/alexander-yu/stream/quantile"
	"github.com/alexander-yu/stream/zverif/sym"
)

// named is a metric with everything its values depend on.
type named struct {
	kind   int
	ints   []int
	floats []float64
	t      *thing
}

const namedKinds = 18

// makeNamed makes a metric of the i-th kind with any parameters.
func makeNamed(i int) *named {
	small := func() int { return sym.Choice(sz(3, 5)) }
	switch i {
	case 0:
		w := sym.AnyInt()
		return &named{i, []int{w}, nil, simple(moment.NewMean(w))}
	case 1:
		k, w := sym.AnyInt(), sym.AnyInt()
		return &named{i, []int{k, w}, nil, simple(moment.New(k, w))}
	case 2:
		w := sym.AnyInt()
		return &named{i, []int{w}, nil, simple(moment.NewStd(w))}
	case 3:
		w := sym.AnyInt()
		return &named{i, []int{w}, nil, simple(moment.NewSkewness(w))}
	case 4:
		w := sym.AnyInt()
		return &named{i, []int{w}, nil, simple(moment.NewKurtosis(w))}
	case 5:
		a := sym.Float()
		return &named{i, nil, []float64{a}, simple(moment.NewEWMA(a))}
	case 6:
		k, a := sym.AnyInt(), sym.Float()
		return &named{i, []int{k}, []float64{a}, simple(moment.NewEWMMoment(k, a))}
	case 7:
		a := sym.Float()
		return &named{i, nil, []float64{a}, simple(moment.NewEWMStd(a))}
	case 8:
		w := sym.AnyInt()
		return &named{i, []int{w}, nil, simpleJoint(joint.NewCov(w))}
	case 9:
		w := sym.AnyInt()
		return &named{i, []int{w}, nil, simpleJoint(joint.NewCorr(w))}
	case 10:
		a := sym.Float()
		return &named{i, nil, []float64{a}, simpleJoint(joint.NewEWMCov(a))}
	case 11:
		a := sym.Float()
		return &named{i, nil, []float64{a}, simpleJoint(joint.NewEWMCorr(a))}
	case 12:
		l, w := small(), sym.AnyInt()
		m, err := joint.NewAutocov(l, w)
		ok(err, "constructor")
		return &named{i, []int{l, w}, nil, simple(m)}
	case 13:
		l, w := small(), sym.AnyInt()
		m, err := joint.NewAutocorr(l, w)
		ok(err, "constructor")
		return &named{i, []int{l, w}, nil, simple(m)}
	case 14, 15, 16:
		w := small()
		return &named{i, []int{w}, nil, newOrdered(i-14, w, nil, 0)}
	}
	w := small()
	switch j := sym.Choice(3); j {
	case 0:
		m, err := quantile.NewMedian(w)
		ok(err, "constructor")
		return &named{i, []int{w}, nil, simple(m)}
	case 1:
		m, err := quantile.NewIQR(w)
		ok(err, "constructor")
		return &named{i + 1, []int{w}, nil, simple(m)}
	}
	mode := sym.Choice(5)
	q, err := quantile.New(w, quantile.InterpolationOption(quantile.Interpolation(mode)), impl(2))
	ok(err, "constructor")
	return &named{i + 2, []int{w, mode}, nil, &thing{1, one(q.Push), single(func() (float64, error) { return q.Value(0.5) }), q.Clear, q.String}}
}

// P28Distinct compares the names of any two metrics.
// bound: every pair of kinds; windows, powers any int and decays any finite number for the moment and joint metrics; lags and the windows of the others 0..2 (quick) / 0..4
func P28Distinct() {
	i := sym.Choice(namedKinds)
	j := i + sym.Choice(namedKinds-i)
	a, b := makeNamed(i), makeNamed(j)
	equal := a.kind == b.kind
	if equal {
		for k := range a.ints {
			equal = sym.And(equal, a.ints[k] == b.ints[k])
		}
		for k := range a.floats {
			equal = sym.And(equal, a.floats[k] == b.floats[k])
		}
	}
	s, t := a.t.str(), b.t.str()
	if s == t {
		sym.Assert(equal, "metrics of one name have one kind and the same parameters")
		sym.Reach("same")
	} else {
		sym.Assert(sym.Not(equal), "metrics of one kind and the same parameters have one name")
		sym.Reach("different")
	}
}

// P28Large compares the names of metrics with large windows and lags.
// flags: ring=fifo
// bound: kinds whose constructor allocates, lag and window 1, 11, 111, 1000, 1001 and 65536 (quick) / also 1111, 65537 and 100001
func P28Large() {
	big := []int{1, 11, 111, 1000, 1001, 65536, 1111, 65537, 100001}
	at := func() int { return big[sym.Choice(sz(6, 9))] }
	kind := sym.Choice(8)
	mk := func() ([]int, *thing) {
		if kind < 2 {
			l, w := at(), at()
			return []int{l, w}, newLagged(kind == 1, l, w)
		}
		w := at()
		return []int{w}, newOrdered(kind-2, w, implOf(0, 2), 0.5)
	}
	p, a := mk()
	q, b := mk()
	equal := true
	for i := range p {
		equal = equal && p[i] == q[i]
	}
	sym.Assert((a.str() == b.str()) == equal, "metrics of one kind have one name exactly when they have the same parameters")
	sym.Reach("large")
}

// P28Stable compares the name of a metric before and after it has seen data.
// flags: qtimeout=500
// bound: every initialised metric, windows 0..2, lags 0 and 1, 2 pushes, Value and Clear
func P28Stable() {
	w := sym.Choice(3)
	var m *thing
	switch i := sym.Choice(11 + 4 + 2 + orderedKinds); {
	case i < 11:
		m = newMoment(i, w, 0.5)
	case i < 15:
		m = newJoint(i-11, w, 0.5)
	case i < 17:
		m = newLagged(i == 16, sym.Choice(2), w)
	default:
		m = newOrdered(i-17, w, implOf(0, 2), 0.5)
	}
	name := m.str()
	for j := 0; j < 2; j++ {
		ok(m.push(values(m.vars)...), "push")
		_, _ = m.read()
		sym.Assert(m.str() == name, "a name does not depend on the data")
	}
	m.clear()
	sym.Assert(m.str() == name, "a name survives Clear")
	sym.Reach("stable")
}
