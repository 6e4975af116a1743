package harness

import (
	"github.com/alexander-yu/stream/quantile"
	"github.com/alexander-yu/stream/zverif/sym"
)

// same compares everything two objects report.
func same(a, b *thing) {
	x, err := a.read()
	y, err2 := b.read()
	sym.Assert((err == nil) == (err2 == nil), "a cleared object fails exactly when a new one does")
	sym.Assert(len(x) == len(y), "a cleared object reports as much as a new one")
	for i := range x {
		sym.Assert(sym.Eq(x[i], y[i]), "a cleared object reports what a new one reports")
		sym.ObserveFloat("value", x[i])
	}
}

func values(n int) []float64 {
	r := make([]float64, n)
	for i := range r {
		r[i] = sym.Float()
	}
	return r
}

// pick is none, one or all.
func pick(n int) int {
	if n <= 1 {
		return sym.Choice(n + 1)
	}
	return []int{0, 1, n}[sym.Choice(3)]
}

// twin drives a used and cleared object and a new one alike.
func twin(used, fresh *thing, clears, before, after int) {
	rounds := 1 + sym.Choice(clears)
	for r := 0; r < rounds; r++ {
		n := pick(before)
		for i := 0; i < n; i++ {
			ok(used.push(values(used.vars)...), "push")
		}
		used.clear()
		before = 1
	}
	if sym.Bool() {
		fresh.clear()
	}
	same(used, fresh)
	for i := 0; i < after; i++ {
		xs := values(used.vars)
		ok(used.push(append([]float64{}, xs...)...), "push after Clear")
		ok(fresh.push(append([]float64{}, xs...)...), "push")
		same(used, fresh)
	}
	sym.Reach("twin")
}

// P16Moment clears the univariate moment metrics and core.
// bound: every kind, windows 0..3 (quick) / 0..4, 0, 1 or window+2 pushes, Clear, optionally another push or none and Clear, then window+3 pushes
func P16Moment() {
	w := sym.Choice(sz(4, 5))
	i := sym.Choice(len(momentMetrics) + 2)
	mk := func() *thing {
		switch i {
		case len(momentMetrics):
			return newMomentCore(w, nil)
		case len(momentMetrics) + 1:
			return newMomentCore(0, fp(0.25))
		}
		return newMoment(i, w, 0.5)
	}
	twin(mk(), mk(), 2, w+2, w+3)
}

// P16Joint clears the joint metrics and core and the lagged ones.
// flags: qtimeout=500
// bound: every kind, windows 0..2 (quick) / 0..3, lags 0..2 (quick) / 0..3, 0, 1 or window+lag+2 pushes, Clear, optionally another push or none and Clear, then window+lag+3 pushes
func P16Joint() {
	w := sym.Choice(sz(3, 4))
	i := sym.Choice(len(jointMetrics) + 4)
	lag := 0
	if i < 2 {
		lag = sym.Choice(sz(3, 4))
	}
	mk := func() *thing {
		switch i {
		case 0, 1:
			return newLagged(i == 1, lag, w)
		case 2:
			return newJointCore(w, nil)
		case 3:
			return newJointCore(0, fp(0.25))
		}
		return newJoint(i-4, w, 0.5)
	}
	twin(mk(), mk(), 2, w+lag+2, w+lag+3)
}

// P16Ordered clears the metrics built on comparisons.
// flags: share=75
// bound: every kind and structure, windows 0..2 (quick) / 0..3, 0..2 pushes, Clear, optionally (thorough) another push or none and Clear, then window+1 pushes (2 without a window); skip list with maximum level 2
func P16Ordered() {
	w := sym.Choice(sz(3, 4))
	i := sym.Choice(orderedKinds)
	var im quantile.Option
	if i >= 3 {
		im = impl(2)
	}
	n := w + 1
	if w == 0 {
		n = 2
	}
	twin(newOrdered(i, w, im, 0.375), newOrdered(i, w, im, 0.375), sz(1, 2), 2, n)
}

// P16Stat clears the bare order statistics.
// bound: every structure, 0, 1 or 2 (quick) / 3 additions, Clear, optionally (thorough) another addition or none and Clear, then 3 additions
func P16Stat() {
	i := sym.Choice(3)
	twin(statThing(newStat(i)), statThing(newStat(i)), sz(1, 2), sz(2, 3), 3)
}

// P16Aggregate clears the aggregates.
// flags: sched=one
// bound: windows 0..2, 2 pushes, Clear, optionally another push or none and Clear, then 2 pushes
func P16Aggregate() {
	w := sym.Choice(3)
	if sym.Bool() {
		twin(newJointAggregate(w, 0.5), newJointAggregate(w, 0.5), 2, 2, 2)
	} else {
		twin(newAggregate(w, 0.5), newAggregate(w, 0.5), 2, 2, 2)
	}
}
