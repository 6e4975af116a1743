package harness

import (
	"errors"
	"strconv"
	"strings"

	"github.com/alexander-yu/stream"
	"github.com/alexander-yu/stream/aggregate"
	"github.com/alexander-yu/stream/joint"
	"github.com/alexander-yu/stream/minmax"
	"github.com/alexander-yu/stream/moment"
	"github.com/alexander-yu/stream/quantile"
	"github.com/alexander-yu/stream/zverif/sym"
)

// spy is a metric that records its calls and fails on request.
type spy struct {
	name   string
	pushes [][]float64
	clears int
	value  float64
	pfail  bool
	vfail  bool
}

func (p *spy) String() string { return p.name }
func (p *spy) Clear()         { p.clears++ }
func (p *spy) Value() (float64, error) {
	if p.vfail {
		return 7, errors.New("value of " + p.name + " failed")
	}
	return p.value, nil
}

func (p *spy) push(xs ...float64) error {
	p.pushes = append(p.pushes, dup(xs))
	if p.pfail {
		return errors.New("push to " + p.name + " failed")
	}
	return nil
}

type uniSpy struct{ *spy }

func (p uniSpy) Push(x float64) error { return p.push(x) }

type jointSpy struct{ *spy }

func (p jointSpy) Push(xs ...float64) error { return p.push(xs...) }

// aggregateOf wraps the probes, univariate or joint.
func aggregateOf(isJoint bool, ps []*spy) (func(xs ...float64) error, func() (map[string]float64, error), func()) {
	if isJoint {
		var ms []stream.SimpleJointMetric
		for _, p := range ps {
			ms = append(ms, jointSpy{p})
		}
		g := aggregate.NewSimpleJointAggregateMetric(ms...)
		return g.Push, g.Values, g.Clear
	}
	var ms []stream.SimpleMetric
	for _, p := range ps {
		ms = append(ms, uniSpy{p})
	}
	g := aggregate.NewSimpleAggregateMetric(ms...)
	return one(g.Push), g.Values, g.Clear
}

// P23Probes records what an aggregate does to its members.
// flags: ring=fifo delay=2 tdelay=3 races=off mapperm=0
// bound: 0..3 members (quick) / 0..4, univariate and joint, any of them failing to push or to report, names distinct or shared by the first two; one push before and one after a failing one, Values and Clear; at most 2 (quick) / 3 departures from running the oldest enabled goroutine
func P23Probes() {
	isJoint := sym.Bool()
	n := sym.Choice(sz(4, 5))
	shared := n >= 2 && sym.Bool()
	var ps []*spy
	for i := 0; i < n; i++ {
		p := &spy{name: []string{"a", "b", "c", "d"}[i], value: sym.Float()}
		if shared && i == 1 {
			p.name = "a"
		}
		ps = append(ps, p)
	}
	push, values, clear := aggregateOf(isJoint, ps)
	vars := 1
	if isJoint {
		vars = 2
	}
	check := func(k int, xs []float64) {
		for _, p := range ps {
			sym.Assert(len(p.pushes) == k, "every member receives each value exactly once")
			last := p.pushes[k-1]
			sym.Assert(len(last) == len(xs), "every member receives all variables")
			for v := range xs {
				sym.Assert(sym.Eq(last[v], xs[v]), "every member receives the value pushed")
			}
		}
	}
	xs := make([]float64, vars)
	for v := range xs {
		xs[v] = sym.Float()
	}
	fails := sym.Choice(2)
	if fails == 0 {
		ok(push(dup(xs)...), "push")
		check(1, xs)
		vs, err := values()
		ok(err, "Values")
		names := map[string]bool{}
		for _, p := range ps {
			names[p.name] = true
			got, found := vs[p.name]
			sym.Assert(found, "Values has an entry for every metric")
			if shared && p.name == "a" {
				sym.Assert(sym.Or(sym.Eq(got, ps[0].value), sym.Eq(got, ps[1].value)), "an entry is the value of a metric of that name")
			} else {
				sym.Assert(sym.Eq(got, p.value), "an entry is the metric's own value")
			}
		}
		sym.Assert(len(vs) == len(names), "Values has no other entries")
		clear()
		for _, p := range ps {
			sym.Assert(p.clears == 1, "Clear clears every member once")
			sym.Assert(len(p.pushes) == 1, "Values and Clear push nothing")
		}
		sym.Reach("probed")
		return
	}
	failing := 0
	for _, p := range ps {
		if sym.Bool() {
			p.pfail = true
			failing++
		}
	}
	xs = []float64{1.5, 2}[:vars]
	err := push(xs...)
	check(1, xs)
	sym.Assert((err != nil) == (failing > 0), "Push fails exactly when a member fails")
	for _, p := range ps {
		if p.pfail {
			sym.Assert(strings.Count(err.Error(), "push to "+p.name+" failed") >= 1, "the error of Push reports every failing member")
		} else if err != nil && !shared {
			sym.Assert(!strings.Contains(err.Error(), "push to "+p.name+" failed"), "the error of Push reports only failing members")
		}
	}
	if shared && failing >= 2 && ps[0].pfail && ps[1].pfail {
		sym.Assert(strings.Count(err.Error(), "push to a failed") == 2, "the error of Push reports every failing member")
	}
	for _, p := range ps {
		p.vfail, p.pfail = p.pfail, false
	}
	vs, err := values()
	sym.Assert((err != nil) == (failing > 0), "Values fails exactly when a member fails")
	for _, p := range ps {
		if p.vfail {
			sym.Assert(strings.Contains(err.Error(), "value of "+p.name+" failed"), "the error of Values reports every failing member")
		}
	}
	if err != nil {
		sym.Assert(len(vs) == 0, "no values with an error")
	}
	ok(push(xs...), "push after a failure")
	check(2, xs)
	sym.Reach("failing")
}

// P23Many gives an aggregate a lot of members.
// flags: ring=fifo sched=one mapperm=0
// bound: 5 to 65 members, univariate and joint, one or none of them failing to push or to report; two pushes, Values, Clear; one schedule
func P23Many() {
	isJoint := sym.Bool()
	n := []int{5, 7, 8, 9, 10, 16, 17, 32, 33, 65}[sym.Choice(10)]
	var ps []*spy
	for i := 0; i < n; i++ {
		ps = append(ps, &spy{name: "m" + strconv.Itoa(i), value: float64(i) / 2})
	}
	who := []int{-1, 0, n / 2, n - 1}[sym.Choice(4)]
	if who >= 0 {
		if sym.Bool() {
			ps[who].pfail = true
		} else {
			ps[who].vfail = true
		}
	}
	push, values, clear := aggregateOf(isJoint, ps)
	vars := 1
	if isJoint {
		vars = 2
	}
	for k := 1; k <= 2; k++ {
		xs := make([]float64, vars)
		for v := range xs {
			xs[v] = 1.5
			if who < 0 {
				xs[v] = sym.Float()
			}
		}
		err := push(dup(xs)...)
		if who >= 0 && ps[who].pfail {
			bad(err, "push with a failing member")
			sym.Assert(strings.Contains(err.Error(), "push to "+ps[who].name+" failed"), "the error reports the failing member")
		} else {
			ok(err, "push")
		}
		for _, p := range ps {
			sym.Assert(len(p.pushes) == k, "every member receives each value exactly once")
			last := p.pushes[k-1]
			sym.Assert(len(last) == vars, "every member receives all variables")
			for v := range xs {
				sym.Assert(sym.Eq(last[v], xs[v]), "every member receives the value pushed")
			}
		}
	}
	vs, err := values()
	if who >= 0 && ps[who].vfail {
		bad(err, "Values with a failing member")
		sym.Assert(strings.Contains(err.Error(), "value of "+ps[who].name+" failed"), "the error reports the failing member")
	} else {
		ok(err, "Values")
		sym.Assert(len(vs) == n, "Values has an entry per name")
		for _, p := range ps {
			v, found := vs[p.name]
			sym.Assert(found && v == p.value, "an entry is the metric's own value")
		}
	}
	clear()
	for _, p := range ps {
		sym.Assert(p.clears == 1, "Clear clears every member")
	}
	sym.Reach("many")
}

// P23Members compares an aggregate with metrics pushed to one by one.
// flags: sched=one qtimeout=500
// bound: an aggregate of Mean, EWMA, second moment, Max and Median, and a joint one of Cov and EWMCov; windows 0..2, 2 pushes (quick) / 3, Clear, 1 push, Values compared after every step; one schedule (P22 varies it)
func P23Members() {
	w := sym.Choice(3)
	var agg, own []*thing
	var vars int
	var g *thing
	if sym.Bool() {
		vars = 1
		var ms []stream.SimpleMetric
		var os []stream.SimpleMetric
		for _, list := range []*[]stream.SimpleMetric{&ms, &os} {
			a, b, c := moment.NewMean(w), moment.NewEWMA(0.25), moment.New(2, w)
			ok(moment.Init(a), "Init")
			ok(moment.Init(b), "Init")
			ok(moment.Init(c), "Init")
			d, err := minmax.NewMax(w)
			ok(err, "constructor")
			e, err := quantile.NewMedian(w)
			ok(err, "constructor")
			*list = append(*list, a, b, c, d, e)
		}
		x := aggregate.NewSimpleAggregateMetric(ms...)
		g = &thing{1, one(x.Push), nil, x.Clear, nil}
		for i := range os {
			own = append(own, simple(os[i]))
			agg = append(agg, simple(ms[i]))
		}
		g.read = func() ([]float64, error) {
			vs, err := x.Values()
			var names []string
			for _, m := range os {
				names = append(names, m.String())
			}
			return readMap(vs, err, names...)
		}
	} else {
		vars = 2
		var ms, os []stream.SimpleJointMetric
		for _, list := range []*[]stream.SimpleJointMetric{&ms, &os} {
			a, b := joint.NewCov(w), joint.NewEWMCov(0.25)
			ok(joint.Init(a), "Init")
			ok(joint.Init(b), "Init")
			*list = append(*list, a, b)
		}
		x := aggregate.NewSimpleJointAggregateMetric(ms...)
		g = &thing{2, x.Push, nil, x.Clear, nil}
		for i := range os {
			own = append(own, simpleJoint(os[i]))
			agg = append(agg, simpleJoint(ms[i]))
		}
		g.read = func() ([]float64, error) {
			vs, err := x.Values()
			var names []string
			for _, m := range os {
				names = append(names, m.String())
			}
			return readMap(vs, err, names...)
		}
	}
	step := func(n int) {
		if n == 0 {
			_, err := g.read()
			bad(err, "Values of nothing")
			return
		}
		got, err := g.read()
		ok(err, "Values")
		sym.Assert(got[0] == float64(len(own)), "Values has one entry per metric")
		for i := range own {
			v, err := own[i].read()
			ok(err, "Value")
			u, err := agg[i].read()
			ok(err, "Value")
			sym.Assert(sym.Eq(got[i+1], v[0]), "an entry is what the metric reports on its own")
			sym.Assert(sym.Eq(u[0], v[0]), "an aggregated metric still reports its value")
		}
	}
	step(0)
	for j := 0; j < sz(2, 3); j++ {
		xs := values(vars)
		ok(g.push(dup(xs)...), "push")
		for _, o := range own {
			ok(o.push(dup(xs)...), "push")
		}
		step(j + 1)
	}
	g.clear()
	for _, o := range own {
		o.clear()
	}
	step(0)
	xs := values(vars)
	ok(g.push(dup(xs)...), "push")
	for _, o := range own {
		ok(o.push(dup(xs)...), "push")
	}
	step(1)
	sym.Reach("members")
}
