package harness

import (
	"github.com/alexander-yu/stream/joint"
	"github.com/alexander-yu/stream/moment"
	"github.com/alexander-yu/stream/zverif/sym"
)

func optInt(lo, hi int) *int {
	if sym.Bool() {
		return nil
	}
	return ip(sym.Int(lo, hi))
}

func optDecay() *float64 {
	if sym.Bool() {
		return nil
	}
	return fp(sym.AnyFloat())
}

func sameInt(a, b *int) bool { return a == b || a != nil && b != nil && *a == *b }
func sameFl(a, b *float64) bool {
	return a == b || a != nil && b != nil && (*a == *b || *a != *a && *b != *b)
}
func copyInt(a *int) *int {
	if a == nil {
		return nil
	}
	return ip(*a)
}
func copyFl(a *float64) *float64 {
	if a == nil {
		return nil
	}
	return fp(*a)
}

// agree reports whether the set values among is are all equal, and the common one.
func agree(is []*int) (bool, *int) {
	var v *int
	for _, i := range is {
		if i == nil {
			continue
		}
		if v == nil {
			v = i
		} else if *v != *i {
			return false, nil
		}
	}
	return true, v
}

func agreeFl(is []*float64) (bool, *float64) {
	var v *float64
	for _, i := range is {
		if i == nil {
			continue
		}
		if v == nil {
			v = i
		} else if *v != *i {
			return false, nil
		}
	}
	return true, v
}

// P19Moment merges univariate configurations.
// bound: 1..3 configurations, each with any window or none, any decay (NaN and infinities included) or none, any subset of the powers 1 and 3 (quick) / 1..3
func P19Moment() {
	n := 1 + sym.Choice(3)
	var cfgs, before []*moment.CoreConfig
	var ws []*int
	var ds []*float64
	want := map[int]bool{}
	for i := 0; i < n; i++ {
		c := &moment.CoreConfig{}
		if !sym.Bool() {
			c.Window = ip(sym.AnyInt())
		}
		if n < 3 || i < 2 {
			c.Decay = optDecay()
		}
		b := &moment.CoreConfig{Window: copyInt(c.Window), Decay: copyFl(c.Decay)}
		if mask := sym.Choice(sz(4, 8)); mask > 0 {
			c.Sums, b.Sums = moment.SumsConfig{}, moment.SumsConfig{}
			for j, k := range []int{1, 3, 2} {
				if mask&(1<<uint(j)) != 0 {
					c.Sums[k], b.Sums[k] = true, true
					want[k] = true
				}
			}
		}
		ws, ds = append(ws, c.Window), append(ds, c.Decay)
		cfgs, before = append(cfgs, c), append(before, b)
	}
	m, err := moment.MergeConfigs(cfgs...)
	okw, w := agree(ws)
	okd, d := agreeFl(ds)
	nan := 0
	for _, x := range ds {
		if x != nil && *x != *x {
			nan++
		}
	}
	if nan > 1 {
		return // whether two NaNs agree is left open
	}
	for i, c := range cfgs {
		b := before[i]
		sym.Assert(sameInt(c.Window, b.Window) && sameFl(c.Decay, b.Decay), "merging leaves windows and decays unchanged")
		sym.Assert(len(c.Sums) == len(b.Sums), "merging leaves the sums unchanged")
		for k := range b.Sums {
			sym.Assert(c.Sums[k], "merging leaves the sums unchanged")
		}
	}
	if !okw || !okd {
		bad(err, "merging differing configurations")
		sym.Reach("differing")
		return
	}
	ok(err, "merging agreeing configurations")
	sym.Assert(sameInt(m.Window, w), "the merged window is the common one")
	sym.Assert(sameFl(m.Decay, d), "the merged decay is the common one")
	for k := range want {
		sym.Assert(m.Sums[k], "the merged configuration tracks every sum asked for")
	}
	sym.Reach("merged")
}

// P19MomentShared builds one core for several univariate metrics.
// bound: every ordered pair of metrics with a window or every ordered pair with a decay, windows 0..2, window+2 pushes (quick) / window+3, all through either metric or the core, one Clear anywhere
func P19MomentShared() {
	w := sym.Choice(3)
	a := decay()
	lo, n := 0, 7
	if sym.Bool() {
		lo, n, w = 7, 4, 0
	}
	i, j := lo+sym.Choice(n), lo+sym.Choice(n)
	x, y := momentMetrics[i](w, a), momentMetrics[j](w, a)
	cfg, err := moment.MergeConfigs(x.Config(), y.Config())
	ok(err, "merge")
	core, err := moment.NewCore(cfg)
	ok(err, "core of the merged configuration")
	x.SetCore(core)
	y.SetCore(core)
	ox, oy := newMoment(i, w, a), newMoment(j, w, a)
	via := sym.Choice(3)
	both := func(v float64) error {
		ok(ox.push(v), "push")
		ok(oy.push(v), "push")
		switch via {
		case 0:
			return x.Push(v)
		case 1:
			return y.Push(v)
		}
		return core.Push(v)
	}
	clear := func() { x.Clear(); ox.clear(); oy.clear() }
	drive(w, w+sz(2, 3), both, clear, func(win []float64) {
		same(simple(x), ox)
		same(simple(y), oy)
		sym.Reach("shared")
	})
}

// P19Joint merges joint configurations.
// bound: 2..3 configurations, each with any window or none, any variable count or none, any decay (NaN and infinities included) or none in two of them, and up to 2 tuples of 1..3 exponents up to 33 (one configuration with 2 tuples, the others with at most one)
func P19Joint() {
	n := 2 + sym.Choice(2)
	var cfgs, before []*joint.CoreConfig
	var ws, vs []*int
	var ds []*float64
	for i := 0; i < n; i++ {
		c := &joint.CoreConfig{}
		switch i {
		case 0:
			c.Window = optInt(-2, 1<<40)
			c.Decay = optDecay()
		case 1:
			c.Window = optInt(-2, 1<<40)
			c.Vars = optInt(-2, 1<<40)
			c.Decay = optDecay()
		default:
			c.Vars = optInt(-2, 1<<40)
			if sym.Bool() {
				c.Window = ip(sym.AnyInt())
			}
		}
		b := &joint.CoreConfig{Window: copyInt(c.Window), Decay: copyFl(c.Decay), Vars: copyInt(c.Vars)}
		ws, ds, vs = append(ws, c.Window), append(ds, c.Decay), append(vs, c.Vars)
		cfgs, before = append(cfgs, c), append(before, b)
	}
	m, err := joint.MergeConfigs(cfgs...)
	okw, w := agree(ws)
	okv, v := agree(vs)
	okd, d := agreeFl(ds)
	nan := 0
	for _, x := range ds {
		if x != nil && *x != *x {
			nan++
		}
	}
	if nan > 1 {
		return // whether two NaNs agree is left open
	}
	for i, c := range cfgs {
		b := before[i]
		sym.Assert(sameInt(c.Window, b.Window) && sameFl(c.Decay, b.Decay) && sameInt(c.Vars, b.Vars), "merging leaves its inputs unchanged")
	}
	if !okw || !okv || !okd {
		bad(err, "merging differing configurations")
		sym.Reach("differing")
		return
	}
	ok(err, "merging agreeing configurations")
	sym.Assert(sameInt(m.Window, w), "the merged window is the common one")
	sym.Assert(sameInt(m.Vars, v), "the merged variable count is the common one")
	sym.Assert(sameFl(m.Decay, d), "the merged decay is the common one")
	sym.Reach("merged")
}

func covers(big, t joint.Tuple) bool {
	if len(big) != len(t) {
		return false
	}
	for i := range t {
		if t[i] > big[i] {
			return false
		}
	}
	return true
}

// P19Tuples merges the tuples of joint configurations.
// bound: 2 configurations of up to 2 tuples each (quick) / 3 configurations of up to 2 tuples each, 4 in all; 1..3 exponents, each any integer in 0..40
func P19Tuples() {
	n := 2 + sym.Choice(sz(1, 2))
	var cfgs []*joint.CoreConfig
	var all, kept []joint.Tuple
	for i := 0; i < n; i++ {
		c := &joint.CoreConfig{Window: ip(0)}
		for j, k := 0, sym.Choice(3); j < k && len(all) < sz(3, 4); j++ {
			t := make(joint.Tuple, 1+sym.Choice(3))
			for x := range t {
				t[x] = sym.Int(0, 40)
			}
			c.Sums = append(c.Sums, t)
			all = append(all, t)
			kept = append(kept, append(joint.Tuple{}, t...))
		}
		cfgs = append(cfgs, c)
	}
	m, err := joint.MergeConfigs(cfgs...)
	ok(err, "merging")
	at := 0
	for _, c := range cfgs {
		for _, t := range c.Sums {
			sym.Assert(len(t) == len(kept[at]), "merging leaves the tuples unchanged")
			for x := range t {
				sym.Assert(t[x] == kept[at][x], "merging leaves the tuples unchanged")
			}
			at++
		}
	}
	sym.Assert(at == len(kept), "merging leaves the tuples unchanged")
	for _, t := range kept {
		found := false
		for _, b := range m.Sums {
			if covers(b, t) {
				found = true
				break
			}
		}
		sym.Assert(found, "the merged configuration tracks every tuple asked for")
	}
	for _, b := range m.Sums {
		found := false
		for _, t := range kept {
			if covers(b, t) && covers(t, b) {
				found = true
				break
			}
		}
		sym.Assert(found, "the merged configuration tracks only tuples asked for")
	}
	sym.Reach("tuples")
}

// P19Many merges many configurations, some of them without anything.
// bound: 1..4 configurations of each package (quick) / 1..5, each with or without window 2, decay 0.5, variable count 2 and up to 1 sum of its own; merged twice
func P19Many() {
	n := 1 + sym.Choice(sz(4, 5))
	if sym.Bool() {
		var cfgs []*moment.CoreConfig
		var mask []int
		for i := 0; i < n; i++ {
			c, b := &moment.CoreConfig{}, sym.Choice(4)
			if b&1 != 0 {
				c.Window, c.Decay = ip(2), fp(0.5)
			}
			if b&2 != 0 {
				c.Sums = moment.SumsConfig{i: true}
			}
			cfgs, mask = append(cfgs, c), append(mask, b)
		}
		check := func() {
			for i, c := range cfgs {
				sym.Assert((c.Window != nil) == (mask[i]&1 != 0) && (c.Decay != nil) == (mask[i]&1 != 0), "merging leaves its inputs unchanged")
				sym.Assert(c.Window == nil || *c.Window == 2 && *c.Decay == 0.5, "merging leaves its inputs unchanged")
				sym.Assert(len(c.Sums) == (mask[i]&2)/2 && (mask[i]&2 == 0 || c.Sums[i]), "merging leaves its inputs unchanged")
			}
		}
		m, err := moment.MergeConfigs(cfgs...)
		ok(err, "merging agreeing configurations")
		check()
		k := 0
		for i, b := range mask {
			if b&2 != 0 {
				k++
				sym.Assert(m.Sums[i], "the merged configuration tracks every sum asked for")
			}
		}
		sym.Assert(len(m.Sums) == k, "the merged configuration tracks only sums asked for")
		_, err = moment.MergeConfigs(cfgs...)
		ok(err, "merging again")
		check()
		sym.Reach("univariate")
		return
	}
	var cfgs []*joint.CoreConfig
	var mask []int
	for i := 0; i < n; i++ {
		c, b := &joint.CoreConfig{}, sym.Choice(4)
		if b&1 != 0 {
			c.Window, c.Decay, c.Vars = ip(2), fp(0.5), ip(2)
		}
		if b&2 != 0 {
			c.Sums = make(joint.SumsConfig, 1, 2)
			c.Sums[0] = joint.Tuple{i, 5 - i}
		}
		cfgs, mask = append(cfgs, c), append(mask, b)
	}
	check := func() {
		for i, c := range cfgs {
			set := mask[i]&1 != 0
			sym.Assert((c.Window != nil) == set && (c.Decay != nil) == set && (c.Vars != nil) == set, "merging leaves its inputs unchanged")
			sym.Assert(!set || *c.Window == 2 && *c.Decay == 0.5 && *c.Vars == 2, "merging leaves its inputs unchanged")
			sym.Assert(len(c.Sums) == (mask[i]&2)/2, "merging leaves its inputs unchanged")
			for _, t := range c.Sums {
				sym.Assert(len(t) == 2 && t[0] == i && t[1] == 5-i, "merging leaves its inputs unchanged")
			}
		}
	}
	m, err := joint.MergeConfigs(cfgs...)
	ok(err, "merging agreeing configurations")
	check()
	k := 0
	for i, b := range mask {
		if b&2 != 0 {
			k++
			found := false
			for _, t := range m.Sums {
				found = found || len(t) == 2 && t[0] == i && t[1] == 5-i
			}
			sym.Assert(found, "the merged configuration tracks every tuple asked for")
		}
	}
	sym.Assert(len(m.Sums) == k, "the merged configuration tracks only tuples asked for")
	_, err = joint.MergeConfigs(cfgs...)
	ok(err, "merging again")
	check()
	sym.Reach("joint")
}

// P19Empty merges nothing.
// bound: no configuration
func P19Empty() {
	_, err := moment.MergeConfigs()
	bad(err, "merging nothing")
	_, err = joint.MergeConfigs()
	bad(err, "merging nothing")
	sym.Reach("empty")
}

// P19JointShared builds one core for several joint metrics.
// flags: qtimeout=500
// bound: covariance and correlation in either order with further tuples, windows 0..2 or any decay, window+2 pushes
func P19JointShared() {
	w := sym.Choice(3)
	a := decay()
	ew := sym.Bool()
	var x, y joint.Metric
	var ox, oy *thing
	var dec *float64
	if ew {
		w = 0
		dec = &a
		x, y = joint.NewEWMCov(a), joint.NewEWMCorr(a)
		ox, oy = newJoint(2, w, a), newJoint(3, w, a)
	} else {
		x, y = joint.NewCov(w), joint.NewCorr(w)
		ox, oy = newJoint(0, w, a), newJoint(1, w, a)
	}
	extra := &joint.CoreConfig{Sums: joint.SumsConfig{{1, 2}, {0, 2}, {0, 1}}}
	var cfg *joint.CoreConfig
	var err error
	switch sym.Choice(4) {
	case 0:
		cfg, err = joint.MergeConfigs(x.Config(), y.Config())
	case 1:
		cfg, err = joint.MergeConfigs(y.Config(), x.Config())
	case 2:
		cfg, err = joint.MergeConfigs(x.Config(), extra, y.Config())
	case 3:
		cfg, err = joint.MergeConfigs(extra, y.Config(), x.Config())
	}
	ok(err, "merge")
	core, err := joint.NewCore(cfg)
	ok(err, "core of the merged configuration")
	x.SetCore(core)
	y.SetCore(core)
	own, err := joint.NewCore(&joint.CoreConfig{Window: ip(w), Decay: dec, Sums: joint.SumsConfig{{1, 1}, {2, 0}, {0, 2}}})
	ok(err, "core")
	for i := 0; i < w+2; i++ {
		u, v := sym.Float(), sym.Float()
		ok(ox.push(u, v), "push")
		ok(oy.push(u, v), "push")
		ok(own.Push(u, v), "push")
		switch sym.Choice(2) {
		case 0:
			ok(x.Push(u, v), "push")
		case 1:
			ok(y.Push(u, v), "push")
		}
		for _, t := range []joint.Tuple{{1, 1}, {2, 0}, {0, 2}} {
			s, err := core.Sum(t...)
			ok(err, "sum of a merged tuple")
			s2, err := own.Sum(t...)
			ok(err, "sum")
			sym.Assert(sym.Eq(s, s2), "a merged core reports what separate cores report")
		}
		same(simpleJoint(x), ox)
		if i == 1 {
			same(simpleJoint(y), oy)
		}
		sym.Reach("shared")
	}
}
