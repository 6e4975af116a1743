package harness

import (
	"github.com/alexander-yu/stream/joint"
	"github.com/alexander-yu/stream/minmax"
	"github.com/alexander-yu/stream/moment"
	"github.com/alexander-yu/stream/quantile"
	"github.com/alexander-yu/stream/quantile/order"
	"github.com/alexander-yu/stream/quantile/ost/avl"
	"github.com/alexander-yu/stream/quantile/ost/rb"
	"github.com/alexander-yu/stream/quantile/skiplist"
	"github.com/alexander-yu/stream/zverif/sym"
)

// anyWindow is nil or any integer up to max (a window allocates its queue).
func anyWindow(max int) *int {
	if sym.Bool() {
		return nil
	}
	w := sym.AnyInt()
	sym.Assume(w <= max)
	return &w
}

func anyDecay() *float64 {
	if sym.Bool() {
		return nil
	}
	return fp(sym.AnyFloat())
}

func validDecay(a float64) bool { return a > 0 && a < 1 }

func validStream(w *int, a *float64) bool {
	if w == nil || *w < 0 {
		return false
	}
	return a == nil || validDecay(*a) && *w == 0
}

func verdict(valid bool, err error, what string) {
	if valid {
		ok(err, what+" of valid parameters")
		sym.Reach("accepted")
	} else {
		bad(err, what+" of invalid parameters")
		sym.Reach("rejected")
	}
}

// P17Moment creates univariate cores.
// flags: ring=fifo
// bound: window unset or any integer up to 3; decay unset or any float64 (NaN and infinities included); no set of powers or up to 2 (quick) / 3 powers, each any integer up to 5
func P17Moment() {
	cfg := &moment.CoreConfig{Window: anyWindow(3), Decay: anyDecay()}
	valid := validStream(cfg.Window, cfg.Decay)
	if n := sym.Choice(sz(4, 5)); n > 0 {
		cfg.Sums = moment.SumsConfig{}
		for i := 1; i < n; i++ {
			k := sym.AnyInt()
			sym.Assume(k <= 5)
			cfg.Sums[k] = true
			valid = valid && k > 0
		}
	}
	c, err := moment.NewCore(cfg)
	verdict(valid, err, "NewCore")
	if err == nil {
		ok(c.Push(1), "push to a new core")
		sym.Assert(c.Count() == 1, "a new core counts its first value")
	} else {
		sym.Assert(c == nil, "no core without a valid configuration")
	}
}

// P17Init initialises every univariate moment metric.
// flags: ring=fifo
// bound: any window up to 3, any decay (NaN and infinities included), any power up to 4
func P17Init() {
	w := sym.AnyInt()
	sym.Assume(w <= 3)
	a := sym.AnyFloat()
	k := sym.AnyInt()
	sym.Assume(k <= 4)
	var m moment.Metric
	var valid bool
	switch sym.Choice(8) {
	case 0:
		m, valid = moment.NewMean(w), w >= 0
	case 1:
		m, valid = moment.New(k, w), w >= 0 && k > 0
	case 2:
		m, valid = moment.NewStd(w), w >= 0
	case 3:
		m, valid = moment.NewSkewness(w), w >= 0
	case 4:
		m, valid = moment.NewKurtosis(w), w >= 0
	case 5:
		m, valid = moment.NewEWMA(a), validDecay(a)
	case 6:
		m, valid = moment.NewEWMMoment(k, a), validDecay(a) && k > 0
	case 7:
		m, valid = moment.NewEWMStd(a), validDecay(a)
	}
	err := moment.Init(m)
	verdict(valid, err, "Init")
	if err == nil {
		ok(m.Push(1), "push after Init")
	} else {
		bad(m.Push(1), "push after a failed Init")
	}
}

// P17JointInit initialises every joint metric.
// flags: ring=fifo
// bound: any window and lag up to 3, any decay (NaN and infinities included)
func P17JointInit() {
	w := sym.AnyInt()
	sym.Assume(w <= 3)
	var err error
	var valid bool
	switch sym.Choice(6) {
	case 0:
		err, valid = joint.Init(joint.NewCov(w)), w >= 0
	case 1:
		err, valid = joint.Init(joint.NewCorr(w)), w >= 0
	case 2:
		a := sym.AnyFloat()
		err, valid = joint.Init(joint.NewEWMCov(a)), validDecay(a)
	case 3:
		a := sym.AnyFloat()
		err, valid = joint.Init(joint.NewEWMCorr(a)), validDecay(a)
	case 4:
		lag := sym.AnyInt()
		sym.Assume(lag <= 3)
		m, err2 := joint.NewAutocov(lag, w)
		verdict(lag >= 0, err2, "NewAutocov")
		if err2 != nil {
			return
		}
		err, valid = joint.Init(m), w >= 0
	case 5:
		lag := sym.AnyInt()
		sym.Assume(lag <= 3)
		m, err2 := joint.NewAutocorr(lag, w)
		verdict(lag >= 0, err2, "NewAutocorr")
		if err2 != nil {
			return
		}
		err, valid = joint.Init(m), w >= 0
	}
	verdict(valid, err, "Init")
}

// anyTuple has 0..max exponents, each any integer up to 2.
func anyTuple(max int) joint.Tuple {
	t := make(joint.Tuple, sym.Choice(max+1))
	for i := range t {
		t[i] = sym.AnyInt()
		sym.Assume(t[i] <= 2)
	}
	return t
}

func validTuple(t joint.Tuple) bool {
	pos := false
	for _, k := range t {
		if k < 0 {
			return false
		}
		pos = pos || k > 0
	}
	return pos
}

func jointConfig(w *int, a *float64, tuples, max int) (*joint.CoreConfig, bool) {
	cfg := &joint.CoreConfig{Window: w, Decay: a}
	valid := validStream(w, a)
	vars := -1
	if sym.Bool() {
		v := sym.AnyInt()
		sym.Assume(v <= 4)
		cfg.Vars = &v
		valid = valid && v >= 2
		vars = v
	}
	n := sym.Choice(tuples + 2)
	if n > 0 {
		cfg.Sums = joint.SumsConfig{}
		for i := 1; i < n; i++ {
			t := anyTuple(max)
			cfg.Sums = append(cfg.Sums, t)
			if cfg.Vars == nil && i == 1 {
				vars = len(t)
				valid = valid && vars >= 2
			}
			valid = valid && len(t) == vars && validTuple(t)
		}
	}
	return cfg, valid && (cfg.Vars != nil || n > 1)
}

// P17Joint creates joint cores from one tuple.
// flags: ring=fifo
// bound: window unset or any integer up to 2; decay unset or any float64; variable count unset or any integer up to 4; no tuple or one of 0..3 exponents, each any integer up to 2
func P17Joint() {
	cfg, valid := jointConfig(anyWindow(2), anyDecay(), 1, 3)
	c, err := joint.NewCore(cfg)
	verdict(valid, err, "NewCore")
	if err == nil {
		sym.Assert(c.Count() == 0, "a new core is empty")
	} else {
		sym.Assert(c == nil, "no core without a valid configuration")
	}
}

// P17Tuples creates joint cores from several tuples.
// bound: window 0; variable count unset or any integer up to 4; up to 2 (quick) / 3 tuples of 0..3 exponents, each any integer up to 2
func P17Tuples() {
	cfg, valid := jointConfig(ip(0), nil, sz(2, 3), 3)
	c, err := joint.NewCore(cfg)
	verdict(valid, err, "NewCore")
	if err == nil {
		xs := make([]float64, 4)
		n := 0
		for i := 2; i <= 4; i++ {
			if c.Push(xs[:i]...) == nil {
				n++
			}
		}
		sym.Assert(n == 1, "a core has one number of variables")
	}
}

// ---- constructors and options

// P18Windows tries every window.
// flags: ring=fifo
// bound: any window up to 3
func P18Windows() {
	w := sym.AnyInt()
	sym.Assume(w <= 3)
	var err error
	var str func() string
	var push func(float64) error
	switch sym.Choice(6) {
	case 0:
		m, e := minmax.NewMin(w)
		err = e
		if e == nil {
			str, push = m.String, m.Push
		}
	case 1:
		m, e := minmax.NewMax(w)
		err = e
		if e == nil {
			str, push = m.String, m.Push
		}
	case 2:
		m, e := quantile.New(w)
		err = e
		if e == nil {
			str, push = m.String, m.Push
		}
	case 3:
		m, e := quantile.NewMedian(w)
		err = e
		if e == nil {
			str, push = m.String, m.Push
		}
	case 4:
		m, e := quantile.NewIQR(w)
		err = e
		if e == nil {
			str, push = m.String, m.Push
		}
	case 5:
		m, e := quantile.NewHeapMedian(w)
		err = e
		if e == nil {
			str, push = m.String, m.Push
		}
	}
	verdict(w >= 0, err, "constructor")
	if err == nil {
		sym.Assert(str() != "", "an accepted window makes an object")
		ok(push(1), "push to a new object")
	}
}

// P18Quantile asks for any quantile.
// flags: ring=fifo
// bound: any float64 (NaN and infinities included), every structure, empty and with up to 3 values
func P18Quantile() {
	m, err := quantile.New(sym.Choice(3), impl(1))
	ok(err, "constructor")
	n := sym.Choice(4)
	for i := 0; i < n; i++ {
		ok(m.Push(float64(i)), "push")
	}
	q := sym.AnyFloat()
	_, err = m.Value(q)
	verdict(q > 0 && q < 1 && n > 0, err, "Value")
}

// P18Enums creates quantiles of any implementation and interpolation.
// bound: any int for either, through New, NewMedian, NewIQR and directly
func P18Enums() {
	if sym.Bool() {
		i := sym.AnyInt()
		im := quantile.Impl(i)
		valid := i == int(quantile.AVL) || i == int(quantile.RedBlack) || i == int(quantile.SkipList)
		sym.Assert(im.Valid() == valid, "Impl.Valid")
		_, err := quantile.New(0, quantile.ImplOption(im))
		verdict(valid, err, "ImplOption")
		return
	}
	i := sym.AnyInt()
	in := quantile.Interpolation(i)
	valid := i >= int(quantile.Linear) && i <= int(quantile.Midpoint)
	sym.Assert(in.Valid() == valid, "Interpolation.Valid")
	var err error
	switch sym.Choice(3) {
	case 0:
		_, err = quantile.New(0, quantile.InterpolationOption(in))
	case 1:
		_, err = quantile.NewMedian(2, quantile.InterpolationOption(in))
	case 2:
		_, err = quantile.NewGlobalIQR(quantile.InterpolationOption(in))
	}
	verdict(valid, err, "InterpolationOption")
}

// P18Skip creates skip lists with any options.
// bound: any maximum level, any probability (NaN and infinities included), in either order, directly and through ImplOption
func P18Skip() {
	l := sym.AnyInt()
	p := sym.AnyFloat()
	var opts []order.Option
	valid := true
	which := 1 + sym.Choice(3)
	if which&1 != 0 {
		opts = append(opts, skiplist.MaxLevelOption(l))
		valid = l >= 1 && l <= 64
	}
	if which&2 != 0 {
		opts = append(opts, skiplist.ProbabilityOption(p))
		valid = valid && p > 0 && p < 1
	}
	if which == 3 && sym.Bool() {
		opts[0], opts[1] = opts[1], opts[0]
	}
	if valid {
		// the level allocates that many pointers
		sym.Assume(which&1 == 0 || l <= 4 || l >= 63)
	}
	var err error
	if sym.Bool() {
		_, err = skiplist.New(opts...)
	} else {
		_, err = quantile.New(0, quantile.ImplOption(quantile.SkipList, opts...))
	}
	verdict(valid, err, "skip list options")
}

// P18SkipOther gives skip list options to other structures.
// bound: any maximum level, any probability
func P18SkipOther() {
	var s order.Statistic = &avl.Tree{}
	if sym.Bool() {
		s = &rb.Tree{}
	}
	s.Add(1)
	var err error
	switch sym.Choice(3) {
	case 0:
		err = skiplist.MaxLevelOption(sym.AnyInt())(s)
	case 1:
		err = skiplist.ProbabilityOption(sym.AnyFloat())(s)
	case 2:
		err = skiplist.RandOption(nil)(s)
	}
	bad(err, "a skip list option on another structure")
	im := quantile.Impl(sym.Choice(2))
	var o order.Option
	switch sym.Choice(3) {
	case 0:
		o = skiplist.MaxLevelOption(3)
	case 1:
		o = skiplist.ProbabilityOption(0.5)
	case 2:
		o = skiplist.RandOption(nil)
	}
	_, err = quantile.New(0, quantile.ImplOption(im, o))
	bad(err, "ImplOption with a skip list option for another structure")
	sym.Assert(s.Size() == 1 && s.Select(0).Value() == 1, "a rejected option changes nothing")
	sym.Reach("other structure")
}

// P18Keep applies rejected options to objects in use.
// flags: ring=fifo
// bound: windows 0 and 2, every structure, 2 values before and after; any invalid implementation, interpolation, level and probability
func P18Keep() {
	w := 2 * sym.Choice(2)
	m, err := quantile.New(w, impl(1), quantile.InterpolationOption(quantile.Lower))
	ok(err, "constructor")
	s := newSkip(skiplist.MaxLevelOption(2), skiplist.ProbabilityOption(0.5))
	var win []float64
	for i := 0; i < 2; i++ {
		x := sym.Float()
		ok(m.Push(x), "push")
		s.Add(x)
		win = append(win, x)
	}
	name := m.String()
	l, p := sym.AnyInt(), sym.AnyFloat()
	sym.Assume(sym.Or(l < 1, l > 64))
	sym.Assume(sym.Not(p > 0 && p < 1))
	switch sym.Choice(6) {
	case 0:
		sym.Assume(sym.Or(l < 0, l > 2))
		err = quantile.ImplOption(quantile.Impl(l))(m)
	case 1:
		sym.Assume(sym.Or(l < 0, l > 4))
		err = quantile.InterpolationOption(quantile.Interpolation(l))(m)
	case 2:
		err = quantile.ImplOption(quantile.SkipList, skiplist.MaxLevelOption(l))(m)
	case 3:
		err = quantile.ImplOption(quantile.SkipList, skiplist.ProbabilityOption(p))(m)
	case 4:
		err = skiplist.MaxLevelOption(l)(s)
	case 5:
		err = skiplist.ProbabilityOption(p)(s)
	}
	bad(err, "an invalid option")
	sym.Assert(m.String() == name, "a rejected option changes no parameter")
	checkQuantile(m, quantile.Lower, win, 0.75)
	checkStat(s, sorted(win))
	x := sym.Float()
	ok(m.Push(x), "push")
	s.Add(x)
	checkQuantile(m, quantile.Lower, slide(win, x, w), 0.75)
	checkStat(s, sorted(append(append([]float64{}, win...), x)))
	sym.Reach("kept")
}

// P18Lag tries every lag.
// flags: ring=fifo
// bound: any lag up to 3, windows 0..1, with and without a window constructor
func P18Lag() {
	lag := sym.AnyInt()
	sym.Assume(lag <= 3)
	var err error
	switch sym.Choice(4) {
	case 0:
		_, err = joint.NewAutocov(lag, sym.Choice(2))
	case 1:
		_, err = joint.NewAutocorr(lag, sym.Choice(2))
	case 2:
		_, err = joint.NewGlobalAutocov(lag)
	case 3:
		_, err = joint.NewGlobalAutocorr(lag)
	}
	verdict(lag >= 0, err, "constructor")
}
