package harness

import (
	"math"

	"github.com/alexander-yu/stream/quantile"
	"github.com/alexander-yu/stream/quantile/heap"
	"github.com/alexander-yu/stream/quantile/order"
	"github.com/alexander-yu/stream/quantile/ost/avl"
	"github.com/alexander-yu/stream/quantile/ost/rb"
	"github.com/alexander-yu/stream/quantile/skiplist"
	"github.com/alexander-yu/stream/zverif/sym"

	heapops "container/heap"
)

// The harnesses of this file treat values as IEEE 754 doubles: infinities, zeros of both signs,
// subnormal and very large numbers are among them, NaN is not.

func number() float64 {
	x := sym.AnyFloat()
	sym.Assume(!math.IsNaN(x))
	return x
}

// P15IEEE follows the extremes of any doubles.
// flags: mode=fp ring=fifo
// bound: windows 0 to 3, 5 operations (quick) / 6, values any double but NaN
func P15IEEE() {
	w := sym.Choice(4)
	isMin := sym.Bool()
	m := extremes(isMin, w)
	var win []float64
	for i := 0; i < sz(5, 6); i++ {
		if i > 0 && sym.Bool() {
			m.Clear()
			win = nil
		} else {
			x := number()
			ok(m.Push(x), "push")
			win = slide(win, x, w)
		}
		checkExtreme(m, isMin, win)
	}
}

// P11IEEE puts any doubles into trees.
// flags: mode=fp
// bound: both trees, 4 operations (quick) / 5, values any double but NaN
func P11IEEE() {
	var s order.Statistic = &avl.Tree{}
	if sym.Bool() {
		s = &rb.Tree{}
	}
	ieeeStat(s, sz(4, 5))
}

// P12IEEE puts any doubles into skip lists.
// flags: mode=fp
// bound: maximum level 2, every level drawn, 3 operations (quick) / 4, values any double but NaN
func P12IEEE() {
	ieeeStat(newSkip(skiplist.MaxLevelOption(2)), sz(3, 4))
}

func ieeeStat(s order.Statistic, n int) {
	var ref []float64
	for i := 0; i < n; i++ {
		x := number()
		if i > 1 && sym.Bool() {
			s.Remove(x)
			ref = without(ref, x)
		} else {
			s.Add(x)
			ref = insert(ref, x)
		}
	}
	checkStat(s, ref)
	sym.Reach("ieee")
}

// P14IEEE puts any doubles into a heap.
// flags: mode=fp
// bound: 3 values (quick) / 4, one of them updated, then all popped; values any double but NaN
func P14IEEE() {
	isMin := sym.Bool()
	h := heap.New("h", nil, better(isMin))
	var items []*heap.Item
	var xs []float64
	n := sz(3, 4)
	for i := 0; i < n; i++ {
		x := number()
		items = append(items, &heap.Item{Val: x})
		xs = append(xs, x)
		heapops.Push(h, items[i])
	}
	i := sym.Choice(n)
	xs[i] = number()
	h.Update(items[i], xs[i])
	drain(h, sorted(xs), isMin)
}

// P09IEEE follows the middle of any doubles.
// flags: mode=fp ring=fifo
// bound: windows 0 to 3, 4 operations (quick) / 5, values any double but NaN; checked while the number of values is odd
func P09IEEE() {
	w := sym.Choice(4)
	m, err := quantile.NewHeapMedian(w)
	ok(err, "constructor")
	var win []float64
	for i := 0; i < sz(4, 5); i++ {
		x := number()
		ok(m.Push(x), "push")
		win = slide(win, x, w)
		v, err := m.Value()
		ok(err, "value")
		if n := len(win); n%2 == 1 {
			sym.Assert(v == sorted(win)[n/2], "HeapMedian is the middle value")
			sym.Reach("middle")
		}
	}
}

// P08IEEE picks from any doubles.
// flags: mode=fp ring=fifo
// bound: windows 0, 2 and 3, 4 pushes (quick) / 5, red-black tree, modes lower, higher and nearest at quantiles 1/4, 1/2, 3/4; values any double but NaN
func P08IEEE() {
	w := []int{0, 2, 3}[sym.Choice(3)]
	mode := []quantile.Interpolation{quantile.Lower, quantile.Higher, quantile.Nearest}[sym.Choice(3)]
	q := []float64{0.25, 0.5, 0.75}[sym.Choice(3)]
	m, err := quantile.New(w, quantile.InterpolationOption(mode), quantile.ImplOption(quantile.RedBlack))
	ok(err, "constructor")
	var win []float64
	for i := 0; i < sz(4, 5); i++ {
		x := number()
		ok(m.Push(x), "push")
		win = slide(win, x, w)
	}
	s := sorted(win)
	at := q * float64(len(s)-1)
	k := int(math.Floor(at))
	up := k
	if at > float64(k) {
		up++
	}
	v, err := m.Value(q)
	ok(err, "value")
	switch mode {
	case quantile.Lower:
		sym.Assert(v == s[k], "Lower is the value below")
	case quantile.Higher:
		sym.Assert(v == s[up], "Higher is the value above")
	default:
		sym.Assert(sym.Or(v == s[k], v == s[up]), "Nearest is one of the values around")
	}
	sym.Reach("picked")
}
