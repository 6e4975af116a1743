package harness

import (
	heapops "container/heap"

	"github.com/alexander-yu/stream/minmax"
	"github.com/alexander-yu/stream/quantile"
	"github.com/alexander-yu/stream/quantile/heap"
	"github.com/alexander-yu/stream/quantile/order"
	"github.com/alexander-yu/stream/quantile/ost/avl"
	"github.com/alexander-yu/stream/quantile/ost/rb"
	"github.com/alexander-yu/stream/quantile/skiplist"
	"github.com/alexander-yu/stream/zverif/sym"
)

// insert puts x into the sorted slice (a new one).
func insert(s []float64, x float64) []float64 {
	i := 0
	for i < len(s) && s[i] < x {
		i++
	}
	r := make([]float64, 0, len(s)+1)
	r = append(r, s[:i]...)
	r = append(r, x)
	return append(r, s[i:]...)
}

// sorted is the multiset in order.
func sorted(xs []float64) []float64 {
	var s []float64
	for _, x := range xs {
		s = insert(s, x)
	}
	return s
}

// without removes one occurrence of x, if any.
func without(s []float64, x float64) []float64 {
	for i := range s {
		if s[i] == x {
			r := append([]float64{}, s[:i]...)
			return append(r, s[i+1:]...)
		}
	}
	return s
}

func slide(win []float64, x float64, w int) []float64 {
	r := append([]float64{}, win...)
	r = append(r, x)
	if w > 0 && len(r) > w {
		r = r[1:]
	}
	return r
}

// ---- min and max

type extreme interface {
	Push(float64) error
	Value() (float64, error)
	Clear()
}

func extremes(isMin bool, w int) extreme {
	if isMin {
		m, err := minmax.NewMin(w)
		ok(err, "constructor")
		return m
	}
	m, err := minmax.NewMax(w)
	ok(err, "constructor")
	return m
}

func checkExtreme(m extreme, isMin bool, win []float64) {
	v, err := m.Value()
	if len(win) == 0 {
		bad(err, "value of nothing")
		return
	}
	ok(err, "value")
	sym.ObserveFloat("extreme", v)
	any := false
	for _, x := range win {
		if isMin {
			sym.Assert(v <= x, "minimum is not above a value of the window")
		} else {
			sym.Assert(v >= x, "maximum is not below a value of the window")
		}
		any = sym.Or(any, v == x)
	}
	sym.Assert(any, "extreme is a value of the window")
	sym.Reach("extreme")
}

// P15Window explores all histories of Push and Clear.
// flags: ring=fifo
// bound: windows 1..4 (quick) / 1..5, histories of any length (state closure)
func P15Window() {
	w := 1 + sym.Choice(sz(4, 5))
	isMin := sym.Bool()
	m := extremes(isMin, w)
	var win []float64
	for {
		sym.Checkpoint(m, win)
		if sym.Choice(4) == 3 {
			m.Clear()
			win = nil
		} else {
			x := sym.Float()
			ok(m.Push(x), "push")
			win = slide(win, x, w)
		}
		checkExtreme(m, isMin, win)
	}
}

// P15Global explores histories without a window.
// bound: 5 operations (quick) / 7
func P15Global() {
	isMin := sym.Bool()
	m := extremes(isMin, 0)
	if sym.Bool() {
		if isMin {
			m = minmax.NewGlobalMin()
		} else {
			m = minmax.NewGlobalMax()
		}
	}
	var win []float64
	for i := 0; i < sz(5, 7); i++ {
		if sym.Choice(2) == 1 {
			m.Clear()
			win = nil
		} else {
			x := sym.Float()
			ok(m.Push(x), "push")
			win = slide(win, x, 0)
		}
		checkExtreme(m, isMin, win)
	}
}

// P15Long fills a larger window in increasing or decreasing order and then pushes arbitrary values.
// bound: window 5, 8 and 17, 3 arbitrary values after the fill (quick) / 4
func P15Long() {
	w := []int{5, 8, 17}[sym.Choice(3)]
	isMin := sym.Bool()
	up := sym.Bool()
	m := extremes(isMin, w)
	var win []float64
	n := w + 1
	k := sz(3, 4)
	for i := 0; i < n+k; i++ {
		x := sym.Float()
		if i > 0 && i < n {
			if up {
				sym.Assume(x > win[len(win)-1])
			} else {
				sym.Assume(x < win[len(win)-1])
			}
		}
		ok(m.Push(x), "push")
		win = slide(win, x, w)
		if i >= n-2 {
			checkExtreme(m, isMin, win)
		}
	}
}

// ---- heap

type entry struct {
	item *heap.Item
	val  float64
}

func better(isMin bool) func(float64, float64) bool {
	if isMin {
		return func(a, b float64) bool { return a < b }
	}
	return func(a, b float64) bool { return a > b }
}

func checkHeap(h *heap.Heap, es []entry, isMin bool) {
	sym.Assert(h.Len() == len(es), "length is the number of stored values")
	vals := h.Values()
	sym.Assert(len(vals) == len(es), "Values lists every stored value")
	var want []float64
	for _, e := range es {
		want = append(want, e.val)
		if e.item != nil {
			sym.Assert(e.item.Val == e.val, "an item keeps its own value")
		}
	}
	sym.Assert(sym.SameMultiset(vals, want), "Values lists exactly the stored values")
	if len(es) == 0 {
		return
	}
	p := h.Peek()
	any := false
	for _, v := range want {
		any = sym.Or(any, p == v)
		if isMin {
			sym.Assert(p <= v, "Peek is extreme")
		} else {
			sym.Assert(p >= v, "Peek is extreme")
		}
	}
	sym.Assert(any, "Peek is a stored value")
	sym.ObserveFloat("peek", p)
	sym.Reach("peek")
}

func drop(es []entry, i int) []entry {
	r := append([]entry{}, es[:i]...)
	return append(r, es[i+1:]...)
}

// with adds an entry, keeping them sorted by value.
func with(es []entry, e entry) []entry {
	i := 0
	for i < len(es) && es[i].val < e.val {
		i++
	}
	r := append([]entry{}, es[:i]...)
	r = append(r, e)
	return append(r, es[i:]...)
}

// held chooses an entry whose item the caller holds.
func held(es []entry) int {
	var is []int
	for i, e := range es {
		if e.item != nil {
			is = append(is, i)
		}
	}
	if len(is) == 0 {
		return -1
	}
	return is[sym.Choice(len(is))]
}

// P14Ops explores all histories of heap operations.
// bound: at most 4 stored values (quick) / 5, up to 2 (quick) / 3 of them initial, min and max order, histories of any length (state closure)
func P14Ops() {
	isMin := sym.Bool()
	cap := sz(4, 5)
	var vals []float64
	var es []entry
	for i, n := 0, sym.Choice(sz(3, 4)); i < n; i++ {
		x := sym.Float()
		vals = append(vals, x)
		es = with(es, entry{nil, x})
	}
	h := heap.New("h", vals, better(isMin))
	for {
		checkHeap(h, es, isMin)
		sym.Checkpoint(h, es, isMin)
		switch sym.Choice(4) {
		case 0:
			if len(es) == cap {
				return
			}
			x := sym.Float()
			it := &heap.Item{Val: x}
			heapops.Push(h, it)
			es = with(es, entry{it, x})
		case 1:
			if len(es) == 0 {
				return
			}
			p := h.Peek()
			it := heapops.Pop(h).(*heap.Item)
			sym.Assert(it.Val == p, "Pop returns the extreme element")
			at := -1
			for i, e := range es {
				if e.item == it {
					at = i
				}
			}
			for i, e := range es {
				if at < 0 && e.item == nil && e.val == it.Val {
					at = i
				}
			}
			sym.Assert(at >= 0, "Pop returns a stored item")
			es = drop(es, at)
			sym.Reach("pop")
		case 2:
			i := held(es)
			if i < 0 {
				return
			}
			x := sym.Float()
			h.Update(es[i].item, x)
			es = with(drop(es, i), entry{es[i].item, x})
			sym.Reach("update")
		case 3:
			i := held(es)
			if i < 0 {
				return
			}
			h.Remove(es[i].item)
			es = drop(es, i)
			sym.Reach("remove")
		}
	}
}

// P14Init drains a heap built from given values.
// bound: up to 5 initial values (quick) / 6
func P14Init() {
	isMin := sym.Bool()
	n := sym.Choice(sz(6, 7))
	var vals []float64
	for i := 0; i < n; i++ {
		vals = append(vals, sym.Float())
	}
	h := heap.New("h", append([]float64{}, vals...), better(isMin))
	s := sorted(vals)
	for i := 0; i < n; i++ {
		want := s[i]
		if !isMin {
			want = s[n-1-i]
		}
		sym.Assert(h.Peek() == want, "Peek is the next in order")
		it := heapops.Pop(h).(*heap.Item)
		sym.Assert(it.Val == want, "Pop returns the next in order")
		sym.Reach("drain")
	}
	sym.Assert(h.Len() == 0, "drained")
}

// ---- order statistics

func checkStat(s order.Statistic, ref []float64) {
	n := len(ref)
	sym.Assert(s.Size() == n, "Size is the number of stored values")
	for k := 0; k < n; k++ {
		nd := s.Select(k)
		sym.Assert(nd != nil, "Select finds every rank")
		v := nd.Value()
		sym.Assert(v == ref[k], "Select returns the k-th smallest value")
		sym.ObserveFloat("select", v)
	}
	// the rank of every stored value, of anything else and selections out of range
	for k := 0; k < n; k++ {
		r := 0
		for _, x := range ref {
			if x < ref[k] {
				r++
			}
		}
		sym.Assert(s.Rank(ref[k]) == r, "Rank of a stored value counts the smaller ones")
	}
	sym.Reach("stat")
}

// probe asks for an arbitrary rank and selection; it ends the path.
func probe(s order.Statistic, ref []float64) {
	if sym.Bool() {
		y := sym.Float()
		r := s.Rank(y)
		sym.ObserveInt("rank", r)
		want := 0
		for _, x := range ref {
			if x < y {
				want++
			}
		}
		sym.Assert(r == want, "Rank counts the smaller values")
		sym.Reach("rank")
		return
	}
	k := sym.AnyInt()
	sym.Assume(sym.Or(k < 0, k >= len(ref)))
	nd := s.Select(k)
	sym.Assert(isNil(nd), "Select out of range is nil")
	sym.Reach("out of range")
}

// isNil is what a caller of the interface can test for.
func isNil(n order.Node) bool { return n == nil }

// noNode tells whether a child is missing: a nil interface or a nil node of either tree.
func noNode(n order.Node) bool {
	switch x := n.(type) {
	case nil:
		return true
	case *avl.Node:
		return x == nil
	case *rb.Node:
		return x == nil
	}
	return false
}

// statOps explores every history of Add, Remove and Clear with at most max stored values.
func statOps(s order.Statistic, max int, each func(ref []float64)) {
	var ref []float64
	for {
		checkStat(s, ref)
		if each != nil {
			each(ref)
		}
		sym.Checkpoint(s, ref)
		switch sym.Choice(4) {
		case 0:
			if len(ref) == max {
				return
			}
			x := sym.Float()
			s.Add(x)
			ref = insert(ref, x)
		case 1:
			x := sym.Float()
			s.Remove(x)
			ref = without(ref, x)
			sym.Reach("remove")
		case 2:
			s.Clear()
			ref = nil
			sym.Reach("clear")
		case 3:
			probe(s, ref)
			return
		}
	}
}

// P11AVL explores the AVL tree.
// bound: at most 7 stored values (quick) / 9, histories of any length (state closure)
func P11AVL() { statOps(&avl.Tree{}, sz(7, 9), nil) }

// P11RB explores the red-black tree.
// bound: at most 7 stored values (quick) / 10, histories of any length (state closure)
func P11RB() { statOps(&rb.Tree{}, sz(7, 10), nil) }

func newSkip(opts ...order.Option) order.Statistic {
	s, err := skiplist.New(opts...)
	ok(err, "constructor")
	return s
}

// P12Skip explores the skip list with every level choice.
// bound: maximum level 1..3, at most 4 stored values (quick) / level 1..4, 5 values; histories of any length (state closure), probability 1/2
func P12Skip() {
	l := 1 + sym.Choice(sz(3, 4))
	statOps(newSkip(skiplist.MaxLevelOption(l), skiplist.ProbabilityOption(0.5)), sz(4, 5), nil)
}

// P12Default explores the skip list with its default options.
// bound: default maximum level 12, 3 additions (quick) / 4, then one removal of any of them or anything
func P12Default() {
	s := newSkip()
	var ref []float64
	n := 2 + sym.Choice(sz(1, 2))
	for i := 0; i < n; i++ {
		x := sym.Float()
		s.Add(x)
		ref = insert(ref, x)
	}
	checkStat(s, ref)
	x := sym.Float()
	s.Remove(x)
	ref = without(ref, x)
	checkStat(s, ref)
	sym.Reach("default levels")
}

// P12Prob uses any probability.
// bound: maximum level 3, any probability in (0,1), 2 additions, one removal, one addition
func P12Prob() {
	p := decay()
	s := newSkip(skiplist.MaxLevelOption(3), skiplist.ProbabilityOption(p))
	var ref []float64
	for i := 0; i < 3; i++ {
		x := sym.Float()
		s.Add(x)
		ref = insert(ref, x)
		if i == 1 {
			y := sym.Float()
			s.Remove(y)
			ref = without(ref, y)
		}
		checkStat(s, ref)
	}
	sym.Reach("any probability")
}

// ---- balance

type pair interface {
	Left() (order.Node, error)
	Right() (order.Node, error)
}

func kids(n order.Node) (order.Node, order.Node) {
	l, err := n.(pair).Left()
	ok(err, "left child")
	r, err := n.(pair).Right()
	ok(err, "right child")
	return l, r
}

// rootOf finds the node that is nobody's child.
func rootOf(s order.Statistic, n int) order.Node {
	var all, children []order.Node
	for k := 0; k < n; k++ {
		nd := s.Select(k)
		all = append(all, nd)
		l, r := kids(nd)
		if !noNode(l) {
			children = append(children, l)
		}
		if !noNode(r) {
			children = append(children, r)
		}
	}
	var root order.Node
	for _, nd := range all {
		child := false
		for _, c := range children {
			if c == nd {
				child = true
				break
			}
		}
		if !child {
			sym.Assert(root == nil, "the tree is connected")
			root = nd
		}
	}
	sym.Assert(root != nil, "the tree has a root")
	return root
}

// avlWalk returns the height of the subtree and checks it.
func avlWalk(n order.Node) int {
	if noNode(n) {
		return -1
	}
	l, r := kids(n)
	hl, hr := avlWalk(l), avlWalk(r)
	d := hl - hr
	sym.Assert(d >= -1 && d <= 1, "sibling heights differ by at most one")
	h := hl
	if hr > h {
		h = hr
	}
	h++
	sym.Assert(n.(*avl.Node).Height() == h, "a node reports its real height")
	if !noNode(l) {
		sym.Assert(l.Value() <= n.Value(), "search tree order on the left")
	}
	if !noNode(r) {
		sym.Assert(r.Value() >= n.Value(), "search tree order on the right")
	}
	return h
}

// P13AVL explores the balance of the AVL tree.
// bound: at most 7 stored values (quick) / 10, histories of any length (state closure)
func P13AVL() {
	t := &avl.Tree{}
	balOps(t, sz(7, 10), func(n int) { avlBalance(t, n) })
}

func avlBalance(t *avl.Tree, n int) {
	if n == 0 {
		sym.Assert(t.Height() == -1, "height of the empty tree")
		return
	}
	root := rootOf(t, n)
	h := avlWalk(root)
	sym.Assert(t.Height() == h, "the tree reports its real height")
	sym.ObserveInt("height", h)
	sym.Reach("avl balance")
}

// rbWalk returns the black height and the number of levels.
func rbWalk(n order.Node, root bool) (int, int) {
	if noNode(n) {
		return 0, 0
	}
	l, r := kids(n)
	red := n.(*rb.Node).Color() == rb.Red && !root
	if red {
		sym.Assert(l.(*rb.Node).Color() == rb.Black, "a red node has no red left child")
		sym.Assert(r.(*rb.Node).Color() == rb.Black, "a red node has no red right child")
	}
	bl, dl := rbWalk(l, false)
	br, dr := rbWalk(r, false)
	sym.Assert(bl == br, "every path holds the same number of black nodes")
	if dr > dl {
		dl = dr
	}
	if !red {
		bl++
	}
	return bl, dl + 1
}

// P13RB explores the balance of the red-black tree.
// bound: at most 8 stored values (quick) / 10, histories of any length (state closure)
func P13RB() {
	t := &rb.Tree{}
	balOps(t, sz(8, 10), func(n int) { rbBalance(t, n) })
}

func rbBalance(t *rb.Tree, n int) {
	if n == 0 {
		return
	}
	_, d := rbWalk(rootOf(t, n), true)
	// d <= 2 log2(n+1)  iff  2^d <= (n+1)^2
	sym.Assert(1<<uint(d) <= (n+1)*(n+1), "depth is at most 2 log2(n+1)")
	sym.ObserveInt("depth", d)
	sym.Reach("red-black balance")
}

// balOps explores every history of Add and Remove of stored values.
func balOps(s order.Statistic, max int, each func(n int)) {
	var ref []float64
	for {
		each(len(ref))
		resolve(ref)
		sym.Checkpoint(s, ref)
		if sym.Bool() {
			if len(ref) == max {
				return
			}
			x := sym.Float()
			s.Add(x)
			ref = insert(ref, x)
		} else {
			x := sym.Float()
			s.Remove(x)
			ref = without(ref, x)
			sym.Reach("remove")
		}
	}
}

// resolve decides which of the sorted values are equal.
func resolve(ref []float64) {
	n := 0
	for i := 1; i < len(ref); i++ {
		if ref[i-1] == ref[i] {
			n++
		}
	}
}

// ---- values that are all different

// fresh is an arbitrary value that differs from the sorted ones, and its position.
func fresh(ref []float64) (float64, int) {
	i := sym.Choice(len(ref) + 1)
	x := sym.Float()
	if i > 0 {
		sym.Assume(ref[i-1] < x)
	}
	if i < len(ref) {
		sym.Assume(x < ref[i])
	}
	return x, i
}

func put(ref []float64, i int, x float64) []float64 {
	r := append([]float64{}, ref[:i]...)
	r = append(r, x)
	return append(r, ref[i:]...)
}

func takeOut(ref []float64, i int) []float64 {
	r := append([]float64{}, ref[:i]...)
	return append(r, ref[i+1:]...)
}

// distinctOps explores every history of Add and Remove of different values.
func distinctOps(s order.Statistic, max int, each func(ref []float64)) {
	var ref []float64
	for {
		each(ref)
		sym.Checkpoint(s, ref)
		if sym.Bool() {
			if len(ref) == max {
				return
			}
			x, i := fresh(ref)
			s.Add(x)
			ref = put(ref, i, x)
		} else {
			if len(ref) == 0 {
				return
			}
			i := sym.Choice(len(ref))
			s.Remove(ref[i])
			ref = takeOut(ref, i)
			sym.Reach("remove")
		}
	}
}

// P11AVLDistinct explores larger AVL trees.
// bound: at most 10 stored values, all different (quick) / 14, histories of any length (state closure)
func P11AVLDistinct() {
	t := &avl.Tree{}
	distinctOps(t, sz(10, 14), func(ref []float64) { checkStat(t, ref) })
}

// P11RBDistinct explores larger red-black trees.
// bound: at most 12 stored values, all different (quick) / 17, histories of any length (state closure)
func P11RBDistinct() {
	t := &rb.Tree{}
	distinctOps(t, sz(12, 17), func(ref []float64) { checkStat(t, ref) })
}

// P13AVLDistinct explores the balance of larger AVL trees.
// bound: at most 10 stored values, all different (quick) / 15, histories of any length (state closure)
func P13AVLDistinct() {
	t := &avl.Tree{}
	distinctOps(t, sz(10, 15), func(ref []float64) { avlBalance(t, len(ref)) })
}

// P13RBDistinct explores the balance of larger red-black trees.
// bound: at most 13 stored values, all different (quick) / 18, histories of any length (state closure)
func P13RBDistinct() {
	t := &rb.Tree{}
	distinctOps(t, sz(13, 18), func(ref []float64) { rbBalance(t, len(ref)) })
}

// P14Distinct explores larger heaps, every item held by the caller.
// bound: at most 6 stored values, all different (quick) / 8, min and max order, histories of any length (state closure)
func P14Distinct() {
	isMin := sym.Bool()
	max := sz(6, 8)
	h := heap.New("h", nil, better(isMin))
	var es []entry
	vals := func() []float64 {
		var r []float64
		for _, e := range es {
			r = append(r, e.val)
		}
		return r
	}
	for {
		checkHeap(h, es, isMin)
		sym.Checkpoint(h, es, isMin)
		switch sym.Choice(4) {
		case 0:
			if len(es) == max {
				return
			}
			x, _ := fresh(vals())
			it := &heap.Item{Val: x}
			heapops.Push(h, it)
			es = with(es, entry{it, x})
		case 1:
			if len(es) == 0 {
				return
			}
			at := 0
			if !isMin {
				at = len(es) - 1
			}
			it := heapops.Pop(h).(*heap.Item)
			sym.Assert(it == es[at].item, "Pop returns the extreme item")
			es = drop(es, at)
			sym.Reach("pop")
		case 2:
			i := held(es)
			if i < 0 {
				return
			}
			e := es[i]
			es = drop(es, i)
			x, _ := fresh(vals())
			h.Update(e.item, x)
			es = with(es, entry{e.item, x})
			sym.Reach("update")
		case 3:
			i := held(es)
			if i < 0 {
				return
			}
			h.Remove(es[i].item)
			es = drop(es, i)
			sym.Reach("remove")
		}
	}
}

// ---- medians and quantiles

func median(win []float64) float64 {
	s := sorted(win)
	n := len(s)
	if n%2 == 1 {
		return s[n/2]
	}
	return (s[n/2-1] + s[n/2]) / 2
}

type valuer interface {
	Push(float64) error
	Value() (float64, error)
	Clear()
}

// slideOps explores every history of Push and Clear in a window.
func slideOps(m valuer, w int, check func(win []float64)) {
	var win []float64
	for {
		sym.Checkpoint(m, win)
		if sym.Choice(4) == 3 {
			m.Clear()
			win = nil
		} else {
			x := sym.Float()
			ok(m.Push(x), "push")
			win = slide(win, x, w)
		}
		check(win)
	}
}

// P09Window explores HeapMedian with a window.
// flags: ring=fifo
// bound: windows 1..4 (quick) / 1..5, histories of any length (state closure)
func P09Window() {
	w := 1 + sym.Choice(sz(4, 5))
	m, err := quantile.NewHeapMedian(w)
	ok(err, "constructor")
	slideOps(m, w, func(win []float64) {
		v, err := m.Value()
		if len(win) == 0 {
			bad(err, "median of nothing")
			return
		}
		expect(v, err, median(win), "median")
		sym.Reach("median")
	})
}

// P09Global explores HeapMedian without a window.
// bound: 5 pushes (quick) / 6, one Clear anywhere
func P09Global() {
	m := quantile.NewGlobalHeapMedian()
	if sym.Bool() {
		var err error
		m, err = quantile.NewHeapMedian(0)
		ok(err, "constructor")
	}
	n := sz(5, 6)
	drive(0, n, m.Push, m.Clear, func(win []float64) {
		v, err := m.Value()
		if len(win) == 0 {
			bad(err, "median of nothing")
			return
		}
		expect(v, err, median(win), "median")
		sym.Reach("median")
	})
}

// P09Real repeats a bounded history with the real queue.
// bound: windows 1..4, window+2 pushes
func P09Real() {
	w := 1 + sym.Choice(sz(3, 4))
	m, err := quantile.NewHeapMedian(w)
	ok(err, "constructor")
	var win []float64
	for i := 0; i < w+2; i++ {
		x := sym.Float()
		ok(m.Push(x), "push")
		win = slide(win, x, w)
		v, err := m.Value()
		expect(v, err, median(win), "median")
	}
	sym.Reach("real queue")
}

// impl is any backing structure; the skip list gets few levels.
func impl(levels int) quantile.Option { return implOf(sym.Choice(3), levels) }

func implOf(i, levels int) quantile.Option {
	switch i {
	case 0:
		return quantile.ImplOption(quantile.AVL)
	case 1:
		return quantile.ImplOption(quantile.RedBlack)
	}
	return quantile.ImplOption(quantile.SkipList, skiplist.MaxLevelOption(levels), skiplist.ProbabilityOption(0.5))
}

// interpolate is the documented q-quantile of the sorted values.
func interpolate(s []float64, q float64, mode quantile.Interpolation) float64 {
	n := len(s)
	raw := q * float64(n-1)
	i := 0
	for i+1 < n && float64(i+1) <= raw {
		i++
	}
	if raw == float64(i) {
		return s[i]
	}
	d := raw - float64(i)
	lo, hi := s[i], s[i+1]
	switch mode {
	case quantile.Linear:
		return (1-d)*lo + d*hi
	case quantile.Lower:
		return lo
	case quantile.Higher:
		return hi
	case quantile.Midpoint:
		return (lo + hi) / 2
	}
	if d < 0.5 || d == 0.5 && i%2 == 0 {
		return lo
	}
	return hi
}

func checkQuantile(m *quantile.Quantile, mode quantile.Interpolation, win []float64, q float64) {
	v, err := m.Value(q)
	if len(win) == 0 {
		bad(err, "quantile of nothing")
		return
	}
	expect(v, err, interpolate(sorted(win), q, mode), "quantile")
	sym.Reach("quantile")
}

// P08Window explores every structure and mode with a window.
// flags: ring=fifo
// bound: windows 1..3 (quick) / 1..4, any q, histories of any length (state closure); skip list with maximum level 2
func P08Window() {
	w := 1 + sym.Choice(sz(3, 4))
	mode := quantile.Interpolation(sym.Choice(5))
	m, err := quantile.New(w, impl(2), quantile.InterpolationOption(mode))
	ok(err, "constructor")
	var win []float64
	for {
		sym.Checkpoint(m, win)
		switch sym.Choice(5) {
		case 3:
			m.Clear()
			win = nil
		case 4:
			checkQuantile(m, mode, win, decay())
			return
		default:
			x := sym.Float()
			ok(m.Push(x), "push")
			win = slide(win, x, w)
		}
	}
}

// P08Global asks quantiles of everything.
// bound: 4 values (quick) / 5, one Clear anywhere, any q; the default structure and mode as well
func P08Global() {
	mode := quantile.Interpolation(sym.Choice(6))
	var m *quantile.Quantile
	var err error
	if mode == 5 {
		mode = quantile.Linear
		m, err = quantile.NewGlobalQuantile()
	} else if sym.Bool() {
		m, err = quantile.NewGlobalQuantile(quantile.InterpolationOption(mode), impl(2))
	} else {
		m, err = quantile.New(0, impl(2), quantile.InterpolationOption(mode))
	}
	ok(err, "constructor")
	n := 1 + sym.Choice(sz(4, 5))
	clearAt := sym.Choice(n) - 1
	var win []float64
	for i := 0; i < n; i++ {
		if i == clearAt {
			m.Clear()
			win = nil
		}
		x := sym.Float()
		ok(m.Push(x), "push")
		win = slide(win, x, 0)
	}
	checkQuantile(m, mode, win, decay())
}

// P08Wide asks quantiles of larger windows filled in increasing or decreasing order.
// bound: windows 5..8, window+1 pushes of a monotone sequence with ties, any q
func P08Wide() {
	w := 5 + sym.Choice(sz(3, 4))
	mode := quantile.Interpolation(sym.Choice(5))
	up := sym.Bool()
	m, err := quantile.New(w, impl(1), quantile.InterpolationOption(mode))
	ok(err, "constructor")
	var win []float64
	x := sym.Float()
	for i := 0; i <= w; i++ {
		d := sym.Float()
		sym.Assume(d > 0)
		if i%3 != 2 {
			if up {
				x += d
			} else {
				x -= d
			}
		}
		ok(m.Push(x), "push")
		win = slide(win, x, w)
	}
	checkQuantile(m, mode, win, decay())
}

// P08Real repeats a bounded history with the real queue and default skip list options.
// bound: windows 1..3, window+1 pushes
func P08Real() {
	w := 1 + sym.Choice(3)
	im := quantile.Impl(sym.Choice(3))
	levels := skiplist.MaxLevelOption(3)
	opt := quantile.ImplOption(im)
	if im == quantile.SkipList {
		opt = quantile.ImplOption(im, levels)
	}
	m, err := quantile.New(w, opt)
	ok(err, "constructor")
	var win []float64
	for i := 0; i < w+1; i++ {
		x := sym.Float()
		ok(m.Push(x), "push")
		win = slide(win, x, w)
	}
	checkQuantile(m, quantile.Linear, win, decay())
}

func iqr(win []float64) float64 {
	s := sorted(win)
	return interpolate(s, 0.75, quantile.Midpoint) - interpolate(s, 0.25, quantile.Midpoint)
}

// userOptions are options a user may pass in any order, an interpolation among them.
func userOptions() []quantile.Option {
	o := []quantile.Option{impl(2)}
	switch sym.Choice(3) {
	case 1:
		o = append(o, quantile.InterpolationOption(quantile.Lower))
	case 2:
		o = append([]quantile.Option{quantile.InterpolationOption(quantile.Higher)}, o...)
	}
	return o
}

// P10Median explores Median.
// flags: ring=fifo
// bound: windows 1..3 (quick) / 1..4, histories of any length (state closure); skip list with maximum level 2
func P10Median() {
	w := 1 + sym.Choice(sz(3, 4))
	m, err := quantile.NewMedian(w, userOptions()...)
	ok(err, "constructor")
	slideOps(m, w, func(win []float64) {
		v, err := m.Value()
		if len(win) == 0 {
			bad(err, "median of nothing")
			return
		}
		expect(v, err, median(win), "median")
		sym.Reach("median")
	})
}

// P10IQR explores IQR.
// flags: ring=fifo
// bound: windows 1..3 (quick) / 1..4, histories of any length (state closure); skip list with maximum level 2
func P10IQR() {
	w := 1 + sym.Choice(sz(3, 4))
	m, err := quantile.NewIQR(w, userOptions()...)
	ok(err, "constructor")
	slideOps(m, w, func(win []float64) {
		v, err := m.Value()
		if len(win) == 0 {
			bad(err, "IQR of nothing")
			return
		}
		expect(v, err, iqr(win), "IQR")
		sym.Assert(v >= 0, "IQR is not negative")
		sym.Reach("IQR")
	})
}

// P10Global computes Median and IQR over everything.
// bound: 4 pushes (quick) / 5, one Clear anywhere; skip list with maximum level 1
func P10Global() {
	opts := []quantile.Option{impl(1)}
	var m *quantile.Median
	var r *quantile.IQR
	var err, err2 error
	if sym.Bool() {
		m, err = quantile.NewGlobalMedian(opts...)
		r, err2 = quantile.NewGlobalIQR(opts...)
	} else {
		m, err = quantile.NewMedian(0, opts...)
		r, err2 = quantile.NewIQR(0, opts...)
	}
	ok(err, "constructor")
	ok(err2, "constructor")
	two := func(x float64) error {
		ok(r.Push(x), "push")
		return m.Push(x)
	}
	clear := func() { m.Clear(); r.Clear() }
	drive(0, sz(4, 5), two, clear, func(win []float64) {
		v, err := m.Value()
		u, err2 := r.Value()
		if len(win) == 0 {
			bad(err, "median of nothing")
			bad(err2, "IQR of nothing")
			return
		}
		expect(v, err, median(win), "median")
		expect(u, err2, iqr(win), "IQR")
		sym.Assert(u >= 0, "IQR is not negative")
		sym.Reach("global")
	})
}
