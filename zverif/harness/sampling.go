package harness

import (
	"strconv"

	"github.com/alexander-yu/stream/sample"
	"github.com/alexander-yu/stream/zverif/sym"
)

// P24Uniform computes the exact distribution of a reservoir.
// bound: sizes 1..6 (quick) / 1..7, up to size+3 pushes; every outcome of the random draws, weighted by its probability
func P24Uniform() {
	a := sym.Choice(sz(6, 7))
	b := sym.Choice(4)
	size := a + 1
	n := size + b
	r := &sample.Reservoir{Size: size}
	for i := 0; i < n; i++ {
		r.Push(i)
	}
	held := 0
	for _, v := range r.Sample() {
		held |= 1 << v.(int)
	}
	head := "a=" + strconv.Itoa(a) + ",b=" + strconv.Itoa(b) + ": "
	// every subset is as likely as any other
	total := 0
	for s := 0; s < 1<<n; s++ {
		if bits(s) == size {
			total++
		}
	}
	for s := 0; s < 1<<n; s++ {
		if bits(s) == size {
			sym.Tally(head+"a reservoir of size "+strconv.Itoa(size)+" holding the items of mask "+strconv.Itoa(s)+" of "+strconv.Itoa(n), held == s, 1, total)
		}
	}
	sym.Reach("uniform")
}

// P24Last computes the exact distribution of the last push into a large reservoir.
// bound: sizes 1, 5, 16 and 40, stream lengths size+1, 2*size, 3*size+7 (quick) / also 9*size+1; earlier draws of one fixed pattern, the last one any
func P24Last() {
	sizes := []int{1, 5, 16, 40}
	a := sym.Choice(len(sizes))
	b := sym.Choice(sz(3, 4))
	size := sizes[a]
	n := []int{size + 1, 2 * size, 3*size + 7, 9*size + 1}[b]
	r := &sample.Reservoir{Size: size}
	sym.FixedDraws(true)
	for i := 0; i < n-1; i++ {
		r.Push(i)
	}
	before := r.Sample()
	sym.Assert(len(before) == size || len(before) == n-1 && n-1 < size, "a reservoir holds as many items as fit")
	sym.FixedDraws(false)
	r.Push(n - 1)
	after := r.Sample()
	sym.Assert(len(after) == size, "a full reservoir stays full")
	slot := -1
	for i := range before {
		if after[i] != before[i] {
			sym.Assert(slot < 0, "an item enters a reservoir at most once")
			sym.Assert(after[i] == n-1, "a reservoir replaces an item by the new one")
			slot = i
		}
	}
	if len(before) < size {
		sym.Assert(after[size-1] == n-1 && slot < 0, "a reservoir keeps the first items as they come")
		return
	}
	head := "a=" + strconv.Itoa(a) + ",b=" + strconv.Itoa(b) + ": of " + strconv.Itoa(n) + " items the last "
	for i := 0; i < size; i++ {
		sym.Tally(head+"in slot "+strconv.Itoa(i), slot == i, 1, n)
	}
	sym.Tally(head+"left out", slot < 0, n-size, n)
	sym.Reach("last")
}

func bits(s int) int {
	n := 0
	for ; s > 0; s >>= 1 {
		n += s & 1
	}
	return n
}

// P24Steps follows a reservoir push by push.
// bound: sizes -1..3 (quick) / -1..4, size+3 pushes; every outcome of the random draws; items are ints, strings and nil
func P24Steps() {
	size := sym.Choice(sz(5, 6)) - 1
	r := &sample.Reservoir{Size: size}
	sym.Assert(len(r.Sample()) == 0, "a new reservoir is empty")
	n := size + 3
	if size < 0 {
		n = 3
	}
	items := make([]interface{}, n)
	for i := range items {
		switch i % 3 {
		case 0:
			items[i] = i
		case 1:
			items[i] = strconv.Itoa(i)
		}
	}
	if n > 5 {
		items[5] = 5.0
	}
	before := r.Sample()
	for i, x := range items {
		r.Push(x)
		after := r.Sample()
		if i < size {
			sym.Assert(len(after) == i+1, "a reservoir keeps items until it is full")
			sym.Assert(after[i] == x, "a reservoir keeps the first items as they come")
		} else if size > 0 {
			sym.Assert(len(after) == size, "a full reservoir stays full")
		} else {
			sym.Assert(len(after) == 0, "a reservoir without room holds nothing")
		}
		changed := 0
		for j := range before {
			if after[j] != before[j] {
				changed++
				sym.Assert(after[j] == x, "a reservoir replaces an item by the new one")
			}
		}
		sym.Assert(changed <= 1, "an item enters a reservoir at most once")
		sym.Assert(i >= size || changed == 0, "nothing is replaced before a reservoir is full")
		// what a caller does to the copy does not matter
		kept := append([]interface{}{}, after...)
		for j := range after {
			after[j] = "edited"
		}
		after = append(after, "extra")
		again := r.Sample()
		sym.Assert(len(again) == len(kept), "Sample returns a copy")
		for j := range kept {
			sym.Assert(again[j] == kept[j], "Sample returns a copy")
		}
		before = again
		sym.Reach("step")
	}
	old := r.Sample()
	kept := append([]interface{}{}, old...)
	r.Push("late")
	r.Push("later")
	for j := range kept {
		sym.Assert(old[j] == kept[j], "later pushes do not change a sample taken before")
	}
}
