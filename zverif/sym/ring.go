package sym

import (
	"errors"
	"runtime"
)

var errDisposed = errors.New("queue: disposed")

// Ring is a FIFO model of the third-party RingBuffer, used where histories of any length are
// explored (the real one counts positions without bound). Its capacity is rounded up to a power
// of two, and Put and Get block like the original.
type Ring struct {
	items    []interface{}
	size     int
	disposed bool
}

// RingNew models NewRingBuffer.
func RingNew(size uint64) *Ring {
	n := 0
	if size > 0 {
		n = 1
		for uint64(n) < size {
			n *= 2
		}
	}
	return &Ring{size: n}
}

// RingPut models Put.
func RingPut(r *Ring, item interface{}) error {
	if r.size == 0 {
		panic("runtime error: index out of range (empty ring buffer)")
	}
	if r.disposed {
		return errDisposed
	}
	for len(r.items) >= r.size {
		runtime.Gosched()
	}
	n := make([]interface{}, len(r.items)+1)
	copy(n, r.items)
	n[len(r.items)] = item
	r.items = n
	return nil
}

// RingOffer models Offer.
func RingOffer(r *Ring, item interface{}) (bool, error) {
	if r.disposed {
		return false, errDisposed
	}
	if len(r.items) >= r.size {
		return false, nil
	}
	return true, RingPut(r, item)
}

// RingGet models Get.
func RingGet(r *Ring) (interface{}, error) {
	if r.size == 0 {
		panic("runtime error: index out of range (empty ring buffer)")
	}
	if r.disposed {
		return nil, errDisposed
	}
	for len(r.items) == 0 {
		runtime.Gosched()
	}
	x := r.items[0]
	n := make([]interface{}, len(r.items)-1)
	copy(n, r.items[1:])
	r.items = n
	return x, nil
}

// RingLen models Len.
func RingLen(r *Ring) uint64 { return uint64(len(r.items)) }

// RingCap models Cap.
func RingCap(r *Ring) uint64 { return uint64(r.size) }

// RingDispose models Dispose.
func RingDispose(r *Ring) { r.disposed = true }

// RingIsDisposed models IsDisposed.
func RingIsDisposed(r *Ring) bool { return r.disposed }
