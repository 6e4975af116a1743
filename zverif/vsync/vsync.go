// Package vsync replaces package sync in replays of schedules: one goroutine runs at a time and
// every scheduling decision comes from the script, exactly as under gosym. With Real set, the
// real primitives are used (stress runs under the race detector).
package vsync

import (
	"fmt"
	"runtime"
	"strings"
	rsync "sync"

	"github.com/alexander-yu/stream/zverif/sym"
)

type (
	// Locker is sync.Locker.
	Locker = rsync.Locker
	// Map is sync.Map.
	Map = rsync.Map
	// Pool is sync.Pool.
	Pool = rsync.Pool
	// Cond is sync.Cond.
	Cond = rsync.Cond
)

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return rsync.NewCond(l) }

// Real selects the real primitives.
var Real bool

// Result of a goroutine other than the main one.
var abortV interface{}

type g struct {
	id     int
	resume chan bool
	wait   func() bool
	what   string
	done   bool
	admit  bool
}

var (
	gs     []*g
	cur    *g
	conc   bool
	script []int
	pos    int
	// Diverged reports that the run did not follow the script.
	Diverged string
	aborted  bool
)

type killed struct{}

// Start prepares a controlled run.
func Start(s []int) {
	script, pos, Diverged, aborted, abortV, conc = s, 0, "", false, nil, false
	cur = &g{resume: make(chan bool)}
	gs = []*g{cur}
}

func enabled() []*g {
	var out []*g
	for _, x := range gs {
		if !x.done && (x.wait == nil || x.wait()) {
			out = append(out, x)
		}
	}
	return out
}

func transfer(from, to *g) {
	if from == to {
		return
	}
	cur = to
	to.resume <- true
	if from.done {
		return
	}
	if !<-from.resume {
		runtime.Goexit()
	}
	if from.id == 0 && aborted {
		panic(abortV)
	}
	cur = from
}

func pick(en []*g) *g {
	if pos >= len(script) {
		if Diverged == "" {
			Diverged = "script exhausted"
		}
		return en[0]
	}
	id := script[pos]
	pos++
	for _, x := range en {
		if x.id == id {
			return x
		}
	}
	if Diverged == "" {
		Diverged = fmt.Sprintf("goroutine %d is not enabled at step %d", id, pos-1)
	}
	return en[0]
}

func switchFrom(me *g) {
	en := enabled()
	if len(en) == 0 {
		var what []string
		for _, x := range gs {
			if !x.done {
				what = append(what, fmt.Sprintf("g%d waits for %s", x.id, x.what))
			}
		}
		if len(what) == 0 {
			return
		}
		panic(sym.Failure{Msg: "deadlock: " + strings.Join(what, "; ")})
	}
	transfer(me, pick(en))
}

func yield() {
	if !conc {
		return
	}
	me := cur
	if pos >= len(script) {
		// the recorded part is over: let the current goroutine run on
		return
	}
	if script[pos] == me.id {
		pos++
		return
	}
	t := pick(enabled())
	if t != me {
		transfer(me, t)
	}
}

func block(what string, cond func() bool) {
	me := cur
	if cond() {
		return
	}
	me.wait, me.what = cond, what
	for !cond() {
		switchFrom(me)
	}
	me.wait = nil
}

// Go starts a goroutine.
func Go(f func()) {
	if Real {
		go f()
		return
	}
	conc = true
	x := &g{id: len(gs), resume: make(chan bool)}
	gs = append(gs, x)
	go func() {
		if !<-x.resume {
			return
		}
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			abortV = r
			aborted = true
			x.done = true
			gs[0].resume <- true
		}()
		f()
		x.done = true
		switchFrom(x)
	}()
}

// Gosched yields to another goroutine.
func Gosched() {
	if Real {
		runtime.Gosched()
		return
	}
	if !conc {
		return
	}
	var oth []*g
	for _, x := range enabled() {
		if x != cur {
			oth = append(oth, x)
		}
	}
	if len(oth) > 0 {
		transfer(cur, pick(oth))
	}
}

// Mutex replaces sync.Mutex.
type Mutex struct {
	r    rsync.Mutex
	held bool
}

// Lock locks.
func (m *Mutex) Lock() {
	if Real {
		m.r.Lock()
		return
	}
	yield()
	block("Mutex.Lock", func() bool { return !m.held })
	m.held = true
}

// TryLock tries to lock.
func (m *Mutex) TryLock() bool {
	if Real {
		return m.r.TryLock()
	}
	yield()
	if m.held {
		return false
	}
	m.held = true
	return true
}

// Unlock unlocks.
func (m *Mutex) Unlock() {
	if Real {
		m.r.Unlock()
		return
	}
	if !m.held {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	m.held = false
}

// RWMutex replaces sync.RWMutex.
type RWMutex struct {
	r             rsync.RWMutex
	held, pending bool
	readers       int
	waiting       []*g
}

// Lock locks for writing.
func (m *RWMutex) Lock() {
	if Real {
		m.r.Lock()
		return
	}
	yield()
	block("RWMutex.Lock (another writer)", func() bool { return !m.held && !m.pending })
	m.pending = true
	if m.readers > 0 {
		block("RWMutex.Lock (readers)", func() bool { return m.readers == 0 })
	}
	m.pending = false
	m.held = true
}

// Unlock unlocks.
func (m *RWMutex) Unlock() {
	if Real {
		m.r.Unlock()
		return
	}
	if !m.held {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.held = false
	for _, x := range m.waiting {
		x.admit = true
		m.readers++
	}
	m.waiting = nil
}

// RLock locks for reading.
func (m *RWMutex) RLock() {
	if Real {
		m.r.RLock()
		return
	}
	yield()
	if m.held || m.pending {
		me := cur
		me.admit = false
		m.waiting = append(m.waiting, me)
		block("RWMutex.RLock", func() bool { return me.admit })
		me.admit = false
		return
	}
	m.readers++
}

// RUnlock unlocks.
func (m *RWMutex) RUnlock() {
	if Real {
		m.r.RUnlock()
		return
	}
	if m.readers == 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
}

// RLocker is not modelled.
func (m *RWMutex) RLocker() Locker { panic("RLocker is not modelled") }

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	r rsync.WaitGroup
	n int
}

// Add adds.
func (w *WaitGroup) Add(n int) {
	if Real {
		w.r.Add(n)
		return
	}
	w.n += n
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

// Done is Add(-1).
func (w *WaitGroup) Done() { w.Add(-1) }

// Wait waits.
func (w *WaitGroup) Wait() {
	if Real {
		w.r.Wait()
		return
	}
	yield()
	block("WaitGroup.Wait", func() bool { return w.n == 0 })
}

// Once replaces sync.Once.
type Once struct {
	r         rsync.Once
	run, done bool
}

// Do runs f once.
func (o *Once) Do(f func()) {
	if Real {
		o.r.Do(f)
		return
	}
	yield()
	if o.run && !o.done {
		block("Once.Do", func() bool { return o.done })
	}
	if !o.done {
		o.run = true
		defer func() { o.done = true }()
		f()
	}
}
