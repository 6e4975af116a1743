package main

import (
	"fmt"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// G is a goroutine of the program under execution. Exactly one runs at a time.
type G struct {
	id       int
	resume   chan bool // false = killed
	wait     func() bool
	waitWhat string
	done     bool
	vc       []int
	admitted bool
	spins    int
	lockset  int
}

type shadow struct {
	wg, wc int // last write: goroutine, clock
	wfr    string
	reads  map[int]int
	rfr    map[int]string
}

type mutexState struct {
	held   bool
	holder int
	vc     []int
	// rw
	pending bool
	readers int
	rvc     []int
	waiting []*G
	cnt     int  // waitgroup
	once    bool // once done
	onceRun bool
	condQ   []*G
}

type Sched struct {
	p       *Path
	gs      []*G
	cur     *G
	trace   []int // scheduling decisions (goroutine ids)
	preempt int
	maxPre  int
	maxSync int // synchronisation operations on one schedule
	mux     map[*Value]*mutexState
	atomVC  map[*Value][]int
	shadowM map[interface{}]*shadow
	conc    bool // more than one goroutine was ever started
	wg      sync.WaitGroup
	abort   interface{}
	aborted bool
	mainCh  chan bool
	races   bool
	visible int
	one     bool // a single schedule
	delays  int  // >= 0: bound on all departures from the first enabled goroutine
}

func newSched(p *Path, maxPre int) *Sched {
	s := &Sched{p: p, maxPre: maxPre, mux: map[*Value]*mutexState{}, atomVC: map[*Value][]int{}, shadowM: map[interface{}]*shadow{}, races: true}
	g := &G{id: 0, resume: make(chan bool), vc: []int{1}}
	s.gs = []*G{g}
	s.cur = g
	return s
}

func vcJoin(a, b []int) []int {
	for len(a) < len(b) {
		a = append(a, 0)
	}
	for i := range b {
		if b[i] > a[i] {
			a[i] = b[i]
		}
	}
	return a
}
func vcCopy(a []int) []int { return append([]int{}, a...) }

func (g *G) tick() {
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id]++
}

func (p *Path) spawn(fr *frame, fv Value, args []Value) {
	s := p.sch
	s.conc = true
	cur := s.cur
	g := &G{id: len(s.gs), resume: make(chan bool), vc: vcCopy(cur.vc)}
	g.tick()
	cur.tick()
	alive := 0
	for _, x := range s.gs {
		if !x.done {
			alive++
		}
	}
	if alive > 256 || len(s.gs) > s.maxSync {
		panic(pathAbort{"limit", "too many goroutines"})
	}
	s.gs = append(s.gs, g)
	s.wg.Add(1)
	go func() {
		defer s.wg.Done()
		if !<-g.resume {
			return
		}
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			if pa, ok := r.(pathAbort); ok && pa.kind == "killed" {
				return
			}
			if tp, ok := r.(targetPanic); ok {
				func() {
					defer func() { r = recover() }()
					p.reportPanic(tp, nil)
				}()
			}
			// hand the abort to the main goroutine
			s.abort = r
			s.aborted = true
			g.done = true
			s.gs[0].resume <- true
		}()
		p.call(nil, g, fv, args)
		g.done = true
		g.tick()
		s.switchFrom(g)
	}()
}

func (p *Path) reportPanic(tp targetPanic, fr *frame) {
	msg := "panic"
	if i, ok := tp.v.(Iface); ok {
		switch x := i.v.(type) {
		case string:
			msg = "panic: " + x
		case *SymStr:
			msg = "panic: " + x.String()
		default:
			msg = fmt.Sprintf("panic: value of type %v", i.t)
		}
	}
	p.report("panic", msg, "", p.model, p.modelOK)
}

func (s *Sched) enabled() []*G {
	var out []*G
	for _, g := range s.gs {
		if g.done {
			continue
		}
		if g.wait == nil || g.wait() {
			out = append(out, g)
		}
	}
	return out
}

// resumeG hands the processor to g; the caller then waits for its own turn (unless finished).
func (s *Sched) transfer(from, to *G) {
	if from == to {
		return
	}
	s.cur = to
	to.resume <- true
	if from.done {
		return
	}
	if !<-from.resume {
		panic(pathAbort{"killed", ""})
	}
	if from.id == 0 && s.aborted {
		panic(s.abort)
	}
	s.cur = from
}

// switchFrom picks the next goroutine when the current one cannot continue.
func (s *Sched) switchFrom(g *G) {
	en := s.enabled()
	if len(en) == 0 {
		alive := 0
		var what []string
		for _, x := range s.gs {
			if !x.done {
				alive++
				what = append(what, fmt.Sprintf("g%d waits for %s", x.id, x.waitWhat))
			}
		}
		if alive == 0 {
			return
		}
		s.p.report("deadlock", "deadlock: "+strings.Join(what, "; "), "", s.p.model, s.p.modelOK)
	}
	k := 0
	if len(en) > 1 && !s.one && (s.delays < 0 || s.preempt < s.delays) {
		k = s.p.choose(len(en))
		if k > 0 && s.delays >= 0 {
			s.preempt++
		}
	}
	s.trace = append(s.trace, en[k].id)
	s.transfer(g, en[k])
}

// yield is a scheduling point before a visible operation of the current goroutine.
func (p *Path) yield(what string) {
	s := p.sch
	if !s.conc || p.initing > 0 {
		return
	}
	g := s.cur
	s.visible++
	if s.visible > s.maxSync {
		panic(pathAbort{"limit", fmt.Sprintf("over %d synchronisation operations on one schedule", s.maxSync)})
	}
	if s.one || s.maxPre >= 0 && s.preempt >= s.maxPre {
		s.trace = append(s.trace, g.id)
		return
	}
	en := s.enabled()
	if len(en) <= 1 {
		s.trace = append(s.trace, g.id)
		return
	}
	// current first
	ord := []*G{g}
	for _, x := range en {
		if x != g {
			ord = append(ord, x)
		}
	}
	k := p.choose(len(ord))
	s.trace = append(s.trace, ord[k].id)
	if k != 0 {
		s.preempt++
		s.transfer(g, ord[k])
	}
}

// block waits until cond holds.
func (p *Path) block(what string, cond func() bool) {
	s := p.sch
	g := s.cur
	if cond() {
		return
	}
	g.wait = cond
	g.waitWhat = what
	for !cond() {
		s.switchFrom(g)
		if !g.done && s.cur != g {
			s.cur = g
		}
	}
	g.wait = nil
}

func (p *Path) mutex(a *Value) *mutexState {
	if a == nil {
		p.rtPanic("invalid memory address or nil pointer dereference (mutex)")
	}
	m := p.sch.mux[a]
	if m == nil {
		m = &mutexState{}
		p.sch.mux[a] = m
	}
	return m
}

func (p *Path) lockMutex(a *Value, what string) {
	m := p.mutex(a)
	p.yield(what)
	p.block(what, func() bool { return !m.held })
	m.held = true
	m.holder = p.sch.cur.id
	p.sch.cur.vc = vcJoin(p.sch.cur.vc, m.vc)
}

func (p *Path) unlockMutex(a *Value) {
	m := p.mutex(a)
	if !m.held {
		panic(targetPanic{Iface{t: tString, v: "fatal error: sync: unlock of unlocked mutex"}})
	}
	m.held = false
	m.vc = vcCopy(p.sch.cur.vc)
	p.sch.cur.tick()
}

func (p *Path) rwLock(a *Value) {
	m := p.mutex(a)
	p.yield("RWMutex.Lock")
	p.block("RWMutex.Lock (another writer)", func() bool { return !m.held && !m.pending })
	m.pending = true
	if m.readers > 0 {
		// other goroutines may run between the announcement and the acquisition
		p.block("RWMutex.Lock (readers)", func() bool { return m.readers == 0 })
	}
	m.pending = false
	m.held = true
	m.holder = p.sch.cur.id
	p.sch.cur.vc = vcJoin(vcJoin(p.sch.cur.vc, m.vc), m.rvc)
}

func (p *Path) rwUnlock(a *Value) {
	m := p.mutex(a)
	if !m.held {
		panic(targetPanic{Iface{t: tString, v: "fatal error: sync: Unlock of unlocked RWMutex"}})
	}
	m.held = false
	m.vc = vcCopy(p.sch.cur.vc)
	p.sch.cur.tick()
	for _, g := range m.waiting {
		g.admitted = true
		m.readers++
	}
	m.waiting = nil
}

func (p *Path) rwRLock(a *Value) {
	m := p.mutex(a)
	p.yield("RWMutex.RLock")
	g := p.sch.cur
	if m.held || m.pending {
		g.admitted = false
		m.waiting = append(m.waiting, g)
		p.block("RWMutex.RLock", func() bool { return g.admitted })
		g.admitted = false
	} else {
		m.readers++
	}
	g.vc = vcJoin(g.vc, m.vc)
}

func (p *Path) rwRUnlock(a *Value) {
	m := p.mutex(a)
	if m.readers == 0 {
		panic(targetPanic{Iface{t: tString, v: "fatal error: sync: RUnlock of unlocked RWMutex"}})
	}
	m.readers--
	m.rvc = vcJoin(m.rvc, p.sch.cur.vc)
	p.sch.cur.tick()
}

func (p *Path) wgAdd(a *Value, n int64) {
	m := p.mutex(a)
	m.cnt += int(n)
	if m.cnt < 0 {
		panic(targetPanic{Iface{t: tString, v: "sync: negative WaitGroup counter"}})
	}
	m.vc = vcJoin(m.vc, p.sch.cur.vc)
	if n < 0 {
		p.sch.cur.tick()
	}
}

func (p *Path) wgWait(a *Value) {
	m := p.mutex(a)
	p.yield("WaitGroup.Wait")
	p.block("WaitGroup.Wait", func() bool { return m.cnt == 0 })
	p.sch.cur.vc = vcJoin(p.sch.cur.vc, m.vc)
}

func (p *Path) gosched() {
	s := p.sch
	g := s.cur
	g.spins++
	if !s.conc || len(s.enabled()) <= 1 {
		if g.spins > 40 {
			p.report("hang", "livelock: a busy wait that nothing can end", "", p.model, p.modelOK)
		}
		return
	}
	if g.spins > 200 {
		p.report("hang", "livelock: a busy wait that nothing ended", "", p.model, p.modelOK)
	}
	// forced switch to another goroutine
	var oth []*G
	for _, x := range s.enabled() {
		if x != g {
			oth = append(oth, x)
		}
	}
	k := p.choose(len(oth))
	s.trace = append(s.trace, oth[k].id)
	s.transfer(g, oth[k])
}

// atomicOp is a scheduling point with acquire-release semantics on a.
func (p *Path) atomicOp(a *Value) {
	if a == nil {
		p.rtPanic("invalid memory address or nil pointer dereference (atomic)")
	}
	s := p.sch
	if !s.conc {
		return
	}
	p.yield("atomic")
	s.cur.vc = vcJoin(s.cur.vc, s.atomVC[a])
	s.atomVC[a] = vcCopy(s.cur.vc)
	s.cur.tick()
}

// ---- race detection

func (p *Path) access(fr *frame, a *Value, write bool) {
	s := p.sch
	if s == nil || !s.conc || !s.races || p.initing > 0 {
		return
	}
	switch v := (*a).(type) {
	case Struct:
		for i := range v {
			p.access(fr, &v[i], write)
		}
		return
	case Array:
		for i := range v {
			p.access(fr, &v[i], write)
		}
		return
	}
	p.accessKey(fr, a, write)
}

func (p *Path) accessObj(fr *frame, o interface{}, write bool) {
	s := p.sch
	if s == nil || !s.conc || !s.races || p.initing > 0 {
		return
	}
	p.accessKey(fr, o, write)
}

func (p *Path) accessKey(fr *frame, key interface{}, write bool) {
	s := p.sch
	g := s.cur
	sh := s.shadowM[key]
	if sh == nil {
		sh = &shadow{wg: -1, reads: map[int]int{}}
		s.shadowM[key] = sh
	}
	at := func(vc []int, i int) int {
		if i < len(vc) {
			return vc[i]
		}
		return 0
	}
	race := func(other string) {
		p.report("race", fmt.Sprintf("data race: %s in goroutine %d is not ordered with an access in %s", accName(write), g.id, other), fr.where()+"\n"+fr.stack(), p.model, p.modelOK)
	}
	if sh.wg >= 0 && sh.wg != g.id && sh.wc > at(g.vc, sh.wg) {
		race(fmt.Sprintf("goroutine %d (write at %s)", sh.wg, sh.wfr))
	}
	if write {
		for rg, rc := range sh.reads {
			if rg != g.id && rc > at(g.vc, rg) {
				race(fmt.Sprintf("goroutine %d (read)", rg))
			}
		}
		sh.wg, sh.wc = g.id, at(g.vc, g.id)
		if fr != nil {
			sh.wfr = fr.c.name
		}
		sh.reads = map[int]int{}
	} else {
		sh.reads[g.id] = at(g.vc, g.id)
	}
}

func accName(w bool) string {
	if w {
		return "write"
	}
	return "read"
}

// ---- channels

func (p *Path) chanSend(fr *frame, ch *Chan, v Value) {
	if ch == nil {
		p.block("send on nil channel", func() bool { return false })
	}
	p.yield("chan send")
	g := p.sch.cur
	if ch.closed {
		panic(targetPanic{Iface{t: tString, v: "send on closed channel"}})
	}
	if ch.cap > 0 {
		p.block("chan send", func() bool { return len(ch.buf) < ch.cap || ch.closed })
		if ch.closed {
			panic(targetPanic{Iface{t: tString, v: "send on closed channel"}})
		}
		ch.buf = append(ch.buf, v)
		ch.vc = vcJoin(ch.vc, g.vc)
		g.tick()
		return
	}
	snd := &chanSend{v: v, vc: vcCopy(g.vc)}
	g.tick()
	ch.sendQ = append(ch.sendQ, snd)
	p.block("chan send", func() bool { return snd.done || ch.closed })
	if !snd.done {
		panic(targetPanic{Iface{t: tString, v: "send on closed channel"}})
	}
	g.vc = vcJoin(g.vc, ch.vc)
}

func (p *Path) chanRecv(fr *frame, ch *Chan, commaOk bool, t types.Type) Value {
	if ch == nil {
		p.block("receive from nil channel", func() bool { return false })
	}
	p.yield("chan recv")
	g := p.sch.cur
	p.block("chan receive", func() bool { return len(ch.buf) > 0 || len(ch.sendQ) > 0 || ch.closed })
	var v Value
	ok := true
	switch {
	case len(ch.buf) > 0:
		v = ch.buf[0]
		ch.buf = ch.buf[1:]
		g.vc = vcJoin(g.vc, ch.vc)
	case len(ch.sendQ) > 0:
		snd := ch.sendQ[0]
		ch.sendQ = ch.sendQ[1:]
		v = snd.v
		snd.done = true
		g.vc = vcJoin(g.vc, snd.vc)
		ch.vc = vcJoin(ch.vc, g.vc)
		g.tick()
	default:
		ok = false
		et := t
		if commaOk {
			et = t.(*types.Tuple).At(0).Type()
		}
		v = p.w.zero(et)
		g.vc = vcJoin(g.vc, ch.vc)
	}
	if commaOk {
		return Tuple{v, ok}
	}
	return v
}

func (p *Path) chanClose(fr *frame, ch *Chan) {
	if ch == nil || ch.closed {
		panic(targetPanic{Iface{t: tString, v: "close of nil or closed channel"}})
	}
	p.yield("chan close")
	ch.closed = true
	ch.vc = vcJoin(ch.vc, p.sch.cur.vc)
	p.sch.cur.tick()
}

// finish kills the goroutines still alive at the end of a path.
func (s *Sched) finish() {
	for _, g := range s.gs[1:] {
		if !g.done {
			select {
			case g.resume <- false:
			default:
				// not yet waiting: it is parked on its first resume or in transfer
				g.resume <- false
			}
		}
	}
	s.wg.Wait()
}

var _ = ssa.NaiveForm
