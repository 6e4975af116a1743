package main

import (
	"fmt"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// pathAbort ends the current path without running target code.
type pathAbort struct {
	kind string // infeasible, merged, unsupported, limit, violation, done, killed
	msg  string
}

func abortf(f string, a ...interface{}) pathAbort {
	return pathAbort{"unsupported", fmt.Sprintf(f, a...)}
}

// targetPanic is a Go panic of the program under execution.
type targetPanic struct{ v Value }

type Input struct {
	Kind string // float, anyfloat, int, choice, rfloat, rint
	Name string
	T    *Term // nil when concrete
	I    int64
	S    Special
	isS  bool
	N    int64 // range of a random integer
}

type Obs struct {
	Label string
	V     Value
	Kind  string
}

type Worker struct {
	id      int
	eng     *Engine
	t       *Terms
	s       *Solver
	fp      bool
	consts  []Value
	stdGlob map[*ssa.Global]*Value
	stdInit map[*ssa.Package]bool
	spec    *HarnessRun
}

type Path struct {
	w           *Worker
	t           *Terms
	prefix      []int64
	di          int
	dec         []int64
	pc          []*Term
	pcset       map[*Term]bool
	ord         *ordGraph
	model       Model
	modelOK     bool
	ec          evalCache
	nvar        int
	nsqrt       int
	sqrts       map[*Term]*Term
	inputs      []Input
	fixedDraws  bool // random draws follow a fixed pattern
	evenDraws   bool // without draws of 0
	nthDraw     int64
	f32         map[*Term]*Term
	obs         []Obs
	steps       int64
	work        int64 // function entries, loop iterations and copied elements outside the harness
	maxStep     int64
	globals     map[*ssa.Global]*Value
	inited      map[*ssa.Package]bool
	reached     map[string]bool
	asserts     int
	sch         *Sched
	viol        *Violation
	notes       map[string]int
	initing     int
	approx      bool
	mapPerm     bool
	nestStd     int
	transitions int
	hiddenCap   bool
	schedTrace  []string
	draws       int
	tallies     []tally
	merged      bool
	ncp, skipCP int   // checkpoints passed; those the parked prefix covers
	later       *Term // assertions discharged by order reasoning, put to the solver when the path ends
}

type Violation struct {
	Msg     string
	Kind    string // assert, panic, deadlock, race, hang
	Harness string
	Dec     []int64
	Inputs  []Input
	Model   Model
	Sched   []int
	Exact   bool
	Where   string
	Trace   []string
}

// ---- decisions

// A path also replays up to the checkpoint at which it was parked.
func (p *Path) replaying() bool { return p.di < len(p.prefix) || p.ncp < p.skipCP }

func (p *Path) nextDec() int64 {
	if p.di >= len(p.prefix) {
		panic(abortf("replay of a parked path diverged"))
	}
	d := p.prefix[p.di]
	p.di++
	p.dec = append(p.dec, d)
	return d
}

// choose forks over n alternatives that need no solver.
func (p *Path) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if p.replaying() {
		return int(p.nextDec())
	}
	for i := n - 1; i >= 1; i-- {
		p.w.spec.push(&Task{cp: p.ncp, prefix: append(append([]int64{}, p.dec...), int64(i)), model: p.model, ok: p.modelOK})
	}
	p.dec = append(p.dec, 0)
	p.transitions++
	return 0
}

func (p *Path) addPC(c *Term) {
	if c.isConst() {
		return
	}
	if c.op == OAnd {
		p.addPC(c.args[0])
		p.addPC(c.args[1])
		return
	}
	if p.pcset[c] {
		return
	}
	p.pc = append(p.pc, c)
	p.pcset[c] = true
	p.ord.add(c)
}

// known: 1 implied, -1 refuted, 0 unknown, using only syntactic and order reasoning.
func (p *Path) known(c *Term) int {
	if c.isConst() {
		if c.u == 1 {
			return 1
		}
		return -1
	}
	if p.pcset[c] {
		return 1
	}
	if p.pcset[p.t.Not(c)] {
		return -1
	}
	switch c.op {
	case ONot:
		return -p.known(c.args[0])
	case OAnd:
		a, b := p.known(c.args[0]), p.known(c.args[1])
		if a == -1 || b == -1 {
			return -1
		}
		if a == 1 && b == 1 {
			return 1
		}
		return 0
	case OOr:
		a, b := p.known(c.args[0]), p.known(c.args[1])
		if a == 1 || b == 1 {
			return 1
		}
		if a == -1 && b == -1 {
			return -1
		}
		return 0
	}
	return p.ord.known(c)
}

func (p *Path) evalBool(c *Term) (bool, bool) {
	if !p.modelOK {
		return false, false
	}
	v := c.eval(p.model, p.ec)
	b, ok := v.(bool)
	return b, ok
}

func (p *Path) setModel(m Model, ok bool) {
	p.model, p.modelOK = m, ok
	p.ec = evalCache{}
}

// mergeModel overlays the solver's values on the defaults of variables it did not mention.
func (p *Path) mergeModel(m Model) Model {
	n := make(Model, len(p.model))
	for k, v := range p.model {
		n[k] = v
	}
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (p *Path) check(extra *Term, want bool) (SatResult, Model, bool) {
	p.w.spec.checkDeadline()
	r, m, ex := p.w.s.Check(p.pc, extra, want)
	if r == Sat && want {
		if m == nil {
			return r, nil, false
		}
		return r, p.mergeModel(m), ex
	}
	return r, nil, ex
}

// branch decides a symbolic condition, forking when both sides are feasible.
func (p *Path) branch(c *Term) bool {
	if k := p.known(c); k != 0 {
		return k == 1
	}
	if p.replaying() {
		d := p.nextDec() == 1
		if d {
			p.addPC(c)
		} else {
			p.addPC(p.t.Not(c))
		}
		return d
	}
	p.transitions++
	nc := p.t.Not(c)
	if v, ok := p.evalBool(c); ok {
		// side v is feasible by the model; ask the solver about the other
		other, mine := nc, c
		if !v {
			other, mine = c, nc
		}
		r, m, ex := p.check(other, true)
		if r != Unsat {
			od := int64(0)
			if !v {
				od = 1
			}
			t := &Task{cp: p.ncp, prefix: append(append([]int64{}, p.dec...), od), model: m, ok: r == Sat && ex && m != nil}
			if r == Unknown {
				t.maybe = true
			}
			p.w.spec.push(t)
		}
		p.dec = append(p.dec, b2i(v))
		p.addPC(mine)
		return v
	}
	r1, m1, ex1 := p.check(c, true)
	r2, m2, ex2 := p.check(nc, true)
	if r1 == Unsat && r2 == Unsat {
		panic(pathAbort{"infeasible", ""})
	}
	if r1 != Unsat {
		if r2 != Unsat {
			p.w.spec.push(&Task{cp: p.ncp, prefix: append(append([]int64{}, p.dec...), 0), model: m2, ok: r2 == Sat && ex2 && m2 != nil, maybe: r2 == Unknown})
		}
		p.dec = append(p.dec, 1)
		p.addPC(c)
		if r1 == Sat && m1 != nil {
			p.setModel(m1, ex1)
		}
		return true
	}
	p.dec = append(p.dec, 0)
	p.addPC(nc)
	if r2 == Sat && m2 != nil {
		p.setModel(m2, ex2)
	}
	return false
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

// assume restricts the path; it aborts when the condition cannot hold.
func (p *Path) assume(c *Term) {
	switch p.known(c) {
	case 1:
		return
	case -1:
		panic(pathAbort{"infeasible", ""})
	}
	if p.replaying() {
		// the prefix was explored under this assumption; its model satisfies it
		p.addPC(c)
		return
	}
	if v, ok := p.evalBool(c); ok && v {
		p.addPC(c)
		return
	}
	r, m, ex := p.check(c, true)
	if r == Unsat {
		panic(pathAbort{"infeasible", ""})
	}
	p.addPC(c)
	if r == Sat && m != nil {
		p.setModel(m, ex)
	} else {
		p.setModel(p.model, false)
	}
}

// assert reports a violation when the negation is satisfiable.
func (p *Path) assert(c Value, msg, where string) {
	p.asserts++
	var ct *Term
	switch c := c.(type) {
	case bool:
		ct = p.t.Bool(c)
	case *Term:
		ct = c
	}
	if p.replaying() {
		// already decided when the prefix was first explored
		if !ct.isConst() {
			return
		}
		if ct.u == 1 {
			return
		}
	}
	switch p.known(ct) {
	case 1:
		p.w.spec.countAssert(false)
		if !ct.isConst() {
			p.later = p.t.And(p.laterTerm(), ct)
		}
		return
	case -1:
		p.report("assert", msg, where, p.model, p.modelOK)
	}
	p.w.spec.countAssert(true)
	nc := p.t.Not(ct)
	if v, ok := p.evalBool(nc); ok && v {
		p.report("assert", msg, where, p.model, true)
	}
	if m := p.niceModel(nc); m != nil {
		p.report("assert", msg, where, m, true)
	}
	r, m, ex := p.check(nc, true)
	switch r {
	case Sat:
		if m == nil {
			m = p.model
		}
		p.report("assert", msg, where, m, ex)
	case Unknown:
		p.note("undecided assertion: " + msg)
	}
}

// niceModel looks for a satisfying assignment of pc /\ c among small integers, so that
// counterexamples replay without rounding trouble. It never decides anything on failure.
func (p *Path) niceModel(c *Term) Model {
	vars := collectVars(append(append([]*Term{}, p.pc...), c))
	if len(vars) == 0 {
		return nil
	}
	for _, v := range vars {
		if v.sort != SReal || strings.HasPrefix(v.name, "sqrt") {
			return nil
		}
	}
	seed := uint64(12345)
	for try := 0; try < 12; try++ {
		m := Model{}
		for k, v := range p.model {
			m[k] = v
		}
		for _, v := range vars {
			seed = seed*6364136223846793005 + 1442695040888963407
			m[v.name] = big.NewRat(int64(seed>>33)%21-10, 1)
		}
		ec := evalCache{}
		ok := true
		for _, q := range p.pc {
			if b, k := q.eval(m, ec).(bool); !k || !b {
				ok = false
				break
			}
		}
		if ok {
			if b, k := c.eval(m, ec).(bool); k && b {
				return m
			}
		}
	}
	return nil
}

func (p *Path) note(s string) { p.notes[s]++ }

func (p *Path) report(kind, msg, where string, m Model, exact bool) {
	v := &Violation{Msg: msg, Kind: kind, Harness: p.w.spec.h.name, Dec: append([]int64{}, p.dec...), Inputs: append([]Input{}, p.inputs...), Model: m, Exact: exact, Where: where}
	if p.sch != nil {
		v.Sched = append([]int{}, p.sch.trace...)
		v.Trace = append([]string{}, p.schedTrace...)
	}
	p.viol = v
	panic(pathAbort{"violation", msg})
}

// ---- fresh variables

func (p *Path) defaultRat(i int) *big.Rat { return big.NewRat(int64((i*7+3)%11)-5, 1) }

func (p *Path) fresh(prefix string, sort Sort, w uint8) *Term {
	p.nvar++
	name := fmt.Sprintf("%s%d", prefix, p.nvar)
	v := p.t.Var(name, sort, w)
	if p.model == nil {
		p.model = Model{}
	}
	if _, ok := p.model[name]; !ok {
		n := make(Model, len(p.model)+1)
		for k, x := range p.model {
			n[k] = x
		}
		switch sort {
		case SReal:
			n[name] = p.defaultRat(p.nvar)
		case SBV:
			n[name] = uint64(p.nvar % 3)
		case SBool:
			n[name] = false
		case SFP:
			n[name] = float64((p.nvar*7+3)%11) - 5
		}
		p.model = n
	}
	return v
}

// concretize an integer term by exhaustive forking.
func (p *Path) concretize(t *Term, signed bool) int64 {
	if t.isConst() {
		if signed {
			return sx(t.u, t.w)
		}
		return int64(t.u)
	}
	for n := 0; ; n++ {
		if n > 300 {
			panic(pathAbort{"limit", "integer concretisation over 300 values"})
		}
		var v uint64
		if p.replaying() {
			v = uint64(p.nextDec())
		} else {
			x := t.eval(p.model, p.ec)
			if u, ok := x.(uint64); ok && p.modelOK {
				v = u
			} else {
				r, m, ex := p.check(p.t.True, true)
				if r != Sat || m == nil {
					panic(pathAbort{"limit", "no model for concretisation"})
				}
				p.setModel(m, ex)
				u, ok := t.eval(p.model, p.ec).(uint64)
				if !ok {
					panic(pathAbort{"limit", "no model value for concretisation"})
				}
				v = u
			}
			p.dec = append(p.dec, int64(v))
		}
		if p.branch(p.t.Eq(t, p.t.BV(v, t.w))) {
			if signed {
				return sx(v, t.w)
			}
			return int64(v)
		}
	}
}

// floorOf concretises floor(t) of a real term by forking on integer cells.
func (p *Path) floorOf(t *Term) *big.Int {
	fl := func(r *big.Rat) *big.Int {
		q := new(big.Int)
		m := new(big.Int)
		q.DivMod(r.Num(), r.Denom(), m)
		return q
	}
	if t.isConst() {
		return fl(t.rat)
	}
	for n := 0; ; n++ {
		if n > 300 {
			panic(pathAbort{"limit", "floor concretisation over 300 values"})
		}
		var k int64
		if p.replaying() {
			k = p.nextDec()
		} else {
			x, ok := t.eval(p.model, p.ec).(*big.Rat)
			if !ok || !p.modelOK {
				r, m, ex := p.check(p.t.True, true)
				if r != Sat || m == nil {
					panic(pathAbort{"limit", "no model for floor"})
				}
				p.setModel(m, ex)
				if x, ok = t.eval(p.model, p.ec).(*big.Rat); !ok {
					panic(pathAbort{"limit", "no model value for floor"})
				}
			}
			b := fl(x)
			if !b.IsInt64() {
				panic(pathAbort{"limit", "floor out of range"})
			}
			k = b.Int64()
			p.dec = append(p.dec, k)
		}
		lo := p.t.Rat(big.NewRat(k, 1))
		hi := p.t.Rat(new(big.Rat).Add(big.NewRat(k, 1), ratOne))
		if p.branch(p.t.And(p.t.Le(lo, t), p.t.Lt(t, hi))) {
			return big.NewInt(k)
		}
	}
}

// ---- order graph over leaf reals (variables and constants): sound implication of order atoms

type ordGraph struct {
	t    *Terms
	idx  map[*Term]int
	node []*Term
	rel  [][]uint8 // 0 none, 1 <=, 2 <
	ne   [][2]int
	bad  bool // a non-order atom is in the pc
}

func newOrd(t *Terms) *ordGraph { return &ordGraph{t: t, idx: map[*Term]int{}} }

func ordLeaf(x *Term) bool { return x.sort == SReal && (x.op == OVar || x.op == OConst) }

func (g *ordGraph) get(x *Term) int {
	if i, ok := g.idx[x]; ok {
		return i
	}
	i := len(g.node)
	g.idx[x] = i
	g.node = append(g.node, x)
	for j := range g.rel {
		g.rel[j] = append(g.rel[j], 0)
	}
	row := make([]uint8, i+1)
	row[i] = 1
	g.rel = append(g.rel, row)
	if x.op == OConst {
		for j, y := range g.node[:i] {
			if y.op == OConst {
				if y.rat.Cmp(x.rat) < 0 {
					g.link(j, i, 2)
				} else {
					g.link(i, j, 2)
				}
			}
		}
	}
	return i
}

func (g *ordGraph) link(a, b int, r uint8) {
	if g.rel[a][b] >= r {
		return
	}
	n := len(g.node)
	for i := 0; i < n; i++ {
		x := g.rel[i][a]
		if x == 0 {
			continue
		}
		for j := 0; j < n; j++ {
			y := g.rel[b][j]
			if y == 0 {
				continue
			}
			s := r
			if x == 2 || y == 2 {
				s = 2
			}
			if g.rel[i][j] < s {
				g.rel[i][j] = s
			}
		}
	}
}

func (g *ordGraph) strengthen() {
	for ch := true; ch; {
		ch = false
		for _, e := range g.ne {
			a, b := e[0], e[1]
			if g.rel[a][b] == 1 {
				g.link(a, b, 2)
				ch = true
			}
			if g.rel[b][a] == 1 {
				g.link(b, a, 2)
				ch = true
			}
		}
	}
}

func (g *ordGraph) add(c *Term) {
	neg := false
	x := c
	if x.op == ONot {
		neg = true
		x = x.args[0]
	}
	if len(x.args) == 2 && ordLeaf(x.args[0]) && ordLeaf(x.args[1]) {
		a, b := g.get(x.args[0]), g.get(x.args[1])
		switch {
		case x.op == OLt && !neg:
			g.link(a, b, 2)
		case x.op == OLt && neg:
			g.link(b, a, 1)
		case x.op == OEq && !neg:
			g.link(a, b, 1)
			g.link(b, a, 1)
		case x.op == OEq && neg:
			g.ne = append(g.ne, [2]int{a, b})
		default:
			g.bad = true
			return
		}
		if len(g.ne) > 0 {
			g.strengthen()
		}
		return
	}
	g.bad = true
}

func (g *ordGraph) known(x *Term) int {
	if len(x.args) != 2 || !ordLeaf(x.args[0]) || !ordLeaf(x.args[1]) {
		return 0
	}
	if x.op != OLt && x.op != OEq {
		return 0
	}
	a, ok1 := g.idx[x.args[0]]
	b, ok2 := g.idx[x.args[1]]
	if !ok1 || !ok2 {
		if x.args[0].op == OConst || x.args[1].op == OConst {
			a, b = g.get(x.args[0]), g.get(x.args[1])
		} else {
			return 0
		}
	}
	switch x.op {
	case OLt:
		if g.rel[a][b] == 2 {
			return 1
		}
		if g.rel[b][a] >= 1 {
			return -1
		}
	case OEq:
		if g.rel[a][b] == 1 && g.rel[b][a] == 1 {
			return 1
		}
		if g.rel[a][b] == 2 || g.rel[b][a] == 2 {
			return -1
		}
		for _, e := range g.ne {
			if e == [2]int{a, b} || e == [2]int{b, a} {
				return -1
			}
			// equal representatives
			x, y := e[0], e[1]
			eq := func(i, j int) bool { return i == j || g.rel[i][j] == 1 && g.rel[j][i] == 1 }
			if eq(x, a) && eq(y, b) || eq(x, b) && eq(y, a) {
				return -1
			}
		}
	}
	return 0
}

func sortedKeys(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (p *Path) laterTerm() *Term {
	if p.later == nil {
		return p.t.True
	}
	return p.later
}

// confirm puts the assertions that order reasoning discharged to the solver.
func (p *Path) confirm() {
	if p.later == nil || p.later.isConst() {
		return
	}
	c := p.later
	p.later = nil
	r, m, ex := p.check(p.t.Not(c), true)
	switch r {
	case Sat:
		if f := os.Getenv("GOSYM_DUMP"); f != "" {
			os.WriteFile(f, []byte(p.w.s.Script(p.pc, p.t.Not(c))), 0o644)
		}
		p.report("assert", "order reasoning and solver disagree", "", m, ex)
	case Unsat:
		p.note("path assertions confirmed by the solver")
	}
}
