package main

import (
	"crypto/sha1"
	"fmt"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// canonicaliser of the heap reachable from the roots given to sym.Checkpoint.
type canon struct {
	p      *Path
	b      strings.Builder
	cells  map[*Value]int
	maps   map[*Map]int
	vars   map[*Term]int
	vlist  []*Term
	hidden []*Value
	bad    string
}

func (c *canon) fail(f string, a ...interface{}) {
	if c.bad == "" {
		c.bad = fmt.Sprintf(f, a...)
	}
}

func (c *canon) term(t *Term) {
	if t.isConst() {
		switch t.sort {
		case SReal:
			c.b.WriteString("r" + t.rat.RatString())
		case SFP:
			fmt.Fprintf(&c.b, "f%x", math.Float64bits(t.f))
		default:
			fmt.Fprintf(&c.b, "u%d:%d", t.w, t.u)
		}
		return
	}
	if t.op == OVar {
		i, ok := c.vars[t]
		if !ok {
			// variables known to be equal are interchangeable
			if t.sort == SReal {
				for j, u := range c.vlist {
					if u.sort == SReal && c.p.ord.known(c.p.t.Eq(t, u)) == 1 {
						i, ok = j, true
						c.vars[t] = i
						break
					}
				}
			}
			if !ok {
				i = len(c.vlist)
				c.vars[t] = i
				c.vlist = append(c.vlist, t)
			}
		}
		c.b.WriteString("v" + strconv.Itoa(i))
		return
	}
	if t.size > 200 {
		c.fail("large term in the state")
		return
	}
	fmt.Fprintf(&c.b, "(%d", t.op)
	for _, a := range t.args {
		c.b.WriteByte(' ')
		c.term(a)
	}
	c.b.WriteByte(')')
}

func (c *canon) cell(a *Value) {
	if a == nil {
		c.b.WriteString("nil")
		return
	}
	if i, ok := c.cells[a]; ok {
		c.b.WriteString("#" + strconv.Itoa(i))
		return
	}
	c.cells[a] = len(c.cells)
	c.value(a)
}

// value writes the content stored at a.
func (c *canon) value(a *Value) {
	switch v := (*a).(type) {
	case Struct:
		c.b.WriteByte('{')
		for i := range v {
			c.cell(&v[i])
			c.b.WriteByte(',')
		}
		c.b.WriteByte('}')
	case Array:
		c.b.WriteByte('[')
		for i := range v {
			c.cell(&v[i])
			c.b.WriteByte(',')
		}
		c.b.WriteByte(']')
	default:
		c.plain(v)
	}
}

func (c *canon) plain(v Value) {
	switch v := v.(type) {
	case nil:
		c.b.WriteString("_")
	case bool:
		if v {
			c.b.WriteByte('T')
		} else {
			c.b.WriteByte('F')
		}
	case int64:
		c.b.WriteString(strconv.FormatInt(v, 10))
	case string:
		c.b.WriteString(strconv.Quote(v))
	case Special:
		fmt.Fprintf(&c.b, "S%v", float64(v))
	case *Term:
		c.term(v)
	case *SymStr:
		c.fail("symbolic string in the state")
	case *Value:
		c.b.WriteByte('*')
		c.cell(v)
	case Slice:
		if v == nil {
			c.b.WriteString("nilslice")
			return
		}
		fmt.Fprintf(&c.b, "s%d/%d[", len(v), cap(v))
		full := v[:cap(v)]
		for i := range full {
			if i < len(v) {
				c.cell(&full[i])
				c.b.WriteByte(',')
			} else {
				c.hidden = append(c.hidden, &full[i])
			}
		}
		c.b.WriteByte(']')
	case Struct:
		x := Value(v)
		c.value(&x)
	case Array:
		x := Value(v)
		c.value(&x)
	case Tuple:
		for i := range v {
			c.plain(v[i])
		}
	case Iface:
		if v.t == nil {
			c.b.WriteString("nilif")
			return
		}
		c.b.WriteString("<" + v.t.String() + ">")
		c.plain(v.v)
	case *Map:
		if v == nil {
			c.b.WriteString("nilmap")
			return
		}
		if i, ok := c.maps[v]; ok {
			fmt.Fprintf(&c.b, "m#%d", i)
			return
		}
		c.maps[v] = len(c.maps)
		type ent struct {
			k string
			e *mapEntry
		}
		var es []ent
		for _, e := range v.ents {
			if e.deleted {
				continue
			}
			k, ok := mapKey(e.k)
			if !ok {
				c.fail("symbolic map key in the state")
				return
			}
			es = append(es, ent{fmt.Sprintf("%T%v", k, k), e})
		}
		sort.Slice(es, func(i, j int) bool { return es[i].k < es[j].k })
		c.b.WriteString("m{")
		for _, e := range es {
			c.plain(e.e.k)
			c.b.WriteByte(':')
			c.plain(e.e.v)
			c.b.WriteByte(',')
		}
		c.b.WriteByte('}')
	case *Closure:
		if v == nil {
			c.b.WriteString("nilfn")
			return
		}
		c.b.WriteString("fn " + v.fn.String() + "(")
		for _, e := range v.env {
			c.plain(e)
			c.b.WriteByte(',')
		}
		c.b.WriteByte(')')
	case *Opaque:
		c.b.WriteString("opaque " + v.kind)
	case *ssa.Builtin:
		c.b.WriteString("builtin " + v.Name())
	case *Chan:
		if v == nil {
			c.b.WriteString("nilchan")
			return
		}
		c.fail("channel in the state")
	default:
		c.fail("%T in the state", v)
	}
}

// checkpoint merges the path with an earlier one in an isomorphic state.
func (p *Path) checkpoint(roots Slice) {
	p.ncp++
	if p.di < len(p.prefix) || p.ncp <= p.skipCP {
		return
	}
	c := &canon{p: p, cells: map[*Value]int{}, maps: map[*Map]int{}, vars: map[*Term]int{}}
	for _, r := range roots {
		c.plain(r)
		c.b.WriteByte('\n')
	}
	// mutable package variables of the repository
	var gs []*ssa.Global
	for g := range p.globals {
		if r, _ := classifyPkg(g.Pkg.Pkg.Path()); r {
			gs = append(gs, g)
		}
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].String() < gs[j].String() })
	for _, g := range gs {
		c.b.WriteString(g.String() + "=")
		c.cell(p.globals[g])
		c.b.WriteByte('\n')
	}
	seen := map[*Value]bool{}
	for _, h := range c.hidden {
		if _, ok := c.cells[h]; ok || seen[h] {
			c.fail("overlapping slices in the state")
		}
		seen[h] = true
	}
	if p.hiddenCap {
		c.fail("a slice was extended into its hidden capacity")
	}
	for a, m := range p.sch.mux {
		if m.held || m.readers > 0 || m.pending {
			if _, ok := c.cells[a]; ok {
				c.fail("a lock is held at the checkpoint")
			}
		}
	}
	// constraints that remain on the live variables
	c.constraints()
	if c.bad != "" {
		p.note("no merging: " + c.bad)
		p.park()
	}
	k := sha1.Sum([]byte(c.b.String()))
	r := p.w.spec
	r.mu.Lock()
	_, dup := r.visited[k]
	if !dup {
		r.visited[k] = struct{}{}
	}
	r.mu.Unlock()
	if dup {
		p.merged = true
		panic(pathAbort{"merged", ""})
	}
	p.park()
}

// park ends the path here and queues its continuation, so that states are explored in order of
// their distance from the start and every path stays short.
func (p *Path) park() {
	p.w.spec.push(&Task{cp: p.ncp, skip: p.ncp, prefix: append([]int64{}, p.dec...), model: p.model, ok: p.modelOK})
	panic(pathAbort{"parked", ""})
}

func (c *canon) constraints() {
	g := c.p.ord
	// variables connected by a constraint that is not a pure order atom must all be dead
	if g.bad {
		rep := map[*Term]*Term{}
		var find func(x *Term) *Term
		find = func(x *Term) *Term {
			for rep[x] != nil && rep[x] != x {
				x = rep[x]
			}
			return x
		}
		badVar := map[*Term]bool{}
		for _, a := range c.p.pc {
			vs := collectVars([]*Term{a})
			for i := 1; i < len(vs); i++ {
				rep[find(vs[i])] = find(vs[0])
			}
			if !ordAtom(a) {
				for _, v := range vs {
					badVar[v] = true
				}
			}
		}
		badRoot := map[*Term]bool{}
		for v := range badVar {
			badRoot[find(v)] = true
		}
		for _, v := range c.vlist {
			if badRoot[find(v)] {
				c.fail("a live variable is subject to a non-order constraint")
				return
			}
		}
	}
	nodes := append([]*Term{}, c.vlist...)
	var consts []*Term
	for _, n := range g.node {
		if n.op == OConst {
			// only constants related to a live variable matter
			rel := false
			i := g.idx[n]
			for _, v := range c.vlist {
				if j, ok := g.idx[v]; ok && (g.rel[i][j] != 0 || g.rel[j][i] != 0) {
					rel = true
				}
			}
			for _, e := range g.ne {
				if e[0] == i || e[1] == i {
					rel = true
				}
			}
			if rel {
				consts = append(consts, n)
			}
		}
	}
	sort.Slice(consts, func(i, j int) bool { return consts[i].rat.Cmp(consts[j].rat) < 0 })
	nodes = append(nodes, consts...)
	c.b.WriteString("\nO:")
	for _, n := range consts {
		c.b.WriteString(n.rat.RatString() + " ")
	}
	t := c.p.t
	for i, a := range nodes {
		for j := 0; j < i; j++ {
			b := nodes[j]
			if a.sort != SReal || b.sort != SReal {
				continue
			}
			// 0 unknown 1 < 2 > 3 = 4 != 5 <= 6 >=
			lt, gt, eq := g.known(t.Lt(a, b)), g.known(t.Lt(b, a)), g.known(t.Eq(a, b))
			ch := byte('0')
			switch {
			case lt == 1:
				ch = '1'
			case gt == 1:
				ch = '2'
			case eq == 1:
				ch = '3'
			case eq == -1 && gt == 0 && lt == 0:
				ch = '4'
			case gt == -1:
				ch = '5'
			case lt == -1:
				ch = '6'
			}
			c.b.WriteByte(ch)
		}
	}
}

func ordAtom(c *Term) bool {
	x := c
	if x.op == ONot {
		x = x.args[0]
	}
	return len(x.args) == 2 && (x.op == OLt || x.op == OEq) && ordLeaf(x.args[0]) && ordLeaf(x.args[1])
}

// ---- exact probabilities of paths (sym.Tally)

type tallySum struct {
	sum  *big.Rat
	want *big.Rat
}

// weight is the probability of the random draws that follow this path.
func (p *Path) weight() (*big.Rat, bool) {
	w := big.NewRat(1, 1)
	var vars []*Term
	var ns []int64
	for _, in := range p.inputs {
		if in.Kind == "rfloat" && in.T != nil {
			return nil, false
		}
		if in.Kind == "rint" && in.T != nil {
			vars = append(vars, in.T)
			ns = append(ns, in.N)
			w.Mul(w, big.NewRat(1, in.N))
		}
	}
	// count the satisfying draws of the path condition
	if len(vars) == 0 {
		return w, true
	}
	cnt := int64(0)
	m := Model{}
	for k, v := range p.model {
		m[k] = v
	}
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == len(vars) {
			ec := evalCache{}
			for _, c := range p.pc {
				b, ok := c.eval(m, ec).(bool)
				if !ok {
					return false
				}
				if !b {
					return true
				}
			}
			cnt++
			return true
		}
		for v := int64(0); v < ns[i]; v++ {
			m[vars[i].name] = uint64(v)
			if !rec(i + 1) {
				return false
			}
		}
		return true
	}
	if !rec(0) {
		return nil, false
	}
	return w.Mul(w, big.NewRat(cnt, 1)), true
}

// addTallies is called with the run's lock held.
func (r *HarnessRun) addTallies(p *Path) {
	if len(p.tallies) == 0 {
		return
	}
	w, ok := p.weight()
	if !ok {
		r.tallyBad = true
		return
	}
	for _, t := range p.tallies {
		s := r.tallies[t.label]
		if s == nil {
			s = &tallySum{new(big.Rat), big.NewRat(t.num, t.den)}
			r.tallies[t.label] = s
		}
		if t.held {
			s.sum.Add(s.sum, w)
		}
	}
}
