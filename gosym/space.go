package main

import "golang.org/x/tools/go/ssa"

// spaceWalk adds up the memory reachable from some roots, 8 bytes for each scalar.
type spaceWalk struct {
	p     *Path
	cells map[*Value]bool
	refs  map[interface{}]bool
	n     int64
}

func (w *spaceWalk) cell(a *Value) {
	if a == nil || w.cells[a] {
		return
	}
	w.cells[a] = true
	w.value(*a)
}

func (w *spaceWalk) value(v Value) {
	switch v := v.(type) {
	case Struct:
		for i := range v {
			w.cell(&v[i])
		}
		return
	case Array:
		for i := range v {
			w.cell(&v[i])
		}
		return
	}
	w.n += 8
	switch v := v.(type) {
	case string:
		w.n += int64(len(v)+7) / 8 * 8
	case *Value:
		w.cell(v)
	case Slice:
		full := v[:cap(v)]
		for i := range full {
			w.cell(&full[i])
		}
	case Tuple:
		for _, x := range v {
			w.value(x)
		}
	case Iface:
		if v.t != nil {
			w.value(v.v)
		}
	case *Map:
		if v == nil || w.refs[v] {
			return
		}
		w.refs[v] = true
		for _, e := range v.ents {
			if !e.deleted {
				w.value(e.k)
				w.value(e.v)
			}
		}
	case *Closure:
		if v == nil || w.refs[v] {
			return
		}
		w.refs[v] = true
		for _, e := range v.env {
			w.value(e)
		}
	case *Chan:
		if v == nil || w.refs[v] {
			return
		}
		w.refs[v] = true
		for _, x := range v.buf {
			w.value(x)
		}
		for _, s := range v.sendQ {
			w.value(s.v)
		}
	}
}

func (p *Path) space(roots Slice) int64 {
	w := &spaceWalk{p: p, cells: map[*Value]bool{}, refs: map[interface{}]bool{}}
	for i := range roots {
		w.cell(&roots[i])
	}
	var g *ssa.Global
	for g = range p.globals {
		if _, h := classifyPkg(g.Pkg.Pkg.Path()); !h {
			w.cell(p.globals[g])
		}
	}
	for _, g := range p.sch.gs {
		if !g.done {
			w.n += 2048
		}
	}
	return w.n
}
