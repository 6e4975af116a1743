package main

import (
	"go/constant"
	"go/types"
	"math/big"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

const (
	oReg uint8 = iota
	oConst
	oGlobal
	oFunc
	oBuiltin
	oNone
)

type opnd struct {
	k uint8
	i int
	g *ssa.Global
	v Value
	c *constInfo
}

type constInfo struct {
	c  *ssa.Const
	id int
}

type cinstr struct {
	in  ssa.Instruction
	res int
	a   []opnd
}

type cfunc struct {
	fn       *ssa.Function
	name     string
	nregs    int
	blocks   [][]cinstr
	tick     []bool // function entries and loop bodies, for sym.Work
	hasDefer bool
	repo     bool
	harness  bool
	blockHit []int32
	hits     int32
	intr     intrinsic
	redirect *ssa.Function
	params   []int
	fvs      []int
}

var (
	cfuncs   sync.Map // *ssa.Function -> *cfunc
	constMu  sync.Mutex
	constN   int
	constTab = map[*ssa.Const]*constInfo{}
)

func getConst(c *ssa.Const) *constInfo {
	constMu.Lock()
	defer constMu.Unlock()
	if ci, ok := constTab[c]; ok {
		return ci
	}
	ci := &constInfo{c, constN}
	constN++
	constTab[c] = ci
	return ci
}

func compileFn(fn *ssa.Function) *cfunc {
	if c, ok := cfuncs.Load(fn); ok {
		return c.(*cfunc)
	}
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	c := &cfunc{fn: fn, name: name}
	if fn.Pkg != nil {
		c.repo, c.harness = classifyPkg(fn.Pkg.Pkg.Path())
	} else if fn.Origin() != nil && fn.Origin().Pkg != nil {
		c.repo, c.harness = classifyPkg(fn.Origin().Pkg.Pkg.Path())
	}
	c.intr = intrinsics[name]
	regs := map[ssa.Value]int{}
	reg := func(v ssa.Value) int {
		r, ok := regs[v]
		if !ok {
			r = c.nregs
			regs[v] = r
			c.nregs++
		}
		return r
	}
	for _, p := range fn.Params {
		c.params = append(c.params, reg(p))
	}
	for _, p := range fn.FreeVars {
		c.fvs = append(c.fvs, reg(p))
	}
	mk := func(v ssa.Value) opnd {
		switch v := v.(type) {
		case nil:
			return opnd{k: oNone}
		case *ssa.Const:
			return opnd{k: oConst, c: getConst(v)}
		case *ssa.Global:
			return opnd{k: oGlobal, g: v}
		case *ssa.Function:
			return opnd{k: oFunc, v: &Closure{fn: v}}
		case *ssa.Builtin:
			return opnd{k: oBuiltin, v: v}
		}
		return opnd{k: oReg, i: reg(v)}
	}
	for _, b := range fn.Blocks {
		var cb []cinstr
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := cinstr{in: in, res: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.res = reg(v)
			}
			if _, ok := in.(*ssa.Defer); ok {
				c.hasDefer = true
			}
			for _, op := range in.Operands(nil) {
				if op == nil || *op == nil {
					ci.a = append(ci.a, opnd{k: oNone})
					continue
				}
				ci.a = append(ci.a, mk(*op))
			}
			cb = append(cb, ci)
		}
		c.blocks = append(c.blocks, cb)
		body := b.Index == 0 || strings.HasSuffix(b.Comment, ".body") && (strings.HasPrefix(b.Comment, "for") || strings.HasPrefix(b.Comment, "range"))
		c.tick = append(c.tick, body && !c.harness)
	}
	c.blockHit = make([]int32, len(fn.Blocks))
	x, _ := cfuncs.LoadOrStore(fn, c)
	return x.(*cfunc)
}

func (c *cfunc) hit(b int) {
	if atomic.LoadInt32(&c.blockHit[b]) == 0 {
		atomic.StoreInt32(&c.blockHit[b], 1)
	}
}

// constant in the worker's representation
func (w *Worker) constVal(ci *constInfo) Value {
	for ci.id >= len(w.consts) {
		w.consts = append(w.consts, make([]Value, ci.id+64)...)
	}
	if v := w.consts[ci.id]; v != nil {
		return v
	}
	v := w.mkConst(ci.c)
	w.consts[ci.id] = v
	return v
}

func (w *Worker) mkConst(c *ssa.Const) Value {
	if c.Value == nil {
		return w.zero(c.Type())
	}
	t := c.Type().Underlying()
	b, ok := t.(*types.Basic)
	if !ok {
		panic(abortf("constant of type %v", c.Type()))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		return string(rune(c.Int64()))
	case b.Info()&types.IsInteger != 0:
		if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return i
		}
		u, _ := constant.Uint64Val(constant.ToInt(c.Value))
		return int64(u)
	case b.Info()&types.IsFloat != 0:
		f := constant.ToFloat(c.Value)
		if w.fp {
			x, _ := constant.Float64Val(f)
			return w.t.FP(x)
		}
		if n, ok := constant.Val(f).(*big.Rat); ok {
			return w.t.Rat(n)
		}
		if n, ok := constant.Val(f).(int64); ok {
			return w.t.Rat(new(big.Rat).SetInt64(n))
		}
		if n, ok := constant.Val(f).(*big.Int); ok {
			return w.t.Rat(new(big.Rat).SetInt(n))
		}
		x, _ := constant.Float64Val(f)
		return w.t.Rat(ratOfFloat(x))
	}
	panic(abortf("constant of type %v", c.Type()))
}

// zero value
func (w *Worker) zero(t types.Type) Value {
	switch t := t.(type) {
	case *types.Basic:
		switch {
		case t.Kind() == types.UntypedNil:
			return (*Value)(nil)
		case t.Info()&types.IsBoolean != 0:
			return false
		case t.Info()&types.IsInteger != 0:
			return int64(0)
		case t.Info()&types.IsFloat != 0:
			if w.fp {
				return w.t.FP(0)
			}
			return w.t.Rat(ratZero)
		case t.Info()&types.IsString != 0:
			return ""
		case t.Kind() == types.UnsafePointer:
			return (*Value)(nil)
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Array:
		a := make(Array, t.Len())
		for i := range a {
			a[i] = w.zero(t.Elem())
		}
		return a
	case *types.Alias:
		return w.zero(types.Unalias(t))
	case *types.Named:
		return w.zero(t.Underlying())
	case *types.Interface:
		return Iface{}
	case *types.Slice:
		return Slice(nil)
	case *types.Struct:
		s := make(Struct, t.NumFields())
		for i := range s {
			s[i] = w.zero(t.Field(i).Type())
		}
		return s
	case *types.Tuple:
		if t.Len() == 1 {
			return w.zero(t.At(0).Type())
		}
		s := make(Tuple, t.Len())
		for i := range s {
			s[i] = w.zero(t.At(i).Type())
		}
		return s
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	}
	panic(abortf("zero value of type %v", t))
}
