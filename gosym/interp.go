package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type deferred struct {
	fn   Value
	args []Value
	meth *ssa.CallCommon
	recv Value
}

type frame struct {
	p         *Path
	g         *G
	c         *cfunc
	caller    *frame
	regs      []Value
	block     int
	prev      int
	defers    []deferred
	result    Value
	panicking bool
	panicV    interface{}
	done      bool
	depth     int
	curIn     ssa.Instruction
}

type intrinsic func(fr *frame, fn *ssa.Function, args []Value) Value

var tString = types.Typ[types.String]

func (p *Path) rtPanic(f string, a ...interface{}) {
	panic(targetPanic{Iface{t: tString, v: "runtime error: " + fmt.Sprintf(f, a...)}})
}

func (fr *frame) get(o *opnd) Value {
	switch o.k {
	case oReg:
		return fr.regs[o.i]
	case oConst:
		return fr.p.w.constVal(o.c)
	case oGlobal:
		return fr.p.global(o.g)
	case oFunc, oBuiltin:
		return o.v
	}
	return nil
}

// global returns the address of a package-level variable, initialising its package on first use.
func (p *Path) global(g *ssa.Global) *Value {
	if a, ok := p.globals[g]; ok {
		return a
	}
	mut, harness := classifyPkg(g.Pkg.Pkg.Path())
	if mut || harness || p.w.eng.perPath[g.Pkg] {
		p.initPkg(g.Pkg)
		if a, ok := p.globals[g]; ok {
			return a
		}
		v := p.w.zero(g.Type().Underlying().(*types.Pointer).Elem())
		p.globals[g] = &v
		return &v
	}
	if a, ok := p.w.stdGlob[g]; ok {
		return a
	}
	p.initPkg(g.Pkg)
	if a, ok := p.w.stdGlob[g]; ok {
		return a
	}
	v := p.w.zero(g.Type().Underlying().(*types.Pointer).Elem())
	p.w.stdGlob[g] = &v
	return &v
}

// initPkg runs the variable initialisers of one package (its imports are initialised lazily
// when one of their variables is first used).
func (p *Path) initPkg(pkg *ssa.Package) {
	shared := !p.w.eng.isPerPath(pkg)
	if shared {
		if p.w.stdInit[pkg] {
			return
		}
		p.w.stdInit[pkg] = true
	} else {
		if p.inited[pkg] {
			return
		}
		p.inited[pkg] = true
	}
	for _, m := range pkg.Members {
		if g, ok := m.(*ssa.Global); ok {
			v := p.w.zero(g.Type().Underlying().(*types.Pointer).Elem())
			if shared {
				p.w.stdGlob[g] = &v
			} else {
				p.globals[g] = &v
			}
		}
	}
	if noInit[pkg.Pkg.Path()] {
		return
	}
	init := pkg.Func("init")
	if init == nil {
		return
	}
	p.initing++
	p.call(nil, p.curG(), &Closure{fn: init}, nil)
	p.initing--
}

func (p *Path) curG() *G {
	if p.sch == nil {
		return nil
	}
	return p.sch.cur
}

// call invokes a function value.
func (p *Path) call(caller *frame, g *G, fv Value, args []Value) Value {
	switch f := fv.(type) {
	case *Closure:
		if f == nil {
			p.rtPanic("invalid memory address or nil pointer dereference (nil func)")
		}
		return p.callFn(caller, g, f.fn, args, f.env)
	case *ssa.Builtin:
		return p.builtin(caller, f, args, nil)
	}
	panic(abortf("call of %T", fv))
}

func (p *Path) callFn(caller *frame, g *G, fn *ssa.Function, args, env []Value) Value {
	c := compileFn(fn)
	if c.intr != nil {
		if caller == nil {
			caller = &frame{p: p, g: g, c: c}
		}
		return c.intr(caller, fn, args)
	}
	return p.callBody(caller, g, c, fn, args, env)
}

func (p *Path) callBody(caller *frame, g *G, c *cfunc, fn *ssa.Function, args, env []Value) Value {
	if p.w.spec.redirects != nil {
		if r, ok := p.w.spec.redirects[c.name]; ok {
			fn = r
			c = compileFn(fn)
		}
	}
	if p.initing > 0 && fn.Synthetic == "package initializer" && caller != nil {
		return nil // imports are initialised lazily
	}
	if fn.Blocks == nil {
		panic(abortf("no body for %s", fn))
	}
	if fn.Pkg != nil && refused(fn.Pkg.Pkg.Path()) {
		panic(abortf("call into %s", fn))
	}
	depth := 0
	if caller != nil {
		depth = caller.depth + 1
	}
	if depth > 2000 {
		panic(pathAbort{"limit", "call depth over 2000 in " + fn.String()})
	}
	if c.repo && c.hits == 0 {
		atomic.StoreInt32(&c.hits, 1)
	}
	fr := &frame{p: p, g: g, c: c, caller: caller, regs: make([]Value, c.nregs), prev: -1, depth: depth}
	for i, r := range c.params {
		fr.regs[r] = args[i]
	}
	for i, r := range c.fvs {
		fr.regs[r] = env[i]
	}
	if !c.hasDefer {
		fr.exec()
		return fr.result
	}
	for !fr.done {
		fr.execDeferring()
	}
	return fr.result
}

func (fr *frame) execDeferring() {
	defer func() {
		if fr.done {
			return
		}
		r := recover()
		if _, ok := r.(targetPanic); !ok {
			panic(r) // engine aborts pass through
		}
		fr.panicking = true
		fr.panicV = r
		fr.runDefers()
		// recovered: continue at the recover block
		if fr.c.fn.Recover != nil {
			fr.prev = fr.block
			fr.block = fr.c.fn.Recover.Index
		} else {
			fr.result = fr.p.w.zero(resultType(fr.c.fn.Signature))
			fr.done = true
		}
	}()
	fr.exec()
}

func resultType(s *types.Signature) types.Type {
	switch s.Results().Len() {
	case 0:
		return types.NewTuple()
	case 1:
		return s.Results().At(0).Type()
	}
	return s.Results()
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		fr.runDefer(d)
	}
	if fr.panicking {
		panic(fr.panicV)
	}
}

func (fr *frame) runDefer(d deferred) {
	ok := false
	defer func() {
		if ok {
			return
		}
		r := recover()
		if _, isT := r.(targetPanic); !isT {
			panic(r)
		}
		fr.panicking = true
		fr.panicV = r
	}()
	if b, isB := d.fn.(*ssa.Builtin); isB {
		fr.p.builtin(fr, b, d.args, nil)
	} else {
		fr.p.call(fr, fr.g, d.fn, d.args)
	}
	ok = true
}

// prepareCall resolves a call's target and arguments.
func (fr *frame) prepareCall(cc *ssa.CallCommon, a []opnd) (Value, []Value) {
	if !cc.IsInvoke() {
		args := make([]Value, len(cc.Args))
		for i := range cc.Args {
			args[i] = fr.get(&a[i+1])
		}
		return fr.get(&a[0]), args
	}
	recv, ok := fr.get(&a[0]).(Iface)
	if !ok || recv.t == nil {
		fr.p.rtPanic("invalid memory address or nil pointer dereference (method %s on nil interface)", cc.Method.Name())
	}
	fn := fr.p.w.eng.lookupMethod(recv.t, cc.Method)
	if fn == nil {
		panic(abortf("method %s not found on %v", cc.Method.Name(), recv.t))
	}
	args := make([]Value, len(cc.Args)+1)
	args[0] = recv.v
	for i := range cc.Args {
		args[i+1] = fr.get(&a[i+1])
	}
	return &Closure{fn: fn}, args
}

func (fr *frame) exec() {
	p := fr.p
	c := fr.c
	for {
		blk := c.blocks[fr.block]
		if c.repo {
			c.hit(fr.block)
		}
		if c.tick[fr.block] {
			p.work++
		}
		var next = -1
	instrs:
		for ii := range blk {
			ci := &blk[ii]
			p.steps++
			if p.steps > p.maxStep {
				panic(pathAbort{"limit", "step limit in " + c.name})
			}
			if p.steps&0xfff == 0 {
				p.w.spec.checkDeadline()
			}
			fr.curIn = ci.in
			switch in := ci.in.(type) {
			case *ssa.UnOp:
				fr.regs[ci.res] = fr.unop(in, fr.get(&ci.a[0]))
			case *ssa.BinOp:
				fr.regs[ci.res] = p.binop(in.Op, in.X.Type(), in.Y.Type(), fr.get(&ci.a[0]), fr.get(&ci.a[1]))
			case *ssa.Call:
				fv, args := fr.prepareCall(&in.Call, ci.a)
				if b, ok := fv.(*ssa.Builtin); ok {
					fr.regs[ci.res] = p.builtin(fr, b, args, in)
				} else {
					fr.regs[ci.res] = p.call(fr, fr.g, fv, args)
				}
			case *ssa.FieldAddr:
				a := fr.get(&ci.a[0])
				ptr, _ := a.(*Value)
				if ptr == nil {
					p.rtPanic("invalid memory address or nil pointer dereference")
				}
				s, ok := (*ptr).(Struct)
				if !ok {
					panic(abortf("FieldAddr of %T in %s", *ptr, c.name))
				}
				if in.Field >= len(s) {
					panic(abortf("FieldAddr index %d of %d in %s", in.Field, len(s), c.name))
				}
				fr.regs[ci.res] = &s[in.Field]
			case *ssa.Field:
				fr.regs[ci.res] = fr.get(&ci.a[0]).(Struct)[in.Field]
			case *ssa.IndexAddr:
				fr.regs[ci.res] = fr.indexAddr(in, fr.get(&ci.a[0]), fr.get(&ci.a[1]))
			case *ssa.Index:
				fr.regs[ci.res] = fr.index(in, fr.get(&ci.a[0]), fr.get(&ci.a[1]))
			case *ssa.Store:
				ptr, _ := fr.get(&ci.a[0]).(*Value)
				if ptr == nil {
					p.rtPanic("invalid memory address or nil pointer dereference")
				}
				p.access(fr, ptr, true)
				storeInto(ptr, fr.get(&ci.a[1]))
			case *ssa.Phi:
				// phis are evaluated in parallel, all at the first one
				if ii > 0 {
					continue
				}
				var tmp []Value
				k := ii
				preds := c.fn.Blocks[fr.block].Preds
				edge := -1
				for e, pr := range preds {
					if pr.Index == fr.prev {
						edge = e
						break
					}
				}
				for ; k < len(blk); k++ {
					if _, ok := blk[k].in.(*ssa.Phi); !ok {
						break
					}
					tmp = append(tmp, fr.get(&blk[k].a[edge]))
				}
				for j, v := range tmp {
					fr.regs[blk[j].res] = v
				}
			case *ssa.If:
				if p.cond(fr.get(&ci.a[0])) {
					next = 0
				} else {
					next = 1
				}
				break instrs
			case *ssa.Jump:
				next = 0
				break instrs
			case *ssa.Return:
				switch len(in.Results) {
				case 0:
					fr.result = nil
				case 1:
					fr.result = fr.get(&ci.a[0])
				default:
					t := make(Tuple, len(in.Results))
					for i := range t {
						t[i] = fr.get(&ci.a[i])
					}
					fr.result = t
				}
				fr.done = true
				return
			case *ssa.Alloc:
				v := p.w.zero(in.Type().Underlying().(*types.Pointer).Elem())
				fr.regs[ci.res] = &v
			case *ssa.MakeInterface:
				fr.regs[ci.res] = Iface{in.X.Type(), fr.get(&ci.a[0])}
			case *ssa.ChangeInterface, *ssa.ChangeType:
				fr.regs[ci.res] = fr.get(&ci.a[0])
			case *ssa.Convert:
				fr.regs[ci.res] = p.convert(in.Type(), in.X.Type(), fr.get(&ci.a[0]))
			case *ssa.MultiConvert:
				fr.regs[ci.res] = p.convert(in.Type(), in.X.Type(), fr.get(&ci.a[0]))
			case *ssa.MakeClosure:
				cl := &Closure{fn: in.Fn.(*ssa.Function)}
				for i := range in.Bindings {
					cl.env = append(cl.env, fr.get(&ci.a[i+1]))
				}
				fr.regs[ci.res] = cl
			case *ssa.Extract:
				fr.regs[ci.res] = fr.get(&ci.a[0]).(Tuple)[in.Index]
			case *ssa.Slice:
				fr.regs[ci.res] = fr.slice(in, ci.a)
			case *ssa.MakeSlice:
				n := p.intOf(fr.get(&ci.a[0]), true)
				k := p.intOf(fr.get(&ci.a[1]), true)
				if n < 0 || k < n || k > 1<<40 {
					p.rtPanic("makeslice: len out of range")
				}
				if k > 1<<22 {
					panic(pathAbort{"limit", "allocation over 4M elements"})
				}
				s := make(Slice, k)
				et := in.Type().Underlying().(*types.Slice).Elem()
				for i := range s {
					s[i] = p.w.zero(et)
				}
				fr.regs[ci.res] = s[:n]
			case *ssa.MakeMap:
				fr.regs[ci.res] = &Map{idx: map[interface{}]int{}}
			case *ssa.MakeChan:
				fr.regs[ci.res] = &Chan{cap: int(p.intOf(fr.get(&ci.a[0]), true))}
			case *ssa.Lookup:
				fr.regs[ci.res] = fr.lookup(in, fr.get(&ci.a[0]), fr.get(&ci.a[1]))
			case *ssa.MapUpdate:
				m, _ := fr.get(&ci.a[0]).(*Map)
				if m == nil {
					p.rtPanic("assignment to entry in nil map")
				}
				p.accessObj(fr, m, true)
				p.mapSet(m, fr.get(&ci.a[1]), copyVal(fr.get(&ci.a[2])))
			case *ssa.Range:
				fr.regs[ci.res] = fr.rangeIter(in, fr.get(&ci.a[0]))
			case *ssa.Next:
				fr.regs[ci.res] = fr.next(in, fr.get(&ci.a[0]))
			case *ssa.TypeAssert:
				fr.regs[ci.res] = fr.typeAssert(in, fr.get(&ci.a[0]))
			case *ssa.Defer:
				fv, args := fr.prepareCall(&in.Call, ci.a)
				fr.defers = append(fr.defers, deferred{fn: fv, args: args})
			case *ssa.RunDefers:
				fr.runDefers()
			case *ssa.Panic:
				panic(targetPanic{fr.get(&ci.a[0])})
			case *ssa.Go:
				fv, args := fr.prepareCall(&in.Call, ci.a)
				p.spawn(fr, fv, args)
			case *ssa.Send:
				ch, _ := fr.get(&ci.a[0]).(*Chan)
				p.chanSend(fr, ch, fr.get(&ci.a[1]))
			case *ssa.Select:
				panic(abortf("select statement in %s", c.name))
			case *ssa.SliceToArrayPointer:
				panic(abortf("slice to array pointer"))
			default:
				panic(abortf("instruction %T", in))
			}
		}
		if next < 0 {
			panic(abortf("block without terminator in %s", c.name))
		}
		fr.prev = fr.block
		fr.block = c.fn.Blocks[fr.block].Succs[next].Index
	}
}

func (p *Path) cond(v Value) bool {
	switch v := v.(type) {
	case bool:
		return v
	case *Term:
		return p.branch(v)
	}
	panic(abortf("condition of %T", v))
}

func (p *Path) intOf(v Value, signed bool) int64 {
	switch v := v.(type) {
	case int64:
		return v
	case *Term:
		return p.concretize(v, signed)
	}
	panic(abortf("integer expected, got %T", v))
}

func (fr *frame) where() string {
	for f := fr; f != nil; f = f.caller {
		if f.curIn != nil && f.curIn.Pos() != token.NoPos && f.c != nil && f.c.fn.Prog != nil {
			return f.c.fn.Prog.Fset.Position(f.curIn.Pos()).String()
		}
	}
	return ""
}

func (fr *frame) stack() string {
	var b strings.Builder
	n := 0
	for f := fr; f != nil && n < 12; f = f.caller {
		if f.c == nil {
			continue
		}
		pos := ""
		if f.curIn != nil && f.curIn.Pos() != token.NoPos {
			ps := f.c.fn.Prog.Fset.Position(f.curIn.Pos())
			pos = fmt.Sprintf("%s:%d", ps.Filename, ps.Line)
		}
		fmt.Fprintf(&b, "%s (%s)\n", f.c.name, pos)
		n++
	}
	return b.String()
}

func (fr *frame) unop(in *ssa.UnOp, x Value) Value {
	p := fr.p
	switch in.Op {
	case token.MUL:
		ptr, ok := x.(*Value)
		if !ok || ptr == nil {
			p.rtPanic("invalid memory address or nil pointer dereference")
		}
		p.access(fr, ptr, false)
		return copyVal(*ptr)
	case token.NOT:
		switch x := x.(type) {
		case bool:
			return !x
		case *Term:
			return p.t.Not(x)
		}
	case token.SUB:
		if isFloat(in.X.Type()) {
			return p.fneg(x)
		}
		b, _ := intBits(in.X.Type())
		switch x := x.(type) {
		case int64:
			return normInt(-x, b)
		case *Term:
			return p.t.BVop(OBSub, p.t.BV(0, b.w), x)
		}
	case token.XOR:
		b, _ := intBits(in.X.Type())
		switch x := x.(type) {
		case int64:
			return normInt(^x, b)
		case *Term:
			return p.t.BVop(OBXor, x, p.t.BV(^uint64(0), b.w))
		}
	case token.ARROW:
		ch, _ := x.(*Chan)
		return p.chanRecv(fr, ch, in.CommaOk, in.Type())
	}
	panic(abortf("unop %v on %T", in.Op, x))
}

func (p *Path) toBV(v Value, b bits) *Term {
	switch v := v.(type) {
	case int64:
		return p.t.BV(uint64(v), b.w)
	case *Term:
		return v
	}
	panic(abortf("int operand %T", v))
}

// unBV folds constant terms back to concrete ints.
func unBV(t *Term, b bits) Value {
	if t.isConst() && t.sort == SBV {
		if b.signed {
			return sx(t.u, t.w)
		}
		return int64(t.u)
	}
	return t
}

func unBool(t *Term) Value {
	if t.isConst() {
		return t.u == 1
	}
	return t
}

func (p *Path) binop(op token.Token, xt, yt types.Type, x, y Value) Value {
	switch op {
	case token.EQL:
		return p.equal(xt, x, y)
	case token.NEQ:
		return p.not(p.equal(xt, x, y))
	}
	if b, ok := intBits(xt); ok {
		return p.intBin(op, b, xt, yt, x, y)
	}
	if isFloat(xt) {
		return p.floatBin(op, xt, x, y)
	}
	if isString(xt) {
		if op == token.ADD {
			return strConcat(x, y)
		}
		a, ok1 := x.(string)
		c, ok2 := y.(string)
		if !ok1 || !ok2 {
			panic(abortf("ordering of symbolic strings"))
		}
		switch op {
		case token.LSS:
			return a < c
		case token.LEQ:
			return a <= c
		case token.GTR:
			return a > c
		case token.GEQ:
			return a >= c
		}
	}
	if isBool(xt) {
		xb, yb := p.boolTerm(x), p.boolTerm(y)
		switch op {
		case token.AND, token.LAND:
			return unBool(p.t.And(xb, yb))
		case token.OR, token.LOR:
			return unBool(p.t.Or(xb, yb))
		}
	}
	panic(abortf("binop %v on %v", op, xt))
}

func (p *Path) boolTerm(v Value) *Term {
	switch v := v.(type) {
	case bool:
		return p.t.Bool(v)
	case *Term:
		return v
	}
	panic(abortf("bool operand %T", v))
}

func (p *Path) not(v Value) Value {
	switch v := v.(type) {
	case bool:
		return !v
	case *Term:
		return unBool(p.t.Not(v))
	}
	panic(abortf("not of %T", v))
}

func (p *Path) intBin(op token.Token, b bits, xt, yt types.Type, x, y Value) Value {
	xi, xc := x.(int64)
	yi, yc := y.(int64)
	if op == token.SHL || op == token.SHR {
		yb, _ := intBits(yt)
		if !yc {
			yi = p.concretize(y.(*Term), yb.signed)
			yc = true
		}
		if yb.signed && yi < 0 {
			p.rtPanic("negative shift amount")
		}
		n := uint64(yi)
		if xc {
			if op == token.SHL {
				if n >= 64 {
					return int64(0)
				}
				return normInt(int64(uint64(xi)<<n), b)
			}
			if b.signed {
				if n > 63 {
					n = 63
				}
				return xi >> n
			}
			if n >= 64 {
				return int64(0)
			}
			return normInt(int64(uint64(xi)>>n), b)
		}
		if n > uint64(b.w) {
			n = uint64(b.w)
		}
		xterm := x.(*Term)
		sh := p.t.BV(n, b.w)
		if op == token.SHL {
			return unBV(p.t.BVop(OBShl, xterm, sh), b)
		}
		if b.signed {
			return unBV(p.t.BVop(OBAshr, xterm, sh), b)
		}
		return unBV(p.t.BVop(OBLshr, xterm, sh), b)
	}
	if xc && yc {
		switch op {
		case token.ADD:
			return normInt(xi+yi, b)
		case token.SUB:
			return normInt(xi-yi, b)
		case token.MUL:
			return normInt(xi*yi, b)
		case token.QUO, token.REM:
			if yi == 0 {
				p.rtPanic("integer divide by zero")
			}
			if b.signed {
				if yi == -1 {
					if op == token.QUO {
						return normInt(-xi, b)
					}
					return int64(0)
				}
				if op == token.QUO {
					return normInt(xi/yi, b)
				}
				return normInt(xi%yi, b)
			}
			if op == token.QUO {
				return normInt(int64(uint64(xi)/uint64(yi)), b)
			}
			return normInt(int64(uint64(xi)%uint64(yi)), b)
		case token.AND:
			return xi & yi
		case token.OR:
			return xi | yi
		case token.XOR:
			return normInt(xi^yi, b)
		case token.AND_NOT:
			return xi &^ yi
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			var lt bool
			if b.signed {
				lt = xi < yi
			} else {
				lt = uint64(xi) < uint64(yi)
			}
			eq := xi == yi
			switch op {
			case token.LSS:
				return lt
			case token.LEQ:
				return lt || eq
			case token.GTR:
				return !lt && !eq
			default:
				return !lt
			}
		}
		panic(abortf("int op %v", op))
	}
	a, c := p.toBV(x, b), p.toBV(y, b)
	t := p.t
	switch op {
	case token.ADD:
		return unBV(t.BVop(OBAdd, a, c), b)
	case token.SUB:
		return unBV(t.BVop(OBSub, a, c), b)
	case token.MUL:
		return unBV(t.BVop(OBMul, a, c), b)
	case token.QUO, token.REM:
		if p.cond(unBool(t.Eq(c, t.BV(0, b.w)))) {
			p.rtPanic("integer divide by zero")
		}
		o := OBUdiv
		switch {
		case b.signed && op == token.QUO:
			o = OBSdiv
		case b.signed:
			o = OBSrem
		case op == token.REM:
			o = OBUrem
		}
		return unBV(t.BVop(o, a, c), b)
	case token.AND:
		return unBV(t.BVop(OBAnd, a, c), b)
	case token.OR:
		return unBV(t.BVop(OBOr, a, c), b)
	case token.XOR:
		return unBV(t.BVop(OBXor, a, c), b)
	case token.AND_NOT:
		return unBV(t.BVop(OBAnd, a, t.BVop(OBXor, c, t.BV(^uint64(0), b.w))), b)
	}
	lt, le := OBUlt, OBUle
	if b.signed {
		lt, le = OBSlt, OBSle
	}
	switch op {
	case token.LSS:
		return unBool(t.BVop(lt, a, c))
	case token.LEQ:
		return unBool(t.BVop(le, a, c))
	case token.GTR:
		return unBool(t.BVop(lt, c, a))
	case token.GEQ:
		return unBool(t.BVop(le, c, a))
	}
	panic(abortf("int op %v", op))
}

// equal implements ==
func (p *Path) equal(t types.Type, x, y Value) Value {
	switch xv := x.(type) {
	case bool:
		if yv, ok := y.(bool); ok {
			return xv == yv
		}
		return unBool(p.t.Eq(p.t.Bool(xv), y.(*Term)))
	case int64:
		if yv, ok := y.(int64); ok {
			return xv == yv
		}
		if yt, ok := y.(*Term); ok {
			return unBool(p.t.Eq(p.t.BV(uint64(xv), yt.w), yt))
		}
	case *Term:
		switch xv.sort {
		case SBool:
			return unBool(p.t.Eq(xv, p.boolTerm(y)))
		case SBV:
			return unBool(p.t.Eq(xv, p.toBV(y, bits{xv.w, false})))
		case SReal:
			if _, ok := y.(Special); ok {
				return false
			}
			return unBool(p.t.Eq(xv, y.(*Term)))
		case SFP:
			return unBool(p.t.Eq(xv, y.(*Term)))
		}
	case Special:
		if yv, ok := y.(Special); ok {
			return float64(xv) == float64(yv)
		}
		return false
	case string:
		if yv, ok := y.(string); ok {
			return xv == yv
		}
		return p.symStrEq(x, y)
	case *SymStr:
		return p.symStrEq(x, y)
	case *Value:
		yv, _ := y.(*Value)
		return xv == yv
	case *Map:
		yv, _ := y.(*Map)
		return xv == yv
	case *Chan:
		yv, _ := y.(*Chan)
		return xv == yv
	case *Closure:
		yv, _ := y.(*Closure)
		if xv == nil || yv == nil {
			return xv == yv
		}
		panic(abortf("comparison of functions"))
	case Slice:
		yv, _ := y.(Slice)
		return xv == nil && yv == nil
	case Iface:
		yv, ok := y.(Iface)
		if !ok {
			yv = Iface{t, y}
		}
		if xv.t == nil || yv.t == nil {
			return xv.t == nil && yv.t == nil
		}
		if !types.Identical(xv.t, yv.t) {
			return false
		}
		if !types.Comparable(xv.t) {
			p.rtPanic("comparing uncomparable type %v", xv.t)
		}
		return p.equal(xv.t, xv.v, yv.v)
	case Struct:
		yv := y.(Struct)
		var acc Value = true
		for i := range xv {
			acc = unBool(p.t.And(p.boolTerm(acc), p.boolTerm(p.equal(nil, xv[i], yv[i]))))
		}
		return acc
	case Array:
		yv := y.(Array)
		var acc Value = true
		for i := range xv {
			acc = unBool(p.t.And(p.boolTerm(acc), p.boolTerm(p.equal(nil, xv[i], yv[i]))))
		}
		return acc
	case *Opaque:
		yv, _ := y.(*Opaque)
		return xv == yv
	}
	if x == nil || y == nil {
		return x == y
	}
	panic(abortf("equality of %T and %T", x, y))
}

func (fr *frame) indexAddr(in *ssa.IndexAddr, x, idx Value) Value {
	p := fr.p
	var elems []Value
	switch x := x.(type) {
	case Slice:
		elems = x
	case *Value:
		if x == nil {
			p.rtPanic("invalid memory address or nil pointer dereference")
		}
		elems = (*x).(Array)
	default:
		panic(abortf("IndexAddr of %T", x))
	}
	i := p.boundIdx(in.Index.Type(), idx, len(elems))
	return &elems[i]
}

// boundIdx checks the bound (forking when symbolic) and returns a concrete index.
func (p *Path) boundIdx(t types.Type, idx Value, n int) int64 {
	if it, ok := idx.(*Term); ok {
		b, _ := intBits(t)
		in := p.t.And(p.t.BVop(OBSle, p.t.BV(0, b.w), it), p.t.BVop(OBSlt, it, p.t.BV(uint64(n), b.w)))
		if !b.signed {
			in = p.t.BVop(OBUlt, it, p.t.BV(uint64(n), b.w))
		}
		if !p.cond(unBool(in)) {
			p.rtPanic("index out of range with length %d", n)
		}
		return p.concretize(it, b.signed)
	}
	i := idx.(int64)
	if i < 0 || i >= int64(n) {
		p.rtPanic("index out of range [%d] with length %d", i, n)
	}
	return i
}

func (fr *frame) index(in *ssa.Index, x, idx Value) Value {
	p := fr.p
	switch x := x.(type) {
	case Array:
		return copyVal(x[p.boundIdx(in.Index.Type(), idx, len(x))])
	case Slice:
		return copyVal(x[p.boundIdx(in.Index.Type(), idx, len(x))])
	case string:
		return int64(x[p.boundIdx(in.Index.Type(), idx, len(x))])
	}
	panic(abortf("Index of %T", x))
}

func (fr *frame) slice(in *ssa.Slice, a []opnd) Value {
	p := fr.p
	x := fr.get(&a[0])
	// operands: X, Low, High, Max (absent ones are oNone)
	geti := func(k int, def int64) int64 {
		if k >= len(a) || a[k].k == oNone {
			return def
		}
		return p.intOf(fr.get(&a[k]), true)
	}
	if s, ok := x.(string); ok {
		lo := geti(1, 0)
		hi := geti(2, int64(len(s)))
		if lo < 0 || hi < lo || hi > int64(len(s)) {
			p.rtPanic("slice bounds out of range [%d:%d]", lo, hi)
		}
		return s[lo:hi]
	}
	if _, ok := x.(*SymStr); ok {
		panic(abortf("slicing a symbolic string"))
	}
	var base []Value
	isNil := false
	switch x := x.(type) {
	case Slice:
		base = x
		isNil = x == nil
	case *Value:
		if x == nil {
			p.rtPanic("invalid memory address or nil pointer dereference")
		}
		base = (*x).(Array)
	default:
		panic(abortf("slice of %T", x))
	}
	lo := geti(1, 0)
	hi := geti(2, int64(len(base)))
	mx := geti(3, int64(cap(base)))
	if lo < 0 || hi < lo || mx < hi || mx > int64(cap(base)) {
		p.rtPanic("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, cap(base))
	}
	if hi > int64(len(base)) {
		p.hiddenCap = true
	}
	if isNil {
		return Slice(nil)
	}
	return Slice(base[lo:hi:mx])
}

func (fr *frame) lookup(in *ssa.Lookup, x, k Value) Value {
	p := fr.p
	if s, ok := x.(string); ok {
		return int64(s[p.boundIdx(in.Index.Type(), k, len(s))])
	}
	m, _ := x.(*Map)
	var v Value
	found := false
	if m != nil {
		p.accessObj(fr, m, false)
		if e := p.mapFind(m, k); e != nil {
			v, found = copyVal(e.v), true
		}
	}
	if !found {
		v = p.w.zero(in.X.Type().Underlying().(*types.Map).Elem())
	}
	if in.CommaOk {
		return Tuple{v, found}
	}
	return v
}

func (p *Path) mapFind(m *Map, k Value) *mapEntry {
	if key, ok := mapKey(k); ok && !m.hasSymK {
		if i, ok := m.idx[key]; ok {
			return m.ents[i]
		}
		return nil
	}
	for _, e := range m.ents {
		if !e.deleted && p.cond(p.equal(nil, e.k, k)) {
			return e
		}
	}
	return nil
}

func (p *Path) mapSet(m *Map, k, v Value) {
	if e := p.mapFind(m, k); e != nil {
		e.v = v
		return
	}
	key, ok := mapKey(k)
	if ok {
		m.idx[key] = len(m.ents)
	} else {
		m.hasSymK = true
	}
	m.ents = append(m.ents, &mapEntry{k: k, v: v})
	m.n++
}

func (p *Path) mapDelete(m *Map, k Value) {
	e := p.mapFind(m, k)
	if e == nil {
		return
	}
	e.deleted = true
	m.n--
	if key, ok := mapKey(e.k); ok {
		delete(m.idx, key)
	}
}

func (fr *frame) rangeIter(in *ssa.Range, x Value) Value {
	p := fr.p
	switch x := x.(type) {
	case *Map:
		it := &mapIter{m: x}
		if x != nil {
			p.accessObj(fr, x, false)
			for i, e := range x.ents {
				if !e.deleted {
					it.order = append(it.order, i)
				}
			}
			if p.mapPerm && len(it.order) > 1 && (fr.c.repo) {
				n := len(it.order)
				if n <= 3 {
					// every permutation
					for i := 0; i < n-1; i++ {
						j := i + p.choose(n-i)
						it.order[i], it.order[j] = it.order[j], it.order[i]
					}
				} else if p.choose(2) == 1 {
					for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
						it.order[i], it.order[j] = it.order[j], it.order[i]
					}
				}
			}
		}
		return it
	case string:
		it := &strIter{}
		for i, r := range x {
			it.s = append(it.s, r)
			it.b = append(it.b, i)
		}
		return it
	}
	panic(abortf("range over %T", x))
}

func (fr *frame) next(in *ssa.Next, x Value) Value {
	switch it := x.(type) {
	case *mapIter:
		for it.i < len(it.order) {
			e := it.m.ents[it.order[it.i]]
			it.i++
			if e.deleted {
				continue
			}
			return Tuple{true, copyVal(e.k), copyVal(e.v)}
		}
		tt := in.Type().(*types.Tuple)
		z := func(i int) Value {
			t := tt.At(i).Type()
			if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
				return nil
			}
			return fr.p.w.zero(t)
		}
		return Tuple{false, z(1), z(2)}
	case *strIter:
		if it.i < len(it.s) {
			r := Tuple{true, int64(it.b[it.i]), int64(it.s[it.i])}
			it.i++
			return r
		}
		return Tuple{false, int64(0), int64(0)}
	}
	panic(abortf("next on %T", x))
}

func (fr *frame) typeAssert(in *ssa.TypeAssert, x Value) Value {
	p := fr.p
	ifc := x.(Iface)
	ok := false
	var v Value
	if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		if ifc.t != nil && p.w.eng.implements(ifc.t, it) {
			ok = true
			v = ifc
		}
	} else if ifc.t != nil && types.Identical(ifc.t, in.AssertedType) {
		ok = true
		v = copyVal(ifc.v)
	}
	if !ok {
		if !in.CommaOk {
			p.rtPanic("interface conversion: interface is %v, not %v", ifc.t, in.AssertedType)
		}
		v = p.w.zero(in.AssertedType)
	}
	if in.CommaOk {
		return Tuple{v, ok}
	}
	return v
}

func (p *Path) builtin(fr *frame, b *ssa.Builtin, args []Value, call *ssa.Call) Value {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case string:
			return int64(len(x))
		case Slice:
			return int64(len(x))
		case Array:
			return int64(len(x))
		case *Map:
			if x == nil {
				return int64(0)
			}
			p.accessObj(fr, x, false)
			return int64(x.n)
		case *Chan:
			if x == nil {
				return int64(0)
			}
			return int64(len(x.buf))
		case *Value:
			return int64(len((*x).(Array)))
		}
		panic(abortf("len of %T", args[0]))
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return int64(cap(x))
		case Array:
			return int64(len(x))
		case *Chan:
			return int64(x.cap)
		case *Value:
			return int64(len((*x).(Array)))
		}
		panic(abortf("cap of %T", args[0]))
	case "append":
		var dst Slice
		if args[0] != nil {
			dst = args[0].(Slice)
		}
		if len(args) == 1 {
			return dst
		}
		var src []Value
		switch x := args[1].(type) {
		case Slice:
			src = x
		case string:
			for i := 0; i < len(x); i++ {
				src = append(src, int64(x[i]))
			}
		default:
			panic(abortf("append of %T", x))
		}
		if len(src) == 0 {
			return dst
		}
		for i := range src {
			p.access(fr, &src[i], false)
		}
		if !fr.c.harness {
			p.work += int64(len(src))
		}
		n := len(dst) + len(src)
		if n > cap(dst) {
			et := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem()
			nc := growCap(len(dst), cap(dst), len(src), stdSizes.Sizeof(et), hasPointers(et))
			nd := make(Slice, len(dst), nc)
			for i := range dst {
				p.access(fr, &dst[i], false)
				nd[i] = copyVal(dst[i])
			}
			full := nd[:nc]
			for i := len(dst); i < nc; i++ {
				full[i] = p.w.zero(et)
			}
			dst2 := nd[:n]
			for i, v := range src {
				dst2[len(dst)+i] = copyVal(v)
			}
			return dst2
		}
		out := dst[:n]
		tmp := make([]Value, len(src))
		for i, v := range src {
			tmp[i] = copyVal(v)
		}
		for i := range src {
			p.access(fr, &out[len(dst)+i], true)
			storeInto(&out[len(dst)+i], tmp[i])
		}
		return out
	case "copy":
		dst := args[0].(Slice)
		var src []Value
		switch x := args[1].(type) {
		case Slice:
			src = x
		case string:
			for i := 0; i < len(x); i++ {
				src = append(src, int64(x[i]))
			}
		}
		n := len(dst)
		if len(src) < n {
			n = len(src)
		}
		if !fr.c.harness {
			p.work += int64(n)
		}
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			p.access(fr, &src[i], false)
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			p.access(fr, &dst[i], true)
			storeInto(&dst[i], tmp[i])
		}
		return int64(n)
	case "delete":
		m, _ := args[0].(*Map)
		if m != nil {
			p.accessObj(fr, m, true)
			p.mapDelete(m, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				p.accessObj(fr, x, true)
				for _, e := range x.ents {
					e.deleted = true
				}
				*x = Map{idx: map[interface{}]int{}}
			}
		case Slice:
			et := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem()
			for i := range x {
				p.access(fr, &x[i], true)
				storeInto(&x[i], p.w.zero(et))
			}
		}
		return nil
	case "panic":
		panic(targetPanic{args[0]})
	case "recover":
		// the caller frame is the deferred function
		if fr != nil && !fr.panicking && fr.caller != nil && fr.caller.panicking {
			fr.caller.panicking = false
			tp := fr.caller.panicV.(targetPanic)
			fr.caller.panicV = nil
			if i, ok := tp.v.(Iface); ok {
				if i.t == nil {
					return Iface{t: tString, v: "panic(nil)"}
				}
				return i
			}
			return Iface{t: tString, v: "panic"}
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		return p.minmax(b, args)
	case "close":
		ch := args[0].(*Chan)
		p.chanClose(fr, ch)
		return nil
	case "ssa:wrapnilchk":
		ptr, _ := args[0].(*Value)
		if ptr == nil {
			p.rtPanic("value method called using nil pointer")
		}
		return args[0]
	}
	panic(abortf("builtin %s", b.Name()))
}

func (p *Path) minmax(b *ssa.Builtin, args []Value) Value {
	acc := args[0]
	sig := b.Type().(*types.Signature)
	t := sig.Params().At(0).Type()
	for _, y := range args[1:] {
		if isFloat(t) {
			acc = p.fminmax(b.Name() == "min", acc, y)
			continue
		}
		op := token.LSS
		if b.Name() == "max" {
			op = token.GTR
		}
		if p.cond(p.binop(op, t, t, y, acc)) {
			acc = y
		}
	}
	return acc
}
