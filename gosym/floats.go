package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
)

func isNaNV(v Value) bool {
	s, ok := v.(Special)
	return ok && float64(s) != float64(s)
}

// mkFloat turns a native float into the path's representation.
func (p *Path) mkFloat(f float64) Value {
	if p.w.fp {
		return p.t.FP(f)
	}
	if f != f || math.IsInf(f, 0) {
		return Special(f)
	}
	return p.t.Rat(ratOfFloat(f))
}

// concFloat returns the native value of a concrete float.
func concFloat(v Value) (float64, bool) {
	switch v := v.(type) {
	case Special:
		return float64(v), true
	case *Term:
		if v.op == OConst {
			if v.sort == SReal {
				return ratToFloat(v.rat), true
			}
			return v.f, true
		}
	}
	return 0, false
}

// sign of a finite real, by forking: -1, 0, 1
func (p *Path) signOf(x *Term) int {
	z := p.t.Rat(ratZero)
	if p.cond(unBool(p.t.Lt(x, z))) {
		return -1
	}
	if p.cond(unBool(p.t.Lt(z, x))) {
		return 1
	}
	return 0
}

func (p *Path) fneg(x Value) Value {
	switch x := x.(type) {
	case Special:
		return Special(-float64(x))
	case *Term:
		if x.sort == SFP {
			if x.isConst() {
				return p.t.FP(-x.f)
			}
			return p.t.app(ONeg, SFP, 0, x)
		}
		return p.t.RNeg(x)
	}
	panic(abortf("fneg of %T", x))
}

func (p *Path) fpOp(op Op, x, y *Term) *Term {
	if x.isConst() && y.isConst() {
		switch op {
		case OAdd:
			return p.t.FP(x.f + y.f)
		case OSub:
			return p.t.FP(x.f - y.f)
		case OMul:
			return p.t.FP(x.f * y.f)
		case ODiv:
			return p.t.FP(x.f / y.f)
		}
	}
	return p.t.app(op, SFP, 0, x, y)
}

func (p *Path) floatBin(op token.Token, ft types.Type, x, y Value) Value {
	if b, ok := ft.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
		r := p.floatBin(op, types.Typ[types.Float64], x, y)
		if f, ok := concFloat(r); ok {
			return p.mkFloat(float64(float32(f)))
		}
		if t, ok := r.(*Term); ok && t.sort != SBool {
			return p.toFloat32(t)
		}
		return r
	}
	xs, xsp := x.(Special)
	ys, ysp := y.(Special)
	if xsp || ysp {
		// one special, maybe one finite real: only its sign can matter
		xf, yf := float64(xs), float64(ys)
		sg := func(v Value) float64 {
			t := v.(*Term)
			if t.isConst() {
				return float64(t.rat.Sign())
			}
			return float64(p.signOf(t))
		}
		switch op {
		case token.ADD, token.SUB, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if !xsp {
				xf = 0
			}
			if !ysp {
				yf = 0
			}
		case token.MUL, token.QUO:
			if !xsp {
				if yf != yf {
					return Special(math.NaN())
				}
				xf = sg(x)
				if op == token.QUO {
					return p.t.Rat(ratZero) // finite / Inf
				}
			}
			if !ysp {
				if xf != xf {
					return Special(math.NaN())
				}
				yf = sg(y)
			}
		}
		var r float64
		switch op {
		case token.ADD:
			r = xf + yf
		case token.SUB:
			r = xf - yf
		case token.MUL:
			r = xf * yf
		case token.QUO:
			r = xf / yf
		case token.LSS:
			return xf < yf
		case token.LEQ:
			return xf <= yf
		case token.GTR:
			return xf > yf
		case token.GEQ:
			return xf >= yf
		}
		return p.mkFloat(r)
	}
	a, c := x.(*Term), y.(*Term)
	t := p.t
	switch op {
	case token.LSS:
		return unBool(t.Lt(a, c))
	case token.LEQ:
		return unBool(t.Le(a, c))
	case token.GTR:
		return unBool(t.Lt(c, a))
	case token.GEQ:
		return unBool(t.Le(c, a))
	}
	if a.sort == SFP {
		switch op {
		case token.ADD:
			return p.fpOp(OAdd, a, c)
		case token.SUB:
			return p.fpOp(OSub, a, c)
		case token.MUL:
			return p.fpOp(OMul, a, c)
		case token.QUO:
			return p.fpOp(ODiv, a, c)
		}
	}
	switch op {
	case token.ADD:
		return t.RAdd(a, c)
	case token.SUB:
		return t.RSub(a, c)
	case token.MUL:
		return t.RMul(a, c)
	case token.QUO:
		return p.fdiv(a, c)
	}
	panic(abortf("float op %v", op))
}

func (p *Path) fdiv(a, c *Term) Value {
	if c.isConst() {
		if c.rat.Sign() == 0 {
			s := 0
			if a.isConst() {
				s = a.rat.Sign()
			} else {
				s = p.signOf(a)
			}
			switch s {
			case 0:
				return Special(math.NaN())
			default:
				return Special(math.Inf(s))
			}
		}
		return p.t.RDiv(a, c)
	}
	if p.cond(unBool(p.t.Eq(c, p.t.Rat(ratZero)))) {
		s := 0
		if a.isConst() {
			s = a.rat.Sign()
		} else {
			s = p.signOf(a)
		}
		if s == 0 {
			return Special(math.NaN())
		}
		return Special(math.Inf(s))
	}
	return p.t.RDiv(a, c)
}

func (p *Path) fminmax(isMin bool, x, y Value) Value {
	if isNaNV(x) || isNaNV(y) {
		return Special(math.NaN())
	}
	xs, xsp := x.(Special)
	ys, ysp := y.(Special)
	if xsp && ysp {
		if isMin {
			return Special(math.Min(float64(xs), float64(ys)))
		}
		return Special(math.Max(float64(xs), float64(ys)))
	}
	if ysp {
		x, y = y, x
		xs, xsp = ys, true
	}
	if xsp {
		if (float64(xs) > 0) == isMin {
			return y
		}
		return x
	}
	a, c := x.(*Term), y.(*Term)
	if a.sort == SFP {
		l := p.t.Lt(a, c)
		if !isMin {
			l = p.t.Lt(c, a)
		}
		return p.t.Ite(p.t.Or(p.isNaN(a), p.isNaN(c)), p.t.FP(math.NaN()), p.t.Ite(l, a, c))
	}
	l := p.t.Lt(a, c)
	if isMin {
		return p.ite(l, a, c)
	}
	return p.ite(l, c, a)
}

// ite resolves a known condition, else builds a term.
func (p *Path) ite(c, a, b *Term) Value {
	switch p.known(c) {
	case 1:
		return a
	case -1:
		return b
	}
	if ordLeaf(a) && ordLeaf(b) {
		// keep values as leaves so that order reasoning stays complete
		if p.branch(c) {
			return a
		}
		return b
	}
	return p.t.Ite(c, a, b)
}

func (p *Path) isNaN(t *Term) *Term {
	if t.isConst() {
		return p.t.Bool(t.f != t.f)
	}
	return p.t.app(OIsNaN, SBool, 0, t)
}

func ratSqrt(r *big.Rat) *big.Rat {
	if r.Sign() < 0 {
		return nil
	}
	n := new(big.Int).Sqrt(r.Num())
	d := new(big.Int).Sqrt(r.Denom())
	if new(big.Int).Mul(n, n).Cmp(r.Num()) == 0 && new(big.Int).Mul(d, d).Cmp(r.Denom()) == 0 {
		return new(big.Rat).SetFrac(n, d)
	}
	return nil
}

// sqrt introduces r with r >= 0 and r*r = x.
// toFloat32 is any value that rounding to single precision could give.
func (p *Path) toFloat32(x Value) Value {
	t, ok := x.(*Term)
	if !ok || t.sort != SReal {
		panic(abortf("float32 conversion"))
	}
	if r, ok := p.f32[t]; ok {
		return r
	}
	if p.f32 == nil {
		p.f32 = map[*Term]*Term{}
	}
	r := p.fresh("single", SReal, 0)
	p.f32[t] = r
	if p.model != nil {
		if v, ok := t.eval(p.model, p.ec).(*big.Rat); ok {
			n := make(Model, len(p.model)+1)
			for k, x := range p.model {
				n[k] = x
			}
			n[r.name] = v
			p.model, p.ec = n, evalCache{}
		}
	}
	e := p.t.Rat(big.NewRat(1, 1<<24))
	zero := p.t.Rat(ratZero)
	neg := p.t.Le(t, zero)
	d := p.t.RSub(r, t)
	m := p.t.RMul(e, t)
	nm := p.t.RNeg(m)
	in := func(lo, hi *Term) *Term { return p.t.And(p.t.Le(lo, d), p.t.Le(d, hi)) }
	p.assume(p.t.Or(p.t.And(neg, in(m, nm)), p.t.And(p.t.Not(neg), in(nm, m))))
	p.f32[r] = r
	return r
}

func (p *Path) sqrt(x Value) Value {
	if s, ok := x.(Special); ok {
		return Special(math.Sqrt(float64(s)))
	}
	t := x.(*Term)
	if t.sort == SFP {
		if t.isConst() {
			return p.t.FP(math.Sqrt(t.f))
		}
		return p.t.app(OSqrt, SFP, 0, t)
	}
	if t.isConst() {
		if r := ratSqrt(t.rat); r != nil {
			return p.t.Rat(r)
		}
		if t.rat.Sign() < 0 {
			return Special(math.NaN())
		}
	}
	if r, ok := p.sqrts[t]; ok {
		return r
	}
	if !t.isConst() && p.cond(unBool(p.t.Lt(t, p.t.Rat(ratZero)))) {
		return Special(math.NaN())
	}
	p.nsqrt++
	name := fmt.Sprintf("sqrt%d", p.nsqrt)
	r := p.t.Var(name, SReal, 0)
	p.sqrts[t] = r
	// the model's value, when it is rational
	if p.modelOK {
		n := make(Model, len(p.model)+1)
		for k, v := range p.model {
			n[k] = v
		}
		delete(n, name)
		if x, ok := t.eval(p.model, p.ec).(*big.Rat); ok {
			if q := ratSqrt(x); q != nil {
				n[name] = q
			} else if _, had := p.model[name]; had {
				n[name] = p.model[name]
			}
		}
		p.setModel(n, true)
	}
	p.addPC(p.t.Le(p.t.Rat(ratZero), r))
	p.addPC(p.t.Eq(p.t.RMul(r, r), t))
	return r
}

func (p *Path) intPow(x *Term, n int64) Value {
	if n == 0 {
		return p.t.Rat(ratOne)
	}
	neg := n < 0
	if neg {
		n = -n
	}
	if n > 4096 || (!x.isConst() && n > 64) {
		panic(abortf("power %d", n))
	}
	acc := x
	if x.isConst() {
		e := big.NewInt(n)
		acc = p.t.Rat(new(big.Rat).SetFrac(new(big.Int).Exp(x.rat.Num(), e, nil), new(big.Int).Exp(x.rat.Denom(), e, nil)))
	} else {
		for i := int64(1); i < n; i++ {
			acc = p.t.RMul(acc, x)
		}
	}
	if neg {
		return p.fdiv(p.t.Rat(ratOne), acc)
	}
	return acc
}

func (p *Path) pow(x, y Value) Value {
	xf, xc := concFloat(x)
	yf, yc := concFloat(y)
	if p.w.fp {
		if xc && yc {
			return p.t.FP(math.Pow(xf, yf))
		}
		if yc {
			switch yf {
			case 0:
				return p.t.FP(1)
			case 1:
				return x
			}
			if n := int(math.Abs(yf)); float64(n) == math.Abs(yf) && n <= 64 {
				// the order of multiplications of math.Pow
				r, b := p.t.FP(1), x.(*Term)
				for ; n != 0; n >>= 1 {
					if n&1 == 1 {
						if r.isConst() && r.f == 1 {
							r = b
						} else {
							r = p.fpOp(OMul, r, b)
						}
					}
					if n > 1 {
						b = p.fpOp(OMul, b, b)
					}
				}
				if yf < 0 {
					r = p.fpOp(ODiv, p.t.FP(1), r)
				}
				return r
			}
		}
		if xc && xf == 1 {
			return p.t.FP(1)
		}
		if yt, ok := y.(*Term); ok && xc && xf == -1 {
			// an even number or an infinity gives 1, an odd number -1, anything else NaN
			whole := p.t.Eq(p.t.app(OTrunc, SFP, 0, yt), yt)
			half := p.fpOp(OMul, yt, p.t.FP(0.5))
			even := p.t.Eq(p.t.app(OTrunc, SFP, 0, half), half)
			return p.t.Ite(whole, p.t.Ite(even, p.t.FP(1), p.t.FP(-1)), p.t.FP(math.NaN()))
		}
		panic(abortf("math.Pow in fp mode"))
	}
	if !yc {
		panic(abortf("math.Pow with a symbolic exponent"))
	}
	if _, sp := x.(Special); sp {
		return p.mkFloat(math.Pow(xf, yf))
	}
	if _, sp := y.(Special); sp {
		if xc {
			return p.mkFloat(math.Pow(xf, yf))
		}
		panic(abortf("math.Pow with infinite exponent"))
	}
	xt, yt := x.(*Term), y.(*Term)
	if yt.rat.IsInt() && yt.rat.Num().IsInt64() {
		n := yt.rat.Num().Int64()
		if n < 0 {
			d, _ := p.intPow(xt, -n).(*Term)
			return p.fdiv(p.t.Rat(ratOne), d)
		}
		return p.intPow(xt, n)
	}
	two := new(big.Rat).Mul(yt.rat, big.NewRat(2, 1))
	if two.IsInt() && two.Num().IsInt64() {
		n := two.Num().Int64() // odd
		neg := n < 0
		if neg {
			n = -n
		}
		s := p.sqrt(xt)
		st, ok := s.(*Term)
		if !ok {
			return s
		}
		r := st
		if n > 1 {
			ip := p.intPow(xt, (n-1)/2).(*Term)
			r = p.t.RMul(ip, st)
		}
		if neg {
			return p.fdiv(p.t.Rat(ratOne), r)
		}
		return r
	}
	if xc {
		p.approx = true
		return p.mkFloat(math.Pow(xf, yf))
	}
	panic(abortf("math.Pow with exponent %v", yt.rat))
}

// rounding: mode f(loor) c(eil) t(runc) r(ound half away) e(ven)
func (p *Path) round(x Value, mode byte) Value {
	nat := func(f float64) float64 {
		switch mode {
		case 'f':
			return math.Floor(f)
		case 'c':
			return math.Ceil(f)
		case 't':
			return math.Trunc(f)
		case 'r':
			return math.Round(f)
		}
		return math.RoundToEven(f)
	}
	if s, ok := x.(Special); ok {
		return Special(nat(float64(s)))
	}
	t := x.(*Term)
	if t.sort == SFP {
		if t.isConst() {
			return p.t.FP(nat(t.f))
		}
		switch mode {
		case 'f':
			return p.t.app(OFloor, SFP, 0, t)
		case 'c':
			return p.t.app(OCeil, SFP, 0, t)
		case 't':
			return p.t.app(OTrunc, SFP, 0, t)
		}
		panic(abortf("rounding mode in fp"))
	}
	toR := func(b *big.Int) Value { return p.t.Rat(new(big.Rat).SetInt(b)) }
	one := big.NewInt(1)
	switch mode {
	case 'f':
		return toR(p.floorOf(t))
	case 'c':
		b := p.floorOf(p.t.RNeg(t))
		return toR(new(big.Int).Neg(b))
	case 't':
		if p.cond(unBool(p.t.Lt(t, p.t.Rat(ratZero)))) {
			b := p.floorOf(p.t.RNeg(t))
			return toR(new(big.Int).Neg(b))
		}
		return toR(p.floorOf(t))
	case 'r':
		half := p.t.Rat(big.NewRat(1, 2))
		if p.cond(unBool(p.t.Lt(t, p.t.Rat(ratZero)))) {
			b := p.floorOf(p.t.RAdd(p.t.RNeg(t), half))
			return toR(new(big.Int).Neg(b))
		}
		return toR(p.floorOf(p.t.RAdd(t, half)))
	default:
		b := p.floorOf(t)
		fr := p.t.RSub(t, p.t.Rat(new(big.Rat).SetInt(b)))
		half := p.t.Rat(big.NewRat(1, 2))
		up := false
		if p.cond(unBool(p.t.Lt(half, fr))) {
			up = true
		} else if p.cond(unBool(p.t.Eq(half, fr))) {
			up = b.Bit(0) == 1
		}
		if up {
			b = new(big.Int).Add(b, one)
		}
		return toR(b)
	}
}

func (p *Path) floatToInt(x Value, b bits) Value {
	switch x := x.(type) {
	case Special:
		return int64(math.MinInt64)
	case *Term:
		if x.sort == SFP {
			if x.isConst() {
				return normInt(int64(x.f), b)
			}
			return unBV(p.t.BVresize(p.t.app(OFtoI, SBV, 64, x), b.w, b.signed), b)
		}
		r := p.round(x, 't').(*Term)
		if !r.rat.Num().IsInt64() {
			return int64(math.MinInt64)
		}
		return normInt(r.rat.Num().Int64(), b)
	}
	panic(abortf("float to int of %T", x))
}

func (p *Path) intToFloat(x Value, b bits) Value {
	switch x := x.(type) {
	case int64:
		r := new(big.Rat)
		if b.signed {
			r.SetInt64(x)
		} else {
			r.SetInt(new(big.Int).SetUint64(uint64(x)))
		}
		if p.w.fp {
			f, _ := r.Float64()
			return p.t.FP(f)
		}
		return p.t.Rat(r)
	case *Term:
		if p.w.fp {
			if b.signed {
				return p.t.app(OItoF, SFP, 0, x)
			}
			return p.t.app(OUtoF, SFP, 0, x)
		}
		return p.intToFloat(p.concretize(x, b.signed), b)
	}
	panic(abortf("int to float of %T", x))
}

func (p *Path) convert(to, from types.Type, x Value) Value {
	ut, uf := to.Underlying(), from.Underlying()
	if tb, ok := intBits(ut); ok {
		if fb, ok := intBits(uf); ok {
			switch x := x.(type) {
			case int64:
				return normInt(x, tb)
			case *Term:
				return unBV(p.t.BVresize(x, tb.w, fb.signed), tb)
			}
		}
		if isFloat(uf) {
			return p.floatToInt(x, tb)
		}
		if _, ok := x.(*Value); ok { // uintptr(unsafe.Pointer)
			return int64(1)
		}
	}
	if isFloat(ut) {
		if fb, ok := intBits(uf); ok {
			return p.intToFloat(x, fb)
		}
		if isFloat(uf) {
			tb := ut.(*types.Basic)
			fb := uf.(*types.Basic)
			if tb.Kind() == types.Float32 && fb.Kind() != types.Float32 {
				if f, ok := concFloat(x); ok {
					return p.mkFloat(float64(float32(f)))
				}
				return p.toFloat32(x)
			}
			return x
		}
	}
	if isString(ut) {
		if isString(uf) {
			return x
		}
		if _, ok := intBits(uf); ok {
			return string(rune(x.(int64)))
		}
		if st, ok := uf.(*types.Slice); ok {
			if eb, ok := intBits(st.Elem()); ok {
				s := x.(Slice)
				if eb.w == 8 {
					bs := make([]byte, len(s))
					for i := range s {
						bs[i] = byte(s[i].(int64))
					}
					return string(bs)
				}
				rs := make([]rune, len(s))
				for i := range s {
					rs[i] = rune(s[i].(int64))
				}
				return string(rs)
			}
		}
	}
	if st, ok := ut.(*types.Slice); ok && isString(uf) {
		s, isc := x.(string)
		if !isc {
			panic(abortf("conversion of a symbolic string"))
		}
		eb, _ := intBits(st.Elem())
		out := Slice{}
		if eb.w == 8 {
			for i := 0; i < len(s); i++ {
				out = append(out, int64(s[i]))
			}
		} else {
			for _, r := range s {
				out = append(out, int64(r))
			}
		}
		return out
	}
	switch ut.(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Struct, *types.Array, *types.Interface:
		return x
	}
	if b, ok := ut.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		if _, ok := x.(*Value); ok {
			return x
		}
	}
	if isBool(ut) {
		return x
	}
	panic(abortf("conversion %v -> %v", from, to))
}
