package main

import (
	"fmt"
	"math"
	"math/big"
	"strings"
)

// Terms are hash-consed SMT expressions. One table per worker.

type Sort uint8

const (
	SBool Sort = iota
	SReal
	SFP // IEEE binary64
	SBV
)

type Op uint8

const (
	OVar Op = iota
	OConst
	OAdd
	OSub
	OMul
	ODiv
	ONeg
	OLt
	OLe
	OEq // logical equality; for SFP this is fp.eq (IEEE ==)
	ONot
	OAnd
	OOr
	OIte
	OAbs
	// floating point only
	OIsNaN
	OIsInf
	OTrunc // roundToIntegral RTZ (SFP)
	OFloor
	OCeil
	OSqrt
	OFtoI   // SFP -> BV64 (RTZ)
	OItoF   // BV (signed) -> SFP
	OUtoF   // BV (unsigned) -> SFP
	OFpSame // structural equality on SFP (NaN = NaN, +0 != -0)
	// bit-vectors
	OBAdd
	OBSub
	OBMul
	OBUdiv
	OBSdiv
	OBUrem
	OBSrem
	OBAnd
	OBOr
	OBXor
	OBShl
	OBLshr
	OBAshr
	OBNot
	OBNeg
	OBUlt
	OBUle
	OBSlt
	OBSle
	OBExtract // to width w (low bits)
	OBZext
	OBSext
	// uninterpreted formatting of a float as an identity token (SReal->SReal not needed)
)

type Term struct {
	id   int
	op   Op
	sort Sort
	w    uint8
	args []*Term
	rat  *big.Rat // SReal const
	u    uint64   // SBV const, SBool const (0/1)
	f    float64  // SFP const
	name string
	nl   bool // contains nonlinear arithmetic
	size int  // saturating DAG-unaware size
}

type termKey struct {
	op      Op
	sort    Sort
	w       uint8
	a, b, c int
	s       string
}

type Terms struct {
	tab   map[termKey]*Term
	n     int
	True  *Term
	False *Term
}

func NewTerms() *Terms {
	t := &Terms{tab: map[termKey]*Term{}}
	t.True = t.mk(termKey{op: OConst, sort: SBool, s: "1"}, func(x *Term) { x.u = 1 })
	t.False = t.mk(termKey{op: OConst, sort: SBool, s: "0"}, nil)
	return t
}

func (t *Terms) mk(k termKey, init func(*Term), args ...*Term) *Term {
	if x, ok := t.tab[k]; ok {
		return x
	}
	t.n++
	x := &Term{id: t.n, op: k.op, sort: k.sort, w: k.w, args: args, size: 1}
	for _, a := range args {
		x.size += a.size
		if a.nl {
			x.nl = true
		}
	}
	if x.size > 1<<30 {
		x.size = 1 << 30
	}
	if init != nil {
		init(x)
	}
	t.tab[k] = x
	return x
}

func (t *Terms) app(op Op, sort Sort, w uint8, args ...*Term) *Term {
	k := termKey{op: op, sort: sort, w: w}
	if len(args) > 0 {
		k.a = args[0].id
	}
	if len(args) > 1 {
		k.b = args[1].id
	}
	if len(args) > 2 {
		k.c = args[2].id
	}
	return t.mk(k, func(x *Term) {
		if sort == SFP {
			switch op {
			case OAdd, OSub, OMul, ODiv, OSqrt:
				x.nl = true // to a fresh process: its tactics are better at these
			}
		}
		if sort == SReal || sort == SBool {
			switch op {
			case OMul:
				if args[0].op != OConst && args[1].op != OConst {
					x.nl = true
				}
			case ODiv:
				if args[1].op != OConst {
					x.nl = true
				}
			}
		}
	}, args...)
}

func (t *Terms) Var(name string, sort Sort, w uint8) *Term {
	return t.mk(termKey{op: OVar, sort: sort, w: w, s: name}, func(x *Term) { x.name = name })
}

func (t *Terms) Bool(b bool) *Term {
	if b {
		return t.True
	}
	return t.False
}

func (t *Terms) Rat(r *big.Rat) *Term {
	return t.mk(termKey{op: OConst, sort: SReal, s: r.RatString()}, func(x *Term) { x.rat = r })
}

func (t *Terms) FP(f float64) *Term {
	return t.mk(termKey{op: OConst, sort: SFP, s: fmt.Sprintf("%x", math.Float64bits(f))}, func(x *Term) { x.f = f })
}

func (t *Terms) BV(u uint64, w uint8) *Term {
	if w < 64 {
		u &= (1 << w) - 1
	}
	return t.mk(termKey{op: OConst, sort: SBV, w: w, s: fmt.Sprint(u)}, func(x *Term) { x.u = u })
}

func (x *Term) isConst() bool { return x.op == OConst }

// ---- boolean

func (t *Terms) Not(a *Term) *Term {
	if a.isConst() {
		return t.Bool(a.u == 0)
	}
	if a.op == ONot {
		return a.args[0]
	}
	return t.app(ONot, SBool, 0, a)
}

func (t *Terms) And(a, b *Term) *Term {
	if a.isConst() {
		if a.u == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.u == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	return t.app(OAnd, SBool, 0, a, b)
}

func (t *Terms) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.u == 1 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.u == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	return t.app(OOr, SBool, 0, a, b)
}

func (t *Terms) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.u == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	return t.app(OIte, a.sort, a.w, c, a, b)
}

func (t *Terms) Eq(a, b *Term) *Term {
	if a == b && a.sort != SFP {
		return t.True
	}
	if a.isConst() && b.isConst() {
		switch a.sort {
		case SBool, SBV:
			return t.Bool(a.u == b.u)
		case SReal:
			return t.Bool(a.rat.Cmp(b.rat) == 0)
		case SFP:
			return t.Bool(a.f == b.f)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return t.app(OEq, SBool, 0, a, b)
}

// ---- real arithmetic

var ratOne = big.NewRat(1, 1)
var ratZero = new(big.Rat)

func (t *Terms) RAdd(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return t.Rat(new(big.Rat).Add(a.rat, b.rat))
	}
	if a.isConst() && a.rat.Sign() == 0 {
		return b
	}
	if b.isConst() && b.rat.Sign() == 0 {
		return a
	}
	return t.app(OAdd, SReal, 0, a, b)
}
func (t *Terms) RSub(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return t.Rat(new(big.Rat).Sub(a.rat, b.rat))
	}
	if b.isConst() && b.rat.Sign() == 0 {
		return a
	}
	if a == b {
		return t.Rat(ratZero)
	}
	return t.app(OSub, SReal, 0, a, b)
}
func (t *Terms) RMul(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return t.Rat(new(big.Rat).Mul(a.rat, b.rat))
	}
	if b.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		if a.rat.Sign() == 0 {
			return a
		}
		if a.rat.Cmp(ratOne) == 0 {
			return b
		}
	}
	return t.app(OMul, SReal, 0, a, b)
}
func (t *Terms) RDiv(a, b *Term) *Term { // b known nonzero
	if b.isConst() {
		return t.RMul(t.Rat(new(big.Rat).Inv(b.rat)), a)
	}
	return t.app(ODiv, SReal, 0, a, b)
}
func (t *Terms) RNeg(a *Term) *Term {
	if a.isConst() {
		return t.Rat(new(big.Rat).Neg(a.rat))
	}
	return t.app(ONeg, SReal, 0, a)
}
func (t *Terms) Lt(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		if a.sort == SFP {
			return t.Bool(a.f < b.f)
		}
		return t.Bool(a.rat.Cmp(b.rat) < 0)
	}
	if a == b {
		return t.False
	}
	return t.app(OLt, SBool, 0, a, b)
}
func (t *Terms) Le(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		if a.sort == SFP {
			return t.Bool(a.f <= b.f)
		}
		return t.Bool(a.rat.Cmp(b.rat) <= 0)
	}
	if a == b && a.sort == SReal {
		return t.True
	}
	if a.sort == SReal {
		// canonical: a <= b  ==  not (b < a)
		return t.Not(t.Lt(b, a))
	}
	return t.app(OLe, SBool, 0, a, b)
}

// ---- bit-vectors

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (1 << w) - 1
}
func sx(u uint64, w uint8) int64 {
	s := 64 - w
	return int64(u<<s) >> s
}

func (t *Terms) BVop(op Op, a, b *Term) *Term {
	w := a.w
	boolRes := op == OBUlt || op == OBUle || op == OBSlt || op == OBSle
	if a.isConst() && b.isConst() {
		x, y := a.u, b.u
		sxx, sy := sx(x, w), sx(y, w)
		var r uint64
		ok := true
		switch op {
		case OBAdd:
			r = x + y
		case OBSub:
			r = x - y
		case OBMul:
			r = x * y
		case OBUdiv:
			if ok = y != 0; ok {
				r = x / y
			}
		case OBUrem:
			if ok = y != 0; ok {
				r = x % y
			}
		case OBSdiv:
			if ok = y != 0 && sy != -1; ok {
				r = uint64(sxx / sy)
			} else if sy == -1 {
				r = uint64(-sxx)
				ok = true
			}
		case OBSrem:
			if ok = y != 0; ok {
				if sy == -1 {
					r = 0
				} else {
					r = uint64(sxx % sy)
				}
			}
		case OBAnd:
			r = x & y
		case OBOr:
			r = x | y
		case OBXor:
			r = x ^ y
		case OBShl:
			if y < 64 {
				r = x << y
			}
		case OBLshr:
			if y < 64 {
				r = x >> y
			}
		case OBAshr:
			s := y
			if s > 63 {
				s = 63
			}
			r = uint64(sxx >> s)
		case OBUlt:
			return t.Bool(x < y)
		case OBUle:
			return t.Bool(x <= y)
		case OBSlt:
			return t.Bool(sxx < sy)
		case OBSle:
			return t.Bool(sxx <= sy)
		default:
			ok = false
		}
		if ok {
			return t.BV(r&mask(w), w)
		}
	}
	if op == OBAdd && b.isConst() && b.u == 0 || op == OBSub && b.isConst() && b.u == 0 {
		return a
	}
	if op == OBAdd && a.isConst() && a.u == 0 {
		return b
	}
	if op == OBMul {
		if a.isConst() && a.u == 1 {
			return b
		}
		if b.isConst() && b.u == 1 {
			return a
		}
		if a.isConst() && a.u == 0 {
			return a
		}
		if b.isConst() && b.u == 0 {
			return b
		}
	}
	if boolRes {
		return t.app(op, SBool, 0, a, b)
	}
	return t.app(op, SBV, w, a, b)
}

func (t *Terms) BVresize(a *Term, w uint8, signed bool) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		if w < a.w || !signed {
			return t.BV(a.u, w)
		}
		return t.BV(uint64(sx(a.u, a.w)), w)
	}
	if w < a.w {
		return t.app(OBExtract, SBV, w, a)
	}
	if signed {
		return t.app(OBSext, SBV, w, a)
	}
	return t.app(OBZext, SBV, w, a)
}

// ---- SMT-LIB output

func ratSMT(r *big.Rat) string {
	n := new(big.Int).Abs(r.Num()).String() + ".0"
	if !r.IsInt() {
		n = "(/ " + n + " " + r.Denom().String() + ".0)"
	}
	if r.Sign() < 0 {
		return "(- " + n + ")"
	}
	return n
}

func (x *Term) sortSMT() string {
	switch x.sort {
	case SBool:
		return "Bool"
	case SReal:
		return "Real"
	case SFP:
		return "(_ FloatingPoint 11 53)"
	default:
		return fmt.Sprintf("(_ BitVec %d)", x.w)
	}
}

// leaf returns the inline SMT text of a term: constants inline, everything else by name.
func (x *Term) ref() string {
	switch x.op {
	case OConst:
		switch x.sort {
		case SBool:
			if x.u == 1 {
				return "true"
			}
			return "false"
		case SReal:
			return ratSMT(x.rat)
		case SFP:
			b := math.Float64bits(x.f)
			if x.f != x.f {
				return "(_ NaN 11 53)"
			}
			return fmt.Sprintf("(fp #b%b #b%011b #b%052b)", b>>63, b>>52&0x7ff, b&(1<<52-1))
		default:
			return fmt.Sprintf("(_ bv%d %d)", x.u, x.w)
		}
	case OVar:
		return "|" + x.name + "|"
	}
	return fmt.Sprintf("t%d", x.id)
}

var opSMT = map[Op]string{
	OAdd: "+", OSub: "-", OMul: "*", ODiv: "/", ONeg: "-", OLt: "<", OLe: "<=", OEq: "=",
	ONot: "not", OAnd: "and", OOr: "or", OIte: "ite",
	OBAdd: "bvadd", OBSub: "bvsub", OBMul: "bvmul", OBUdiv: "bvudiv", OBSdiv: "bvsdiv", OBUrem: "bvurem",
	OBSrem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBShl: "bvshl", OBLshr: "bvlshr",
	OBAshr: "bvashr", OBNot: "bvnot", OBNeg: "bvneg", OBUlt: "bvult", OBUle: "bvule", OBSlt: "bvslt", OBSle: "bvsle",
}

func (x *Term) body() string {
	fp := len(x.args) > 0 && x.args[len(x.args)-1].sort == SFP
	head := opSMT[x.op]
	switch x.op {
	case OAdd, OSub, OMul, ODiv:
		if fp {
			head = map[Op]string{OAdd: "fp.add RNE", OSub: "fp.sub RNE", OMul: "fp.mul RNE", ODiv: "fp.div RNE"}[x.op]
		}
	case ONeg, OLt, OLe, OEq:
		if fp {
			head = map[Op]string{ONeg: "fp.neg", OLt: "fp.lt", OLe: "fp.leq", OEq: "fp.eq"}[x.op]
		}
	case OFpSame:
		head = "="
	case OAbs:
		head = "fp.abs"
	case OIsNaN:
		head = "fp.isNaN"
	case OIsInf:
		head = "fp.isInfinite"
	case OTrunc:
		head = "fp.roundToIntegral RTZ"
	case OFloor:
		head = "fp.roundToIntegral RTN"
	case OCeil:
		head = "fp.roundToIntegral RTP"
	case OSqrt:
		head = "fp.sqrt RNE"
	case OFtoI:
		head = "(_ fp.to_sbv 64) RTZ"
	case OItoF:
		head = "(_ to_fp 11 53) RNE"
	case OUtoF:
		head = "(_ to_fp_unsigned 11 53) RNE"
	case OBExtract:
		head = fmt.Sprintf("(_ extract %d 0)", x.w-1)
	case OBZext:
		head = fmt.Sprintf("(_ zero_extend %d)", x.w-x.args[0].w)
	case OBSext:
		head = fmt.Sprintf("(_ sign_extend %d)", x.w-x.args[0].w)
	}
	var b strings.Builder
	b.WriteByte('(')
	b.WriteString(head)
	for _, a := range x.args {
		b.WriteByte(' ')
		b.WriteString(a.ref())
	}
	b.WriteByte(')')
	return b.String()
}

// emit writes declarations/definitions for x (and its subterms) not yet in done.
func (x *Term) emit(b *strings.Builder, done map[int]bool) {
	if x.op == OConst || done[x.id] {
		return
	}
	// iterative post-order to avoid deep recursion
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{x, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.i < len(f.t.args) {
			a := f.t.args[f.i]
			f.i++
			if a.op != OConst && !done[a.id] {
				st = append(st, fr{a, 0})
			}
			continue
		}
		t := f.t
		st = st[:len(st)-1]
		if done[t.id] {
			continue
		}
		done[t.id] = true
		if t.op == OVar {
			fmt.Fprintf(b, "(declare-const %s %s)\n", t.ref(), t.sortSMT())
		} else {
			fmt.Fprintf(b, "(define-fun t%d () %s %s)\n", t.id, t.sortSMT(), t.body())
		}
	}
}

// ---- evaluation under a model (nil result = cannot evaluate)

type Model map[string]interface{} // variable name -> *big.Rat | uint64 | bool | float64

type evalCache map[*Term]interface{}

func (x *Term) eval(m Model, c evalCache) interface{} {
	if x.op == OConst {
		switch x.sort {
		case SBool:
			return x.u == 1
		case SReal:
			return x.rat
		case SFP:
			return x.f
		default:
			return x.u
		}
	}
	if x.op == OVar {
		if v, ok := m[x.name]; ok {
			return v
		}
		return nil
	}
	if v, ok := c[x]; ok {
		return v
	}
	r := x.eval1(m, c)
	c[x] = r
	return r
}

func (x *Term) eval1(m Model, c evalCache) interface{} {
	vs := make([]interface{}, len(x.args))
	for i, a := range x.args {
		vs[i] = a.eval(m, c)
		if vs[i] == nil {
			// short circuits
			if x.op == OAnd || x.op == OOr || x.op == OIte {
				continue
			}
			return nil
		}
	}
	switch x.op {
	case ONot:
		return !vs[0].(bool)
	case OAnd:
		if b, ok := vs[0].(bool); ok && !b {
			return false
		}
		if b, ok := vs[1].(bool); ok && !b {
			return false
		}
		if vs[0] == nil || vs[1] == nil {
			return nil
		}
		return true
	case OOr:
		if b, ok := vs[0].(bool); ok && b {
			return true
		}
		if b, ok := vs[1].(bool); ok && b {
			return true
		}
		if vs[0] == nil || vs[1] == nil {
			return nil
		}
		return false
	case OIte:
		if vs[0] == nil {
			return nil
		}
		if vs[0].(bool) {
			return vs[1]
		}
		return vs[2]
	}
	switch a := vs[0].(type) {
	case *big.Rat:
		var b *big.Rat
		if len(vs) > 1 {
			b = vs[1].(*big.Rat)
		}
		switch x.op {
		case OAdd:
			return new(big.Rat).Add(a, b)
		case OSub:
			return new(big.Rat).Sub(a, b)
		case OMul:
			return new(big.Rat).Mul(a, b)
		case ODiv:
			if b.Sign() == 0 {
				return nil
			}
			return new(big.Rat).Quo(a, b)
		case ONeg:
			return new(big.Rat).Neg(a)
		case OLt:
			return a.Cmp(b) < 0
		case OLe:
			return a.Cmp(b) <= 0
		case OEq:
			return a.Cmp(b) == 0
		}
	case bool:
		if x.op == OEq {
			return a == vs[1].(bool)
		}
	case uint64:
		w := x.args[0].w
		if len(vs) > 1 {
			b := vs[1].(uint64)
			tt := &Terms{tab: map[termKey]*Term{}}
			tt.True = tt.mk(termKey{op: OConst, sort: SBool, s: "1"}, func(x *Term) { x.u = 1 })
			tt.False = tt.mk(termKey{op: OConst, sort: SBool, s: "0"}, nil)
			if x.op == OEq {
				return a == b
			}
			if (x.op == OBUdiv || x.op == OBSdiv || x.op == OBUrem || x.op == OBSrem) && b == 0 {
				return nil
			}
			r := tt.BVop(x.op, tt.BV(a, w), tt.BV(b, w))
			if !r.isConst() {
				return nil
			}
			if r.sort == SBool {
				return r.u == 1
			}
			return r.u
		}
		switch x.op {
		case OBExtract, OBZext:
			return a & mask(x.w)
		case OBSext:
			return uint64(sx(a, w)) & mask(x.w)
		case OBNot:
			return ^a & mask(w)
		case OBNeg:
			return -a & mask(w)
		case OItoF:
			return float64(sx(a, w))
		case OUtoF:
			return float64(a)
		}
	case float64:
		var b float64
		if len(vs) > 1 {
			b = vs[1].(float64)
		}
		switch x.op {
		case OAdd:
			return a + b
		case OSub:
			return a - b
		case OMul:
			return a * b
		case ODiv:
			return a / b
		case ONeg:
			return -a
		case OLt:
			return a < b
		case OLe:
			return a <= b
		case OEq:
			return a == b
		case OFpSame:
			return a != a && b != b || math.Float64bits(a) == math.Float64bits(b)
		case OAbs:
			return math.Abs(a)
		case OIsNaN:
			return a != a
		case OIsInf:
			return math.IsInf(a, 0)
		case OTrunc:
			return math.Trunc(a)
		case OFloor:
			return math.Floor(a)
		case OCeil:
			return math.Ceil(a)
		case OSqrt:
			return math.Sqrt(a)
		case OFtoI:
			if a != a || math.Abs(a) >= 9.2e18 {
				return nil
			}
			return uint64(int64(a))
		}
	}
	return nil
}
