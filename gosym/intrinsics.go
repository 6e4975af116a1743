package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	mbits "math/bits"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

const symPkg = "github.com/alexander-yu/stream/zverif/sym"

var intrinsics map[string]intrinsic

// refused packages are never interpreted.
func refused(path string) bool {
	switch path {
	case "runtime", "reflect", "syscall", "os", "unsafe", "net", "internal/poll", "internal/reflectlite", "time", "fmt", "log", "internal/abi", "internal/sync", "internal/race", "testing":
		return true
	}
	return strings.HasPrefix(path, "runtime/") || strings.HasPrefix(path, "internal/runtime/") || strings.HasPrefix(path, "golang.org/x/sys") || strings.HasPrefix(path, "net/")
}

// packages whose initialisers are skipped (their variables stay zero)
var noInit = map[string]bool{
	"runtime": true, "reflect": true, "os": true, "syscall": true, "time": true, "fmt": true, "math/rand": true, "math/rand/v2": true,
	"internal/godebug": true, "internal/cpu": true, "sync": true, "github.com/sirupsen/logrus": true, "encoding/json": true, "testing": true,
	"unicode": true, "log": true, "internal/reflectlite": true,
}

// errNative marks arguments that cannot be passed to a native function.
type errNative struct{}

func toNative(v Value, t reflect.Type) (rv reflect.Value, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	switch t.Kind() {
	case reflect.String:
		s, k := v.(string)
		return reflect.ValueOf(s).Convert(t), k
	case reflect.Bool:
		b, k := v.(bool)
		return reflect.ValueOf(b).Convert(t), k
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		i, k := v.(int64)
		return reflect.ValueOf(i).Convert(t), k
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		i, k := v.(int64)
		return reflect.ValueOf(uint64(i)).Convert(t), k
	case reflect.Float64:
		f, k := concFloat(v)
		return reflect.ValueOf(f), k
	case reflect.Slice:
		s, k := v.(Slice)
		if !k {
			return reflect.Value{}, false
		}
		if s == nil {
			return reflect.Zero(t), true
		}
		out := reflect.MakeSlice(t, len(s), len(s))
		for i := range s {
			e, k := toNative(s[i], t.Elem())
			if !k {
				return reflect.Value{}, false
			}
			out.Index(i).Set(e)
		}
		return out, true
	}
	return reflect.Value{}, false
}

func (p *Path) fromNative(r reflect.Value) Value {
	switch r.Kind() {
	case reflect.String:
		return r.String()
	case reflect.Bool:
		return r.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return r.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return int64(r.Uint())
	case reflect.Float64:
		return p.mkFloat(r.Float())
	case reflect.Slice:
		if r.IsNil() {
			return Slice(nil)
		}
		s := make(Slice, r.Len())
		for i := range s {
			s[i] = p.fromNative(r.Index(i))
		}
		return s
	case reflect.Interface:
		if r.IsNil() {
			return Iface{}
		}
	}
	panic(abortf("native result %v", r.Kind()))
}

// native runs f on concrete arguments and interprets the body otherwise.
func native(f interface{}) intrinsic {
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	return func(fr *frame, fn *ssa.Function, args []Value) Value {
		in := make([]reflect.Value, len(args))
		for i, a := range args {
			v, ok := toNative(a, ft.In(i))
			if !ok {
				return fr.p.callBody(fr, fr.g, compileFn(fn), fn, args, nil)
			}
			in[i] = v
		}
		var out []reflect.Value
		if ft.IsVariadic() {
			out = fv.CallSlice(in)
		} else {
			out = fv.Call(in)
		}
		switch len(out) {
		case 0:
			return nil
		case 1:
			return fr.p.fromNative(out[0])
		}
		t := make(Tuple, len(out))
		for i := range out {
			t[i] = fr.p.fromNative(out[i])
		}
		return t
	}
}

// concMath evaluates a function natively on concrete arguments only; the result is approximate.
func concMath(f interface{}) intrinsic {
	fv := reflect.ValueOf(f)
	return func(fr *frame, fn *ssa.Function, args []Value) Value {
		in := make([]reflect.Value, len(args))
		for i, a := range args {
			v, ok := toNative(a, fv.Type().In(i))
			if !ok {
				panic(abortf("%s of a symbolic argument", fn))
			}
			in[i] = v
		}
		fr.p.approx = true
		return fr.p.fromNative(fv.Call(in)[0])
	}
}

func (p *Path) truth(t *Term) Value { return unBool(t) }

// findMethod looks up a method by name on a dynamic type.
func (p *Path) findMethod(t types.Type, name string) *ssa.Function {
	ms := p.w.eng.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if s := ms.At(i); s.Obj().Name() == name && s.Obj().Exported() {
			return p.w.eng.prog.MethodValue(s)
		}
	}
	return nil
}

// ---- formatting

func (p *Path) format(fr *frame, f string, args Slice) Value {
	out := &SymStr{}
	ai := 0
	for i := 0; i < len(f); {
		if f[i] != '%' {
			j := strings.IndexByte(f[i:], '%')
			if j < 0 {
				out.lit(f[i:])
				break
			}
			out.lit(f[i : i+j])
			i += j
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.[]*", f[j]) >= 0 {
			if f[j] == '*' || f[j] == '[' {
				panic(abortf("format %q", f))
			}
			j++
		}
		if j >= len(f) {
			out.lit("%!(NOVERB)")
			break
		}
		_, sz := utf8.DecodeRuneInString(f[j:])
		verb := f[i : j+sz]
		i = j + sz
		if verb == "%%" {
			out.lit("%")
			continue
		}
		if ai >= len(args) {
			out.lit("%!" + verb[len(verb)-1:] + "(MISSING)")
			continue
		}
		p.fmtArg(fr, out, verb, args[ai])
		ai++
	}
	if ai < len(args) {
		out.lit("%!(EXTRA)")
	}
	return out.norm()
}

func (p *Path) fmtArg(fr *frame, out *SymStr, verb string, a Value) {
	ifc, ok := a.(Iface)
	if !ok {
		panic(abortf("format argument %T", a))
	}
	p.fmtVal(fr, out, verb, ifc.t, ifc.v, 0)
}

func (p *Path) fmtVal(fr *frame, out *SymStr, verb string, t types.Type, v Value, depth int) {
	vc := verb[len(verb)-1]
	if t == nil {
		if vc == 'v' || vc == 's' {
			if vc == 'v' {
				out.lit("<nil>")
			} else {
				out.lit("%!s(<nil>)")
			}
			return
		}
		out.lit("%!" + string(vc) + "(<nil>)")
		return
	}
	if vc == 'T' {
		out.lit(types.TypeString(t, func(p *types.Package) string { return p.Name() }))
		return
	}
	if depth > 8 {
		panic(abortf("formatting nests too deep"))
	}
	if ift, ok := t.Underlying().(*types.Interface); ok {
		_ = ift
		i := v.(Iface)
		p.fmtVal(fr, out, verb, i.t, i.v, depth+1)
		return
	}
	if (vc == 'v' || vc == 's' || vc == 'q') && !strings.Contains(verb, "#") {
		for _, name := range []string{"Error", "String"} {
			if m := p.findMethod(t, name); m != nil && m.Signature.Params().Len() == 0 && m.Signature.Results().Len() == 1 && isString(m.Signature.Results().At(0).Type()) {
				if pv, ok := v.(*Value); ok && pv == nil {
					out.lit("<nil>")
					return
				}
				s := p.call(fr, fr.g, &Closure{fn: m}, []Value{v})
				switch s := s.(type) {
				case string:
					out.lit(fmt.Sprintf(verb, s))
				case *SymStr:
					if vc == 'q' {
						panic(abortf("%%q of a symbolic string"))
					}
					out.parts = append(out.parts, s.parts...)
				}
				return
			}
		}
	}
	switch x := v.(type) {
	case string:
		out.lit(fmt.Sprintf(verb, x))
		return
	case *SymStr:
		for _, q := range x.parts {
			if q.t == nil {
				out.lit(q.lit)
			} else {
				out.parts = append(out.parts, q)
			}
		}
		return
	case bool:
		out.lit(fmt.Sprintf(verb, x))
		return
	case int64:
		b, _ := intBits(t)
		if b.signed {
			out.lit(fmt.Sprintf(verb, x))
		} else {
			out.lit(fmt.Sprintf(verb, uint64(x)&mask(b.w)))
		}
		return
	case Special:
		out.lit(fmt.Sprintf(verb, float64(x)))
		return
	case *Term:
		if f, ok := concFloat(x); ok {
			out.lit(fmt.Sprintf(verb, f))
			return
		}
		if x.sort == SBool {
			out.lit(fmt.Sprintf(verb, p.branch(x)))
			return
		}
		if x.sort == SBV {
			b, _ := intBits(t)
			if !b.signed {
				verb = "u" + verb
			}
		}
		out.parts = append(out.parts, strPart{verb: verb, t: x})
		return
	case *Value:
		if x == nil {
			out.lit("<nil>")
			return
		}
		if depth == 0 {
			if s, ok := (*x).(Struct); ok {
				out.lit("&")
				p.fmtVal(fr, out, verb, t.Underlying().(*types.Pointer).Elem(), s, depth+1)
				return
			}
		}
		out.lit("0xc000000000")
		return
	case Slice, Array:
		var elems []Value
		var et types.Type
		if s, ok := x.(Slice); ok {
			elems = s
			et = t.Underlying().(*types.Slice).Elem()
		} else {
			elems = x.(Array)
			et = t.Underlying().(*types.Array).Elem()
		}
		out.lit("[")
		for i, e := range elems {
			if i > 0 {
				out.lit(" ")
			}
			p.fmtVal(fr, out, verb, et, e, depth+1)
		}
		out.lit("]")
		return
	case Struct:
		st := t.Underlying().(*types.Struct)
		out.lit("{")
		for i, e := range x {
			if i > 0 {
				out.lit(" ")
			}
			if strings.Contains(verb, "+") {
				out.lit(st.Field(i).Name() + ":")
			}
			p.fmtVal(fr, out, verb, st.Field(i).Type(), e, depth+1)
		}
		out.lit("}")
		return
	case *Map:
		out.lit("map[...]")
		return
	}
	panic(abortf("formatting of %T", v))
}

// symStrEq compares two strings with symbolic parts. Numbers are assumed to be delimited by
// characters that cannot occur in a formatted number.
func (p *Path) symStrEq(a, b Value) Value {
	type tok struct {
		lit  string
		part *strPart
	}
	toks := func(v Value) []tok {
		switch v := v.(type) {
		case string:
			return []tok{{lit: v}}
		case *SymStr:
			var o []tok
			for i := range v.parts {
				if v.parts[i].t == nil {
					o = append(o, tok{lit: v.parts[i].lit})
				} else {
					o = append(o, tok{part: &v.parts[i]})
				}
			}
			return o
		}
		panic(abortf("string comparison of %T", v))
	}
	numch := func(c byte) bool {
		return c >= '0' && c <= '9' || c == '+' || c == '-' || c == '.' || c == 'e' || c == 'I' || c == 'n' || c == 'f' || c == 'N' || c == 'a'
	}
	x, y := toks(a), toks(b)
	acc := p.t.True
	for {
		for len(x) > 0 && x[0].part == nil && x[0].lit == "" {
			x = x[1:]
		}
		for len(y) > 0 && y[0].part == nil && y[0].lit == "" {
			y = y[1:]
		}
		if len(x) == 0 || len(y) == 0 {
			if len(x) == 0 && len(y) == 0 {
				return unBool(acc)
			}
			return false // a formatted number is never empty
		}
		switch {
		case x[0].part == nil && y[0].part == nil:
			n := len(x[0].lit)
			if len(y[0].lit) < n {
				n = len(y[0].lit)
			}
			if x[0].lit[:n] != y[0].lit[:n] {
				return false
			}
			x[0].lit, y[0].lit = x[0].lit[n:], y[0].lit[n:]
		case x[0].part != nil && y[0].part != nil:
			for _, z := range [][]tok{x, y} {
				if len(z) > 1 && (z[1].part != nil || numch(z[1].lit[0])) {
					panic(abortf("adjacent numbers in a symbolic string"))
				}
			}
			acc = p.t.And(acc, p.partEq(x[0].part, y[0].part))
			x, y = x[1:], y[1:]
		default:
			if x[0].part == nil {
				x, y = y, x
			}
			l := y[0].lit
			n := 0
			for n < len(l) && numch(l[n]) {
				n++
			}
			if n == 0 {
				return false
			}
			if n == len(l) && len(y) > 1 && y[1].part != nil {
				panic(abortf("adjacent numbers in a symbolic string"))
			}
			acc = p.t.And(acc, p.partLit(x[0].part, l[:n]))
			x = x[1:]
			y[0].lit = l[n:]
		}
		if acc == p.t.False {
			return false
		}
	}
}

func injectiveVerb(v string) bool {
	switch v {
	case "%v", "%d", "u%v", "u%d", "%s", "%x", "%g", "%b":
		return true
	}
	return false
}

func (p *Path) partEq(a, b *strPart) *Term {
	x, y := a.t.(*Term), b.t.(*Term)
	if x.sort != y.sort || x.w != y.w {
		panic(abortf("comparison of differently typed formatted numbers"))
	}
	if a.verb != b.verb {
		panic(abortf("comparison of numbers formatted with %s and %s", a.verb, b.verb))
	}
	if injectiveVerb(a.verb) {
		return p.t.Eq(x, y)
	}
	if x.sort == SReal {
		// equal values give equal text, some values much closer than the precision may, and others
		// are taken to differ
		prec, form := 6, byte('f')
		i := strings.IndexByte(a.verb, '.')
		if l := len(a.verb); l > 0 {
			form = a.verb[l-1]
			if i >= 0 {
				n, err := strconv.Atoi(a.verb[i+1 : l-1])
				if err != nil {
					panic(abortf("verb %s", a.verb))
				}
				prec = n
			}
		}
		switch form {
		case 'f', 'F', 'g', 'G', 'e', 'E':
		default:
			panic(abortf("verb %s", a.verb))
		}
		// two binary fractions just above a number of few digits
		eps := new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), uint(4*prec+8)))
		same := p.t.Eq(x, y)
		for _, c := range []*big.Rat{big.NewRat(1, 2), big.NewRat(1, 1), big.NewRat(3, 1)} {
			u := p.t.Rat(new(big.Rat).Add(c, eps))
			v := p.t.Rat(new(big.Rat).Add(c, new(big.Rat).Add(eps, eps)))
			same = p.t.Or(same, p.t.Or(p.t.And(p.t.Eq(x, u), p.t.Eq(y, v)), p.t.And(p.t.Eq(x, v), p.t.Eq(y, u))))
		}
		q := p.fresh("strEq", SBool, 0)
		p.addPC(p.t.Or(p.t.Not(q), same))
		p.addPC(p.t.Or(p.t.Not(p.t.Eq(x, y)), q))
		p.setModel(p.model, false)
		return q
	}
	panic(abortf("verb %s", a.verb))
}

func (p *Path) partLit(a *strPart, l string) *Term {
	x := a.t.(*Term)
	if !injectiveVerb(a.verb) || strings.HasSuffix(a.verb, "x") || strings.HasSuffix(a.verb, "b") {
		panic(abortf("comparison of %s with a literal", a.verb))
	}
	switch x.sort {
	case SBV:
		if strings.HasPrefix(a.verb, "u") {
			u, err := strconv.ParseUint(l, 10, 64)
			if err != nil || fmt.Sprint(u) != l {
				return p.t.False
			}
			return p.t.Eq(x, p.t.BV(u&mask(x.w), x.w))
		}
		i, err := strconv.ParseInt(l, 10, 64)
		if err != nil || fmt.Sprint(i) != l {
			return p.t.False
		}
		return p.t.Eq(x, p.t.BV(uint64(i)&mask(x.w), x.w))
	case SReal:
		f, err := strconv.ParseFloat(l, 64)
		if err != nil || fmt.Sprint(f) != l || f != f || math.IsInf(f, 0) {
			return p.t.False
		}
		return p.t.Eq(x, p.t.Rat(ratOfFloat(f)))
	case SFP:
		f, err := strconv.ParseFloat(l, 64)
		if err != nil || fmt.Sprint(f) != l {
			return p.t.False
		}
		return p.t.Eq(x, p.t.FP(f))
	}
	panic(abortf("partLit"))
}

// ---- symbolic inputs

func (p *Path) input(kind string, t *Term) {
	p.inputs = append(p.inputs, Input{Kind: kind, T: t, Name: t.name})
}

func (p *Path) freshFloat(kind string) *Term {
	if p.w.fp {
		v := p.fresh("f", SFP, 0)
		p.input(kind, v)
		return v
	}
	v := p.fresh("x", SReal, 0)
	p.input(kind, v)
	return v
}

func (p *Path) finite(v *Term) {
	if v.sort == SFP {
		p.assume(p.t.Not(p.isNaN(v)))
		p.assume(p.t.Not(p.isInf(v)))
	}
}

func (p *Path) isInf(t *Term) *Term {
	if t.isConst() {
		return p.t.Bool(math.IsInf(t.f, 0))
	}
	return p.t.app(OIsInf, SBool, 0, t)
}

func (p *Path) freshInt(kind string, lo, hi int64) Value {
	if lo == hi {
		p.inputs = append(p.inputs, Input{Kind: kind, I: lo})
		return lo
	}
	v := p.fresh("i", SBV, 64)
	p.input(kind, v)
	p.assume(p.t.And(p.t.Not(p.t.BVop(OBSlt, v, p.t.BV(uint64(lo), 64))), p.t.Not(p.t.BVop(OBSlt, p.t.BV(uint64(hi), 64), v))))
	return v
}

func (p *Path) choiceInput(n int) Value {
	k := p.choose(n)
	p.inputs = append(p.inputs, Input{Kind: "choice", I: int64(k)})
	return int64(k)
}

// unitFloat is a random number in [0,1).
func (p *Path) unitFloat() Value {
	if p.fixedDraws {
		p.nthDraw++
		f := 0.0
		for n, b := p.nthDraw, 0.5; n > 0 && (p.evenDraws || p.nthDraw%11 != 0); n, b = n/2, b/2 {
			f += b * float64(n%2)
		}
		p.inputs = append(p.inputs, Input{Kind: "rfloat", S: Special(f), isS: true})
		return p.mkFloat(f)
	}
	v := p.freshFloat("rfloat")
	if v.sort == SFP {
		p.assume(p.t.And(p.t.Le(p.t.FP(0), v), p.t.Lt(v, p.t.FP(1))))
	} else {
		p.assume(p.t.And(p.t.Le(p.t.Rat(ratZero), v), p.t.Lt(v, p.t.Rat(ratOne))))
	}
	return v
}

func (p *Path) randInt(n Value) Value {
	k := p.intOf(n, true)
	if k <= 0 {
		p.rtPanic("invalid argument to Intn")
	}
	p.draws++
	if p.fixedDraws {
		p.nthDraw++
		i := (p.nthDraw*7 + p.nthDraw/5) % k
		p.inputs = append(p.inputs, Input{Kind: "rint", I: i, N: k})
		return i
	}
	if k == 1 {
		p.inputs = append(p.inputs, Input{Kind: "rint", I: 0, N: 1})
		return int64(0)
	}
	v := p.fresh("r", SBV, 64)
	p.inputs = append(p.inputs, Input{Kind: "rint", T: v, Name: v.name, N: k})
	p.assume(p.t.BVop(OBUlt, v, p.t.BV(uint64(k), 64)))
	return v
}

func (p *Path) fEq(a, b Value) Value {
	as, aok := a.(Special)
	bs, bok := b.(Special)
	if aok || bok {
		if aok && bok {
			return float64(as) == float64(bs) || isNaNV(a) && isNaNV(b)
		}
		return false
	}
	x, y := a.(*Term), b.(*Term)
	if x.sort == SFP {
		if x.isConst() && y.isConst() {
			return x.f == y.f || x.f != x.f && y.f != y.f
		}
		return unBool(p.t.Or(p.t.Eq(x, y), p.t.And(p.isNaN(x), p.isNaN(y))))
	}
	return unBool(p.t.Eq(x, y))
}

func (p *Path) memAddr(v Value) *Value {
	a, _ := v.(*Value)
	if a == nil {
		p.rtPanic("invalid memory address or nil pointer dereference")
	}
	return a
}

func symName(n string) string { return symPkg + "." + n }

func init() {
	I := map[string]intrinsic{}
	intrinsics = I
	f1 := func(f func(p *Path, x Value) Value) intrinsic {
		return func(fr *frame, fn *ssa.Function, a []Value) Value { return f(fr.p, a[0]) }
	}
	// --- sym
	I[symName("Float")] = func(fr *frame, fn *ssa.Function, a []Value) Value {
		v := fr.p.freshFloat("float")
		fr.p.finite(v)
		return v
	}
	I[symName("AnyFloat")] = func(fr *frame, fn *ssa.Function, a []Value) Value {
		if !fr.p.w.fp {
			// finite reals plus the three special values
			switch k := fr.p.choose(4); k {
			case 1, 2, 3:
				s := Special([]float64{0, math.NaN(), math.Inf(1), math.Inf(-1)}[k])
				fr.p.inputs = append(fr.p.inputs, Input{Kind: "float", S: s, isS: true})
				return s
			}
		}
		return fr.p.freshFloat("float")
	}
	I[symName("Int")] = func(fr *frame, fn *ssa.Function, a []Value) Value {
		return fr.p.freshInt("int", a[0].(int64), a[1].(int64))
	}
	I[symName("AnyInt")] = func(fr *frame, fn *ssa.Function, a []Value) Value {
		v := fr.p.fresh("i", SBV, 64)
		fr.p.input("int", v)
		return v
	}
	I[symName("Choice")] = func(fr *frame, fn *ssa.Function, a []Value) Value {
		return fr.p.choiceInput(int(a[0].(int64)))
	}
	I[symName("Bool")] = func(fr *frame, fn *ssa.Function, a []Value) Value {
		return fr.p.choiceInput(2).(int64) == 1
	}
	I[symName("Assume")] = func(fr *frame, fn *ssa.Function, a []Value) Value {
		switch c := a[0].(type) {
		case bool:
			if !c {
				panic(pathAbort{"infeasible", ""})
			}
		case *Term:
			fr.p.assume(c)
		}
		return nil
	}
	I[symName("Assert")] = func(fr *frame, fn *ssa.Function, a []Value) Value {
		msg, _ := a[1].(string)
		if s, ok := a[1].(*SymStr); ok {
			msg = s.String()
		}
		fr.p.assert(a[0], msg, fr.where())
		return nil
	}
	I[symName("Eq")] = func(fr *frame, fn *ssa.Function, a []Value) Value { return fr.p.fEq(a[0], a[1]) }
	I[symName("Identical")] = func(fr *frame, fn *ssa.Function, a []Value) Value {
		x, ok1 := a[0].(*Term)
		y, ok2 := a[1].(*Term)
		if ok1 || ok2 {
			return ok1 && ok2 && x == y
		}
		return fr.p.fEq(a[0], a[1])
	}
	I[symName("And")] = func(fr *frame, fn *ssa.Function, a []Value) Value {
		acc := fr.p.t.True
		for _, x := range a[0].(Slice) {
			acc = fr.p.t.And(acc, fr.p.boolTerm(x))
		}
		return unBool(acc)
	}
	I[symName("Or")] = func(fr *frame, fn *ssa.Function, a []Value) Value {
		acc := fr.p.t.False
		for _, x := range a[0].(Slice) {
			acc = fr.p.t.Or(acc, fr.p.boolTerm(x))
		}
		return unBool(acc)
	}
	I[symName("Not")] = f1(func(p *Path, x Value) Value { return unBool(p.t.Not(p.boolTerm(x))) })
	I[symName("Ite")] = func(fr *frame, fn *ssa.Function, a []Value) Value {
		c := fr.p.boolTerm(a[0])
		if c.isConst() {
			if c.u == 1 {
				return a[1]
			}
			return a[2]
		}
		x, ok1 := a[1].(*Term)
		y, ok2 := a[2].(*Term)
		if !ok1 || !ok2 {
			if fr.p.branch(c) {
				return a[1]
			}
			return a[2]
		}
		return fr.p.t.Ite(c, x, y)
	}
	I[symName("SameMultiset")] = func(fr *frame, fn *ssa.Function, a []Value) Value {
		return fr.p.sameMultiset(a[0], a[1])
	}
	I[symName("Reach")] = func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.p.reached[a[0].(string)] = true
		return nil
	}
	I[symName("ObserveFloat")] = func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.p.obs = append(fr.p.obs, Obs{Label: a[0].(string), V: a[1], Kind: "float"})
		return nil
	}
	I[symName("ObserveInt")] = func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.p.obs = append(fr.p.obs, Obs{Label: a[0].(string), V: a[1], Kind: "int"})
		return nil
	}
	I[symName("Tally")] = func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.p.tallies = append(fr.p.tallies, tally{a[0].(string), fr.p.cond(a[1]), a[2].(int64), a[3].(int64)})
		return nil
	}
	I[symName("Thorough")] = func(fr *frame, fn *ssa.Function, a []Value) Value { return fr.p.w.eng.thorough }
	I[symName("Checkpoint")] = func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.p.checkpoint(a[0].(Slice))
		return nil
	}
	I[symName("Concrete")] = f1(func(p *Path, x Value) Value { return p.intOf(x, true) })
	I[symName("Branch")] = f1(func(p *Path, x Value) Value { return p.cond(x) })
	I[symName("Schedules")] = func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.p.sch.one = !a[0].(bool)
		return nil
	}
	I[symName("FixedDraws")] = func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.p.fixedDraws = a[0].(bool)
		return nil
	}
	I[symName("EvenDraws")] = func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.p.fixedDraws, fr.p.evenDraws = true, true
		return nil
	}
	I[symName("Work")] = func(fr *frame, fn *ssa.Function, a []Value) Value { return fr.p.work }
	I[symName("Space")] = func(fr *frame, fn *ssa.Function, a []Value) Value { return fr.p.space(a[0].(Slice)) }
	I[symName("Interpreted")] = func(fr *frame, fn *ssa.Function, a []Value) Value { return true }

	// --- math
	for n, f := range map[string]interface{}{"Log": math.Log, "Log2": math.Log2, "Log10": math.Log10, "Log1p": math.Log1p, "Exp": math.Exp, "Exp2": math.Exp2, "Sin": math.Sin, "Cos": math.Cos, "Tan": math.Tan, "Cbrt": math.Cbrt, "Mod": math.Mod, "Gamma": math.Gamma, "Atan": math.Atan, "Nextafter": math.Nextafter, "Float64frombits": math.Float64frombits, "Float64bits": math.Float64bits, "Expm1": math.Expm1, "Ldexp": math.Ldexp, "Tanh": math.Tanh, "Erf": math.Erf} {
		I["math."+n] = concMath(f)
	}
	I["math.Sqrt"] = f1(func(p *Path, x Value) Value { return p.sqrt(x) })
	I["math.sqrt"] = I["math.Sqrt"]
	I["math.Pow"] = func(fr *frame, fn *ssa.Function, a []Value) Value { return fr.p.pow(a[0], a[1]) }
	for n, m := range map[string]byte{"Floor": 'f', "Ceil": 'c', "Trunc": 't', "Round": 'r', "RoundToEven": 'e'} {
		m := m
		I["math."+n] = f1(func(p *Path, x Value) Value { return p.round(x, m) })
	}
	I["math.Abs"] = f1(func(p *Path, x Value) Value {
		switch x := x.(type) {
		case Special:
			return Special(math.Abs(float64(x)))
		case *Term:
			if f, ok := concFloat(x); ok && x.sort == SFP {
				return p.t.FP(math.Abs(f))
			}
			if x.sort == SFP {
				if p.cond(unBool(p.t.Lt(x, p.t.FP(0)))) {
					return p.fneg(x)
				}
				return x
			}
			z := p.t.Rat(ratZero)
			if p.cond(unBool(p.t.Lt(x, z))) {
				return p.t.RNeg(x)
			}
			return x
		}
		panic(abortf("math.Abs"))
	})
	I["math.Min"] = func(fr *frame, fn *ssa.Function, a []Value) Value { return fr.p.fminmax(true, a[0], a[1]) }
	I["math.Max"] = func(fr *frame, fn *ssa.Function, a []Value) Value { return fr.p.fminmax(false, a[0], a[1]) }
	I["math.NaN"] = func(fr *frame, fn *ssa.Function, a []Value) Value { return fr.p.mkFloat(math.NaN()) }
	I["math.Inf"] = func(fr *frame, fn *ssa.Function, a []Value) Value {
		return fr.p.mkFloat(math.Inf(int(fr.p.intOf(a[0], true))))
	}
	I["math.IsNaN"] = f1(func(p *Path, x Value) Value {
		switch x := x.(type) {
		case Special:
			return float64(x) != float64(x)
		case *Term:
			if x.sort == SFP {
				return unBool(p.isNaN(x))
			}
		}
		return false
	})
	I["math.IsInf"] = func(fr *frame, fn *ssa.Function, a []Value) Value {
		s := fr.p.intOf(a[1], true)
		switch x := a[0].(type) {
		case Special:
			return math.IsInf(float64(x), int(s))
		case *Term:
			if x.sort == SFP {
				if x.isConst() {
					return math.IsInf(x.f, int(s))
				}
				r := fr.p.isInf(x)
				if s > 0 {
					r = fr.p.t.And(r, fr.p.t.Lt(fr.p.t.FP(0), x))
				} else if s < 0 {
					r = fr.p.t.And(r, fr.p.t.Lt(x, fr.p.t.FP(0)))
				}
				return unBool(r)
			}
		}
		return false
	}
	I["math.Signbit"] = f1(func(p *Path, x Value) Value {
		if f, ok := concFloat(x); ok {
			return math.Signbit(f)
		}
		t := x.(*Term)
		if t.sort == SReal {
			return unBool(p.t.Lt(t, p.t.Rat(ratZero)))
		}
		panic(abortf("math.Signbit"))
	})
	I["math.FMA"] = func(fr *frame, fn *ssa.Function, a []Value) Value {
		if fr.p.w.fp {
			panic(abortf("math.FMA"))
		}
		ft := types.Typ[types.Float64]
		return fr.p.floatBin(tokADD, ft, fr.p.floatBin(tokMUL, ft, a[0], a[1]), a[2])
	}
	I["math.Hypot"] = func(fr *frame, fn *ssa.Function, a []Value) Value {
		if fr.p.w.fp {
			panic(abortf("math.Hypot"))
		}
		ft := types.Typ[types.Float64]
		return fr.p.sqrt(fr.p.floatBin(tokADD, ft, fr.p.floatBin(tokMUL, ft, a[0], a[0]), fr.p.floatBin(tokMUL, ft, a[1], a[1])))
	}
	I["math.Copysign"] = func(fr *frame, fn *ssa.Function, a []Value) Value {
		x, ok1 := concFloat(a[0])
		y, ok2 := concFloat(a[1])
		if !ok1 || !ok2 {
			panic(abortf("math.Copysign"))
		}
		return fr.p.mkFloat(math.Copysign(x, y))
	}
	for n, f := range map[string]interface{}{"Len": func(x uint) int { return mbits.Len(x) }, "Len64": mbits.Len64, "OnesCount": mbits.OnesCount, "OnesCount64": mbits.OnesCount64, "TrailingZeros": mbits.TrailingZeros, "TrailingZeros64": mbits.TrailingZeros64, "LeadingZeros64": mbits.LeadingZeros64} {
		I["math/bits."+n] = native(f)
	}

	// --- fmt, strings, strconv
	I["fmt.Sprintf"] = func(fr *frame, fn *ssa.Function, a []Value) Value {
		f, ok := a[0].(string)
		if !ok {
			panic(abortf("symbolic format string"))
		}
		args, _ := a[1].(Slice)
		return fr.p.format(fr, f, args)
	}
	I["fmt.Sprint"] = func(fr *frame, fn *ssa.Function, a []Value) Value {
		args, _ := a[0].(Slice)
		out := &SymStr{}
		prevStr := true
		for i, x := range args {
			ifc := x.(Iface)
			isStr := ifc.t != nil && isString(ifc.t)
			if i > 0 && !isStr && !prevStr {
				out.lit(" ")
			}
			prevStr = isStr
			fr.p.fmtArg(fr, out, "%v", x)
		}
		return out.norm()
	}
	I["fmt.Errorf"] = func(fr *frame, fn *ssa.Function, a []Value) Value {
		f, ok := a[0].(string)
		if !ok {
			panic(abortf("symbolic format string"))
		}
		args, _ := a[1].(Slice)
		s := fr.p.format(fr, strings.ReplaceAll(f, "%w", "%v"), args)
		et := fr.p.w.eng.errType
		var v Value = Struct{s}
		return Iface{t: et, v: &v}
	}
	for _, n := range []string{"Println", "Printf", "Print", "Fprintf", "Fprintln"} {
		I["fmt."+n] = func(fr *frame, fn *ssa.Function, a []Value) Value { return Tuple{int64(0), Iface{}} }
	}
	for n, f := range map[string]interface{}{"Repeat": strings.Repeat, "HasPrefix": strings.HasPrefix, "HasSuffix": strings.HasSuffix, "Contains": strings.Contains, "Index": strings.Index, "Split": strings.Split, "TrimSpace": strings.TrimSpace, "ToLower": strings.ToLower, "ToUpper": strings.ToUpper, "Replace": strings.Replace, "ReplaceAll": strings.ReplaceAll, "TrimSuffix": strings.TrimSuffix, "TrimPrefix": strings.TrimPrefix, "Trim": strings.Trim, "Fields": strings.Fields, "EqualFold": strings.EqualFold, "Compare": strings.Compare, "Count": strings.Count} {
		I["strings."+n] = native(f)
	}
	I["strings.Join"] = func(fr *frame, fn *ssa.Function, a []Value) Value {
		var acc Value = ""
		s, _ := a[0].(Slice)
		for i, x := range s {
			if i > 0 {
				acc = strConcat(acc, a[1])
			}
			acc = strConcat(acc, x)
		}
		if x, ok := acc.(*SymStr); ok {
			return x.norm()
		}
		return acc
	}
	// strings.Builder: the content is kept in an Opaque stored in the first field
	bld := func(a Value, p *Path) (*Struct, Value) {
		s := (*p.memAddr(a)).(Struct)
		if o, ok := s[0].(*Opaque); ok {
			return &s, o.data.(Value)
		}
		return &s, ""
	}
	addB := func(p *Path, a Value, x Value) {
		s, c := bld(a, p)
		(*s)[0] = &Opaque{"builder", strConcat(c, x)}
	}
	I["(*strings.Builder).WriteString"] = func(fr *frame, fn *ssa.Function, a []Value) Value {
		addB(fr.p, a[0], a[1])
		return Tuple{int64(0), Iface{}}
	}
	I["(*strings.Builder).WriteByte"] = func(fr *frame, fn *ssa.Function, a []Value) Value {
		addB(fr.p, a[0], string([]byte{byte(a[1].(int64))}))
		return Iface{}
	}
	I["(*strings.Builder).WriteRune"] = func(fr *frame, fn *ssa.Function, a []Value) Value {
		addB(fr.p, a[0], string(rune(a[1].(int64))))
		return Tuple{int64(0), Iface{}}
	}
	I["(*strings.Builder).String"] = func(fr *frame, fn *ssa.Function, a []Value) Value {
		_, c := bld(a[0], fr.p)
		if x, ok := c.(*SymStr); ok {
			return x.norm()
		}
		return c
	}
	I["(*strings.Builder).Grow"] = func(fr *frame, fn *ssa.Function, a []Value) Value { return nil }
	I["(*strings.Builder).Reset"] = func(fr *frame, fn *ssa.Function, a []Value) Value {
		s, _ := bld(a[0], fr.p)
		(*s)[0] = &Opaque{"builder", Value("")}
		return nil
	}
	I["strconv.Itoa"] = func(fr *frame, fn *ssa.Function, a []Value) Value {
		return fr.p.format(fr, "%v", Slice{Iface{types.Typ[types.Int], a[0]}})
	}
	I["strconv.FormatInt"] = native(strconv.FormatInt)
	I["strconv.Quote"] = native(strconv.Quote)
	I["strconv.FormatBool"] = native(strconv.FormatBool)
	I["strconv.FormatFloat"] = func(fr *frame, fn *ssa.Function, a []Value) Value {
		if f, ok := concFloat(a[0]); ok {
			return strconv.FormatFloat(f, byte(a[1].(int64)), int(a[2].(int64)), int(a[3].(int64)))
		}
		verb := "%" + string(rune(a[1].(int64)))
		if n := a[2].(int64); n >= 0 {
			verb = fmt.Sprintf("%%.%d%s", n, verb[1:])
		} else {
			verb = "%v"
		}
		return (&SymStr{parts: []strPart{{verb: verb, t: a[0]}}}).norm()
	}
	I["errors.New"] = func(fr *frame, fn *ssa.Function, a []Value) Value {
		var v Value = Struct{a[0]}
		return Iface{t: fr.p.w.eng.errType, v: &v}
	}
	I["github.com/pkg/errors.callers"] = func(fr *frame, fn *ssa.Function, a []Value) Value { return (*Value)(nil) }

	// --- runtime, time
	I["runtime.Gosched"] = func(fr *frame, fn *ssa.Function, a []Value) Value { fr.p.gosched(); return nil }
	I["runtime.KeepAlive"] = func(fr *frame, fn *ssa.Function, a []Value) Value { return nil }
	I["runtime.NumGoroutine"] = func(fr *frame, fn *ssa.Function, a []Value) Value { return int64(1) }
	I["runtime.GOMAXPROCS"] = func(fr *frame, fn *ssa.Function, a []Value) Value { return int64(4) }
	I["runtime.NumCPU"] = func(fr *frame, fn *ssa.Function, a []Value) Value { return int64(4) }
	I["time.Now"] = func(fr *frame, fn *ssa.Function, a []Value) Value {
		return fr.p.w.zero(fn.Signature.Results().At(0).Type())
	}
	I["(time.Time).UnixNano"] = func(fr *frame, fn *ssa.Function, a []Value) Value { return int64(1) }
	I["(time.Time).Unix"] = I["(time.Time).UnixNano"]
	I["time.Sleep"] = func(fr *frame, fn *ssa.Function, a []Value) Value { fr.p.gosched(); return nil }

	// --- math/rand: every draw is a fresh symbolic input
	opq := func(fr *frame, fn *ssa.Function, a []Value) Value {
		t := fn.Signature.Results().At(0).Type()
		o := Value(&Opaque{"rand", nil})
		if types.IsInterface(t) {
			return Iface{t: types.Typ[types.Int], v: o}
		}
		return &o
	}
	none := func(fr *frame, fn *ssa.Function, a []Value) Value { return nil }
	for _, pk := range []string{"math/rand", "math/rand/v2"} {
		I[pk+".New"] = opq
		I[pk+".NewSource"] = opq
		I[pk+".NewPCG"] = opq
		I[pk+".Seed"] = none
		for _, rc := range []string{pk + ".", "(*" + pk + ".Rand)."} {
			meth := strings.HasPrefix(rc, "(")
			at := func(a []Value, p *Path) []Value {
				if meth {
					p.memAddr(a[0])
					if s := p.sch; s != nil && s.conc && s.races {
						// *rand.Rand is not safe for concurrent use
						p.accessKey(nil, a[0], true)
					}
					return a[1:]
				}
				return a
			}
			I[rc+"Seed"] = none
			I[rc+"Float64"] = func(fr *frame, fn *ssa.Function, a []Value) Value {
				at(a, fr.p)
				return fr.p.unitFloat()
			}
			for _, n := range []string{"Intn", "Int63n", "Int31n", "IntN", "Int64N", "Int32N"} {
				I[rc+n] = func(fr *frame, fn *ssa.Function, a []Value) Value { return fr.p.randInt(at(a, fr.p)[0]) }
			}
			I[rc+"Perm"] = func(fr *frame, fn *ssa.Function, a []Value) Value {
				n := fr.p.intOf(at(a, fr.p)[0], true)
				s := make(Slice, n)
				for i := range s {
					j := fr.p.intOf(fr.p.randInt(int64(i+1)), true)
					s[i] = s[j]
					s[j] = int64(i)
				}
				return s
			}
		}
	}

	// --- sync
	I["(*sync.Mutex).Lock"] = func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.p.lockMutex(fr.p.memAddr(a[0]), "Mutex.Lock")
		return nil
	}
	I["(*sync.Mutex).TryLock"] = func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.p.mutex(fr.p.memAddr(a[0]))
		fr.p.yield("TryLock")
		if m.held {
			return false
		}
		fr.p.lockNow(m)
		return true
	}
	I["(*sync.Mutex).Unlock"] = func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.p.unlockMutex(fr.p.memAddr(a[0]))
		return nil
	}
	I["(*sync.RWMutex).Lock"] = func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.p.rwLock(fr.p.memAddr(a[0]))
		return nil
	}
	I["(*sync.RWMutex).Unlock"] = func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.p.rwUnlock(fr.p.memAddr(a[0]))
		return nil
	}
	I["(*sync.RWMutex).RLock"] = func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.p.rwRLock(fr.p.memAddr(a[0]))
		return nil
	}
	I["(*sync.RWMutex).RUnlock"] = func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.p.rwRUnlock(fr.p.memAddr(a[0]))
		return nil
	}
	I["(*sync.WaitGroup).Add"] = func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.p.wgAdd(fr.p.memAddr(a[0]), fr.p.intOf(a[1], true))
		return nil
	}
	I["(*sync.WaitGroup).Done"] = func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.p.wgAdd(fr.p.memAddr(a[0]), -1)
		return nil
	}
	I["(*sync.WaitGroup).Wait"] = func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.p.wgWait(fr.p.memAddr(a[0]))
		return nil
	}
	I["(*sync.Once).Do"] = func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.p.mutex(fr.p.memAddr(a[0]))
		fr.p.yield("Once.Do")
		if !m.once && m.onceRun {
			fr.p.block("Once.Do", func() bool { return m.once })
		}
		if !m.once {
			m.onceRun = true
			func() {
				defer func() { m.once = true; m.vc = vcCopy(fr.p.sch.cur.vc); fr.p.sch.cur.tick() }()
				fr.p.call(fr, fr.g, a[1], nil)
			}()
		} else {
			fr.p.sch.cur.vc = vcJoin(fr.p.sch.cur.vc, m.vc)
		}
		return nil
	}
	for _, k := range []struct {
		n string
		b bits1
	}{{"Int32", bits1{32, true}}, {"Int64", bits1{64, true}}, {"Uint32", bits1{32, false}}, {"Uint64", bits1{64, false}}, {"Uintptr", bits1{64, false}}} {
		b := bitsT{k.b.w, k.b.signed}
		I["sync/atomic.Load"+k.n] = func(fr *frame, fn *ssa.Function, a []Value) Value {
			x := fr.p.memAddr(a[0])
			fr.p.atomicOp(x)
			return *x
		}
		I["sync/atomic.Store"+k.n] = func(fr *frame, fn *ssa.Function, a []Value) Value {
			x := fr.p.memAddr(a[0])
			fr.p.atomicOp(x)
			*x = a[1]
			return nil
		}
		I["sync/atomic.Add"+k.n] = func(fr *frame, fn *ssa.Function, a []Value) Value {
			x := fr.p.memAddr(a[0])
			fr.p.atomicOp(x)
			*x = normInt(fr.p.intOf(*x, true)+fr.p.intOf(a[1], true), bits_(b))
			return *x
		}
		I["sync/atomic.Swap"+k.n] = func(fr *frame, fn *ssa.Function, a []Value) Value {
			x := fr.p.memAddr(a[0])
			fr.p.atomicOp(x)
			o := *x
			*x = a[1]
			return o
		}
		I["sync/atomic.CompareAndSwap"+k.n] = func(fr *frame, fn *ssa.Function, a []Value) Value {
			x := fr.p.memAddr(a[0])
			fr.p.atomicOp(x)
			if fr.p.cond(fr.p.equal(nil, *x, a[1])) {
				*x = a[2]
				return true
			}
			return false
		}
	}
	I["(*sync/atomic.Value).Load"] = func(fr *frame, fn *ssa.Function, a []Value) Value {
		x := fr.p.memAddr(a[0])
		fr.p.atomicOp(x)
		return (*x).(Struct)[0]
	}
	I["(*sync/atomic.Value).Store"] = func(fr *frame, fn *ssa.Function, a []Value) Value {
		x := fr.p.memAddr(a[0])
		fr.p.atomicOp(x)
		(*x).(Struct)[0] = a[1]
		return nil
	}
	// sort.Slice / sort.SliceStable: insertion sort with the interpreted comparison
	sl := func(fr *frame, fn *ssa.Function, a []Value) Value {
		s, _ := a[0].(Iface).v.(Slice)
		for i := 1; i < len(s); i++ {
			for j := i; j > 0 && fr.p.cond(fr.p.call(fr, fr.g, a[1], []Value{int64(j), int64(j - 1)})); j-- {
				x, y := copyVal(s[j]), copyVal(s[j-1])
				storeInto(&s[j], y)
				storeInto(&s[j-1], x)
			}
		}
		return nil
	}
	I["sort.Slice"] = sl
	I["sort.SliceStable"] = sl
	srt := func(fr *frame, fn *ssa.Function, a []Value) Value {
		s, _ := a[0].(Slice)
		t := fn.Signature.Params().At(0).Type().Underlying().(*types.Slice).Elem()
		for i := 1; i < len(s); i++ {
			for j := i; j > 0 && fr.p.cond(fr.p.binop(tokLSS, t, t, s[j], s[j-1])); j-- {
				s[j], s[j-1] = s[j-1], s[j]
			}
		}
		return nil
	}
	I["sort.Float64s"] = srt
	I["sort.Ints"] = srt
	I["sort.Strings"] = srt
	_ = sort.Ints
}

// sameMultiset pairs off identical terms and counts the rest: for every remaining v the number of
// elements equal to v is the same on both sides.
func (p *Path) sameMultiset(x, y Value) Value {
	a, _ := x.(Slice)
	b, _ := y.(Slice)
	if len(a) != len(b) {
		return false
	}
	var ra []*Term
	left := append([]Value{}, b...)
	for _, v := range a {
		t, ok := v.(*Term)
		if !ok || t.sort != SReal {
			panic(abortf("SameMultiset of %T", v))
		}
		hit := false
		for i, u := range left {
			if u == v {
				left = append(left[:i], left[i+1:]...)
				hit = true
				break
			}
		}
		if !hit {
			ra = append(ra, t)
		}
	}
	if len(ra) == 0 {
		return true
	}
	var rb []*Term
	for _, u := range left {
		t, ok := u.(*Term)
		if !ok || t.sort != SReal {
			panic(abortf("SameMultiset of %T", u))
		}
		rb = append(rb, t)
	}
	one, zero := p.t.Rat(ratOne), p.t.Rat(ratZero)
	count := func(s []*Term, v *Term) *Term {
		n := zero
		for _, u := range s {
			n = p.t.RAdd(n, p.t.Ite(p.t.Eq(u, v), one, zero))
		}
		return n
	}
	all := p.t.Bool(true)
	for _, v := range ra {
		all = p.t.And(all, p.t.Eq(count(ra, v), count(rb, v)))
	}
	return unBool(all)
}
