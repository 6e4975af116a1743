package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"reflect"
	"strings"
	"sync"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

// Value is one of:
//
//	bool, *Term(SBool)                     booleans
//	int64, *Term(SBV)                      all integer kinds (bit pattern extended to 64 bits per type)
//	*Term(SReal|SFP), Special              floats
//	string, *SymStr                        strings
//	Struct, Array, Slice, *Value, *Map, *Chan, *Closure, *ssa.Builtin, Iface, Tuple, *Opaque
type Value interface{}

type (
	Struct  []Value
	Array   []Value
	Slice   []Value
	Tuple   []Value
	Special float64 // NaN, +Inf, -Inf in real mode
)

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn  *ssa.Function
	env []Value
}

type Opaque struct {
	kind string
	data interface{}
}

type strPart struct {
	lit  string
	verb string
	t    Value // *Term (symbolic)
}

type SymStr struct{ parts []strPart }

type mapEntry struct {
	k, v    Value
	deleted bool
}

type Map struct {
	idx     map[interface{}]int // concrete keys
	ents    []*mapEntry
	n       int
	hasSymK bool
}

type Chan struct {
	buf    []Value
	cap    int
	closed bool
	vc     []int
	// unbuffered hand-off
	recvWaiting int
	slot        *Value
	slotTaken   bool
	sendQ       []*chanSend
}

type chanSend struct {
	v    Value
	done bool
	vc   []int
}

type mapIter struct {
	m     *Map
	order []int
	i     int
}

type strIter struct {
	s []rune
	b []int
	i int
}

type bits struct {
	w      uint8
	signed bool
}

var basicBits = map[types.BasicKind]bits{
	types.Int: {64, true}, types.Int8: {8, true}, types.Int16: {16, true}, types.Int32: {32, true}, types.Int64: {64, true},
	types.Uint: {64, false}, types.Uint8: {8, false}, types.Uint16: {16, false}, types.Uint32: {32, false}, types.Uint64: {64, false}, types.Uintptr: {64, false},
	types.UntypedInt: {64, true}, types.UntypedRune: {32, true},
}

func intBits(t types.Type) (bits, bool) {
	if b, ok := t.Underlying().(*types.Basic); ok {
		x, ok := basicBits[b.Kind()]
		return x, ok
	}
	return bits{}, false
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func normInt(v int64, b bits) int64 {
	if b.w == 64 {
		return v
	}
	u := uint64(v) & mask(b.w)
	if b.signed {
		return sx(u, b.w)
	}
	return int64(u)
}

func ratOfFloat(f float64) *big.Rat {
	r := new(big.Rat)
	if r.SetFloat64(f) == nil {
		return nil
	}
	return r
}

func ratToFloat(r *big.Rat) float64 { f, _ := r.Float64(); return f }

// deep copy of value-typed aggregates
func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		n := make(Struct, len(v))
		for i := range v {
			n[i] = copyVal(v[i])
		}
		return n
	case Array:
		n := make(Array, len(v))
		for i := range v {
			n[i] = copyVal(v[i])
		}
		return n
	}
	return v
}

// store in place, keeping the addresses of struct fields and array elements
func storeInto(dst *Value, v Value) {
	switch v := v.(type) {
	case Struct:
		if d, ok := (*dst).(Struct); ok && len(d) == len(v) {
			for i := range v {
				storeInto(&d[i], v[i])
			}
			return
		}
	case Array:
		if d, ok := (*dst).(Array); ok && len(d) == len(v) {
			for i := range v {
				storeInto(&d[i], v[i])
			}
			return
		}
	}
	*dst = copyVal(v)
}

// ---- slice growth as in the Go runtime, observed through reflect

type growKey struct {
	cap, n int
	size   uintptr
	ptr    bool
}

var growCache sync.Map

func growCap(oldLen, oldCap, add int, size int64, hasPtr bool) int {
	if size == 0 {
		return oldLen + add
	}
	k := growKey{oldCap<<20 | oldLen, add, uintptr(size), hasPtr}
	if c, ok := growCache.Load(k); ok {
		return c.(int)
	}
	var et reflect.Type
	if hasPtr && size%8 == 0 {
		et = reflect.ArrayOf(int(size/8), reflect.TypeOf(unsafe.Pointer(nil)))
	} else {
		et = reflect.ArrayOf(int(size), reflect.TypeOf(byte(0)))
		if size%8 == 0 {
			et = reflect.ArrayOf(int(size/8), reflect.TypeOf(uint64(0)))
		}
	}
	s := reflect.MakeSlice(reflect.SliceOf(et), oldLen, oldCap)
	s = reflect.AppendSlice(s, reflect.MakeSlice(reflect.SliceOf(et), add, add))
	growCache.Store(k, s.Cap())
	return s.Cap()
}

var stdSizes = types.SizesFor("gc", "amd64")

func hasPointers(t types.Type) bool {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		return t.Kind() == types.String || t.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if hasPointers(t.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasPointers(t.Elem())
	}
	return true
}

// ---- strings

func strConcat(a, b Value) Value {
	as, aok := a.(string)
	bs, bok := b.(string)
	if aok && bok {
		return as + bs
	}
	n := &SymStr{}
	add := func(v Value) {
		switch v := v.(type) {
		case string:
			n.lit(v)
		case *SymStr:
			for _, p := range v.parts {
				if p.t == nil {
					n.lit(p.lit)
				} else {
					n.parts = append(n.parts, p)
				}
			}
		}
	}
	add(a)
	add(b)
	return n
}

func (s *SymStr) lit(x string) {
	if x == "" {
		return
	}
	if k := len(s.parts); k > 0 && s.parts[k-1].t == nil {
		s.parts[k-1].lit += x
		return
	}
	s.parts = append(s.parts, strPart{lit: x})
}

func (s *SymStr) norm() Value {
	if len(s.parts) == 0 {
		return ""
	}
	if len(s.parts) == 1 && s.parts[0].t == nil {
		return s.parts[0].lit
	}
	return s
}

func (s *SymStr) String() string {
	var b strings.Builder
	for _, p := range s.parts {
		if p.t == nil {
			b.WriteString(p.lit)
		} else {
			b.WriteString("<sym>")
		}
	}
	return b.String()
}

// mapKey returns a hashable key for a concrete value.
func mapKey(v Value) (interface{}, bool) {
	switch v := v.(type) {
	case bool, int64, string, Special, *Value, *Closure, *Map, *Chan, *Opaque:
		return v, true
	case *Term:
		if v.op == OConst && v.sort == SReal {
			return "r" + v.rat.RatString(), true
		}
		if v.op == OConst && v.sort == SFP {
			return [2]interface{}{"f", math.Float64bits(v.f)}, v.f == v.f
		}
		return nil, false
	case Iface:
		if v.t == nil {
			return "nil", true
		}
		k, ok := mapKey(v.v)
		return [2]interface{}{types.TypeString(v.t, nil), k}, ok
	case Struct:
		var b strings.Builder
		for _, x := range v {
			k, ok := mapKey(x)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&b, "%T:%v|", k, k)
		}
		return "S" + b.String(), true
	case Array:
		k, ok := mapKey(Struct(v))
		return k, ok
	}
	return nil, false
}
