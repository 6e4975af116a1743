// Package sym is the interface between the harnesses and the symbolic executor. Under gosym
// every function here is intercepted; the bodies below serve the native replay of concrete
// inputs against the real build.
package sym

import (
	"fmt"
	"math"
	"runtime"
	"sort"
	"strconv"
	"time"

	"github.com/alexander-yu/stream/zverif/vtick"
)

// Input is one concrete input of a replay.
type Input struct {
	K string
	V string
	N int64
}

// Obs is one observed value.
type Obs struct{ L, K, V string }

// Failure is the panic value of a failed assertion.
type Failure struct{ Msg string }

// Stop ends a replay whose assumptions do not hold or whose inputs are exhausted.
type Stop struct{ Why string }

// State of the replay.
var (
	Inputs     []Input
	Pos        int
	Observed   []Obs
	Reached    = map[string]bool{}
	IsThorough bool
	Tallies    []TallyRec
	Loose      float64 = 1e-6
)

// TallyRec records one sym.Tally call.
type TallyRec struct {
	Label    string
	Held     bool
	Num, Den int
}

// Reset prepares a replay.
func Reset(in []Input) {
	fixedDraws, nthDraw = false, 0
	Inputs, Pos, Observed, Reached, Tallies = in, 0, nil, map[string]bool{}, nil
}

func next(kind string) string {
	if Pos >= len(Inputs) {
		panic(Stop{"inputs exhausted"})
	}
	in := Inputs[Pos]
	Pos++
	if in.K != kind {
		panic(Stop{fmt.Sprintf("input %d is %s, %s asked", Pos-1, in.K, kind)})
	}
	return in.V
}

func num(s string) float64 {
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		panic(Stop{err.Error()})
	}
	return f
}

func inum(s string) int {
	i, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		panic(Stop{err.Error()})
	}
	return int(i)
}

// Float is any finite number.
func Float() float64 { return num(next("float")) }

// AnyFloat is any float64, NaN and infinities included.
func AnyFloat() float64 { return num(next("float")) }

// Int is any integer in [lo, hi].
func Int(lo, hi int) int { return inum(next("int")) }

// AnyInt is any int.
func AnyInt() int { return inum(next("int")) }

// Choice is any of 0..n-1, explored separately.
func Choice(n int) int {
	if n <= 1 {
		if Pos < len(Inputs) && Inputs[Pos].K == "choice" {
			Pos++
		}
		return 0
	}
	return inum(next("choice"))
}

// Bool is either value, explored separately.
func Bool() bool { return Choice(2) == 1 }

// RandFloat and RandInt are the draws of the scripted random source.
func RandFloat() float64 { return num(next("rfloat")) }

// RandInt is a draw in [0, n).
func RandInt(n int64) int64 {
	if Tallying && fixedDraws {
		nthDraw++
		return (nthDraw*7 + nthDraw/5) % n
	}
	if Pos < len(Inputs) && Inputs[Pos].K == "rint" {
		Inputs[Pos].N = n
	}
	v := int64(inum(next("rint")))
	if v < 0 || v >= n {
		panic(Stop{"draw out of range"})
	}
	return v
}

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		panic(Stop{"assumption"})
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		panic(Failure{msg})
	}
}

// Eq is exact equality under gosym (NaN equals NaN), equality up to rounding natively.
func Eq(a, b float64) bool {
	if a == b || a != a && b != b {
		return true
	}
	if math.IsInf(a, 0) || math.IsInf(b, 0) || a != a || b != b {
		return false
	}
	return math.Abs(a-b) <= Loose*math.Max(1, math.Max(math.Abs(a), math.Abs(b)))
}

// Identical is true for floats that are trivially equal (natively: equal).
func Identical(a, b float64) bool { return Eq(a, b) }

// And does not fork.
func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}

// Or does not fork.
func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}

// Not does not fork.
func Not(c bool) bool { return !c }

// Ite does not fork.
func Ite(c bool, a, b float64) float64 {
	if c {
		return a
	}
	return b
}

// SameMultiset does not fork.
func SameMultiset(a, b []float64) bool {
	x, y := append([]float64{}, a...), append([]float64{}, b...)
	sort.Float64s(x)
	sort.Float64s(y)
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

// Branch forks on c.
func Branch(c bool) bool { return c }

// Concrete forks over the values of i.
func Concrete(i int) int { return i }

// Reach marks a point that must be reached by some path.
func Reach(label string) { Reached[label] = true }

// ObserveFloat records a result that the encoding predicts.
func ObserveFloat(label string, v float64) {
	Observed = append(Observed, Obs{label, "float", strconv.FormatFloat(v, 'g', -1, 64)})
}

// ObserveInt records a result that the encoding predicts.
func ObserveInt(label string, v int) {
	Observed = append(Observed, Obs{label, "int", strconv.Itoa(v)})
}

// Tally states that held has probability num/den over the random draws.
func Tally(label string, held bool, num, den int) {
	Tallies = append(Tallies, TallyRec{label, held, num, den})
}

// Thorough reports whether the deeper bounds are wanted.
func Thorough() bool { return IsThorough }

// Checkpoint lets the executor merge paths that reach isomorphic states. The roots must hold
// everything the rest of the path depends on.
func Checkpoint(roots ...interface{}) {}

// Interpreted reports whether the code runs under gosym.
func Interpreted() bool { return false }

// Schedules turns the exploration of schedules on or off (off: a single schedule).
func Schedules(on bool) {}

// FixedDraws lets random draws follow a fixed pattern (on) or take any value (off).
func FixedDraws(on bool) { fixedDraws = on }

// EvenDraws is FixedDraws with the draws spread evenly over [0, 1).
func EvenDraws() {}

// Work counts the function calls, loop iterations and copied elements of the code under test
// so far. Natively it needs the instrumented build.
func Work() int { return int(vtick.N) }

// Space is the memory in bytes reachable from the roots and from package variables, with the
// stacks of the goroutines that were left running. Natively it is the size of the heap.
func Space(roots ...interface{}) int {
	for i := 0; i < 1000 && runtime.NumGoroutine() > 2; i++ {
		time.Sleep(time.Millisecond)
	}
	var m runtime.MemStats
	n := 3
	if !Measured {
		Measured, n = true, 30
	}
	for i := 0; i < n; i++ {
		runtime.GC()
		runtime.ReadMemStats(&m)
	}
	runtime.KeepAlive(roots)
	return int(m.HeapAlloc) + 2048*runtime.NumGoroutine()
}

// Measured is set once Space was called: the runtime may add to the heap on its own.
var Measured bool

// Tallying is set while every outcome of the draws is tried; fixed draws are no inputs then.
var Tallying bool

var (
	fixedDraws bool
	nthDraw    int64
)
