// Package vrand replaces math/rand in replays: every draw comes from the script.
package vrand

import "github.com/alexander-yu/stream/zverif/sym"

// Source stands in for rand.Source.
type Source interface{ Seed(int64) }

type src struct{}

func (src) Seed(int64) {}

// NewSource stands in for rand.NewSource.
func NewSource(int64) Source { return src{} }

// Rand stands in for rand.Rand.
type Rand struct{ used int }

// New stands in for rand.New.
func New(Source) *Rand { return &Rand{} }

func (r *Rand) Float64() float64     { r.used++; return sym.RandFloat() }
func (r *Rand) Intn(n int) int       { r.used++; return Intn(n) }
func (r *Rand) Int63n(n int64) int64 { r.used++; return sym.RandInt(n) }
func (r *Rand) Int31n(n int32) int32 { r.used++; return int32(sym.RandInt(int64(n))) }
func (r *Rand) Perm(n int) []int     { r.used++; return Perm(n) }
func (r *Rand) Seed(int64)           {}

func Seed(int64)           {}
func Float64() float64     { return sym.RandFloat() }
func Int63n(n int64) int64 { return sym.RandInt(n) }
func Int31n(n int32) int32 { return int32(sym.RandInt(int64(n))) }

// Intn stands in for rand.Intn.
func Intn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	return int(sym.RandInt(int64(n)))
}

// Perm stands in for rand.Perm.
func Perm(n int) []int {
	s := make([]int, n)
	for i := range s {
		j := Intn(i + 1)
		s[i] = s[j]
		s[j] = i
	}
	return s
}
