package main

import (
	"hash/fnv"
	"math"
	"math/big"
	"sort"
	"strconv"
)

// NInput is one input of a native replay.
type NInput struct {
	K string // float, int, choice, rfloat, rint
	V string
	N int64 `json:",omitempty"`
}

// NObs is an observed value (native or predicted).
type NObs struct {
	L string
	K string
	V string
}

const keepSamples = 6

func fstr(f float64) string { return strconv.FormatFloat(f, 'g', -1, 64) }

func modelFloat(v interface{}) (float64, bool) {
	switch v := v.(type) {
	case *big.Rat:
		return ratToFloat(v), true
	case float64:
		return v, true
	}
	return 0, false
}

// nativeInputs turns a model into concrete inputs in the order they are asked for.
func nativeInputs(ins []Input, m Model) ([]NInput, bool) {
	var out []NInput
	exact := true
	for _, in := range ins {
		n := NInput{K: in.Kind, N: in.N}
		switch {
		case in.isS:
			n.V = fstr(float64(in.S))
		case in.T == nil:
			n.V = strconv.FormatInt(in.I, 10)
		default:
			v, ok := m[in.Name]
			if !ok {
				exact = false
			}
			switch in.T.sort {
			case SBV:
				u, _ := v.(uint64)
				n.V = strconv.FormatInt(sx(u, in.T.w), 10)
			case SBool:
				b, _ := v.(bool)
				n.V = strconv.FormatInt(b2i(b), 10)
			default:
				f, ok := modelFloat(v)
				if !ok {
					exact = false
				}
				if r, isR := v.(*big.Rat); isR {
					if x := ratOfFloat(f); x == nil || x.Cmp(r) != 0 {
						exact = false
					}
				}
				if in.Kind == "rfloat" && f >= 1 {
					f = math.Nextafter(1, 0)
				}
				n.V = fstr(f)
			}
		}
		out = append(out, n)
	}
	return out, exact
}

func decHash(d []int64) uint64 {
	h := fnv.New64a()
	var b [8]byte
	for _, x := range d {
		for i := range b {
			b[i] = byte(x >> (8 * i))
		}
		h.Write(b[:])
	}
	return h.Sum64()
}

func (r *HarnessRun) makeSample(p *Path) *Sample {
	w := decHash(p.dec)
	r.mu.Lock()
	full := len(r.samples) >= keepSamples && w >= r.samples[len(r.samples)-1].weight
	r.mu.Unlock()
	if full || (p.sch != nil && p.sch.conc) {
		return nil
	}
	s := &Sample{weight: w}
	s.Inputs, _ = nativeInputs(p.inputs, p.model)
	for _, o := range p.obs {
		n := NObs{L: o.Label, K: o.Kind}
		switch v := o.V.(type) {
		case int64:
			n.V = strconv.FormatInt(v, 10)
		case Special:
			n.V = fstr(float64(v))
		case *Term:
			switch x := v.eval(p.model, p.ec).(type) {
			case *big.Rat:
				n.V = fstr(ratToFloat(x))
			case float64:
				n.V = fstr(x)
			case uint64:
				n.V = strconv.FormatInt(sx(x, v.w), 10)
			default:
				n.V = "?"
			}
		default:
			n.V = "?"
		}
		s.Obs = append(s.Obs, n)
	}
	return s
}

// keepSample is called with the run's lock held.
func (r *HarnessRun) keepSample(s *Sample) {
	r.samples = append(r.samples, s)
	sort.Slice(r.samples, func(i, j int) bool { return r.samples[i].weight < r.samples[j].weight })
	if len(r.samples) > keepSamples {
		r.samples = r.samples[:keepSamples]
	}
}
