// Command replay runs harnesses natively on concrete inputs.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"time"

	"github.com/alexander-yu/stream/zverif/sym"
	vsync "github.com/alexander-yu/stream/zverif/vsync"
)

type job struct {
	Harness  string
	Inputs   []sym.Input
	Sched    []int
	Mode     string // run, sched, stress, tally
	Thorough bool
	Millis   int
	Loose    float64
}

type result struct {
	Status   string // ok, fail, panic, stop
	Msg      string
	Obs      []sym.Obs
	Reached  []string
	Diverged string
	Runs     int
}

func once(f func(), in []sym.Input) (r result) {
	cp := append([]sym.Input{}, in...)
	sym.Reset(cp)
	defer func() {
		x := recover()
		r.Obs = sym.Observed
		for k := range sym.Reached {
			r.Reached = append(r.Reached, k)
		}
		switch x := x.(type) {
		case nil:
		case sym.Failure:
			r.Status, r.Msg = "fail", x.Msg
		case sym.Stop:
			r.Status, r.Msg = "stop", x.Why
		default:
			r.Status, r.Msg = "panic", fmt.Sprint(x)
		}
	}()
	r.Status = "ok"
	f()
	return
}

// tally explores every draw by backtracking and compares the exact probabilities.
func tally(f func(), in []sym.Input) result {
	type frac struct{ n, d float64 }
	sym.Tallying = true
	defer func() { sym.Tallying = false }()
	got := map[string]float64{}
	want := map[string]float64{}
	runs := 0
	var rec func(pre []sym.Input, w float64) *result
	rec = func(pre []sym.Input, w float64) *result {
		full := append(append([]sym.Input{}, pre...), sym.Input{K: "rint", V: "0"})
		sym.Reset(full)
		r := func() (r result) {
			defer func() {
				switch x := recover().(type) {
				case nil:
				case sym.Failure:
					r.Status, r.Msg = "fail", x.Msg
				case sym.Stop:
					r.Status, r.Msg = "stop", x.Why
				default:
					r.Status, r.Msg = "panic", fmt.Sprint(x)
				}
			}()
			f()
			return result{Status: "ok"}
		}()
		used := sym.Pos
		runs++
		if r.Status == "fail" || r.Status == "panic" {
			return &r
		}
		if used <= len(pre) && r.Status == "ok" {
			for _, t := range sym.Tallies {
				want[t.Label] = float64(t.Num) / float64(t.Den)
				if t.Held {
					got[t.Label] += w
				} else {
					got[t.Label] += 0
				}
			}
			return nil
		}
		n := full[len(pre)].N
		if n <= 0 || runs > 200000 {
			return &result{Status: "stop", Msg: "tally: " + r.Msg}
		}
		for v := int64(0); v < n; v++ {
			if x := rec(append(append([]sym.Input{}, pre...), sym.Input{K: "rint", V: fmt.Sprint(v), N: n}), w/float64(n)); x != nil {
				return x
			}
		}
		return nil
	}
	var fixed []sym.Input
	for _, i := range in {
		if i.K != "rint" {
			fixed = append(fixed, i)
		}
	}
	if x := rec(fixed, 1); x != nil {
		return *x
	}
	for l, w := range want {
		if d := got[l] - w; d > 1e-9 || d < -1e-9 {
			return result{Status: "fail", Msg: fmt.Sprintf("%s has probability %v, %v expected", l, got[l], w), Runs: runs}
		}
	}
	return result{Status: "ok", Runs: runs}
}

func main() {
	var jobs []job
	b, err := os.ReadFile(os.Args[1])
	if err == nil {
		err = json.Unmarshal(b, &jobs)
	}
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	var out []result
	for _, j := range jobs {
		f := registry[j.Harness]
		if f == nil {
			out = append(out, result{Status: "stop", Msg: "no such harness"})
			continue
		}
		sym.IsThorough = j.Thorough
		sym.Loose = 1e-6
		if j.Loose > 0 {
			sym.Loose = j.Loose
		}
		switch j.Mode {
		case "stress":
			vsync.Real = true
			end := time.Now().Add(time.Duration(j.Millis) * time.Millisecond)
			var r result
			n := 0
			for time.Now().Before(end) {
				r = once(f, j.Inputs)
				n++
				if r.Status == "fail" || r.Status == "panic" {
					break
				}
			}
			r.Runs = n
			out = append(out, r)
		case "tally":
			vsync.Real = true
			out = append(out, tally(f, j.Inputs))
		case "sched":
			vsync.Real = false
			vsync.Start(j.Sched)
			r := once(f, j.Inputs)
			r.Diverged = vsync.Diverged
			if r.Status == "panic" && strings.Contains(r.Msg, "deadlock") {
				r.Status = "fail"
			}
			out = append(out, r)
		default:
			vsync.Real = true
			out = append(out, once(f, j.Inputs))
		}
	}
	o, _ := json.Marshal(out)
	if len(os.Args) > 2 {
		os.WriteFile(os.Args[2], o, 0o644)
	} else {
		os.Stdout.Write(append(o, '\n'))
	}
}
