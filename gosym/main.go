package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

// levels of evidence
type evidence struct {
	Property    string                 `json:"property"`
	Tier        string                 `json:"tier"`
	Seed        int64                  `json:"seed"`
	Level       string                 `json:"level"`
	Coverage    map[string]interface{} `json:"coverage"`
	Assumptions []string               `json:"assumptions"`
	Wall        float64                `json:"wall_s"`
	Violations  int                    `json:"violations"`
}

type known struct{ prop, harness, match string }

// readKnown reads the committed findings: lines
//
//	known: property=P harness=H match=<text the message must contain>
//	fixed: property=P <commit> <what failed>      (suppresses nothing)
func readKnown(verif string) []known {
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		var k known
		rest := l[7:]
		if i := strings.Index(rest, " match="); i >= 0 {
			k.match = rest[i+7:]
			rest = rest[:i]
		}
		for _, f := range strings.Fields(rest) {
			if strings.HasPrefix(f, "property=") {
				k.prop = f[9:]
			}
			if strings.HasPrefix(f, "harness=") {
				k.harness = f[8:]
			}
		}
		if k.prop != "" && k.harness != "" && k.match != "" {
			out = append(out, k)
		}
	}
	return out
}

func main() {
	verif := flag.String("verif", "/verif", "verification directory")
	only := flag.String("harness", "", "run only harnesses with this prefix")
	budget := flag.Float64("budget", 0, "seconds for the whole check")
	verbose := flag.Bool("v", false, "print per-harness statistics")
	noNative := flag.Bool("nonative", false, "skip native replay and validation")
	replayF := flag.String("replay", "", "re-run a stored counterexample natively")
	flag.StringVar(&repoDir, "repo", repoDir, "the tree to check (developer aid: every registered command uses the default)")
	flag.Parse()
	if *replayF != "" {
		os.Exit(rerun(*verif, *replayF))
	}
	if flag.NArg() != 1 {
		fmt.Println("usage: gosym [flags] PROPERTY")
		os.Exit(2)
	}
	if f := os.Getenv("GOSYM_PROF"); f != "" {
		w, err := os.Create(f)
		if err == nil {
			pprof.StartCPUProfile(w)
			rc := check(*verif, flag.Arg(0), *only, *budget, *verbose, *noNative)
			pprof.StopCPUProfile()
			os.Exit(rc)
		}
	}
	os.Exit(check(*verif, flag.Arg(0), *only, *budget, *verbose, *noNative))
}

// workProp is the property whose replays count work.
const workProp = "P33"

// spaceProp is the property whose replays measure memory.
const spaceProp = "P32"

func check(verif, prop, only string, budget float64, verbose, noNative bool) int {
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	e, err := loadEngine(verif)
	if err != nil {
		fmt.Println("gosym: cannot encode the tree:", err)
		return 3
	}
	e.thorough = tier == "thorough"
	e.seed = seed
	if n := runtime.NumCPU(); n < nWorkers {
		nWorkers = n
	}
	if budget == 0 {
		budget = 420
		if e.thorough {
			budget = 3000
		}
	}
	deadline := t0.Add(time.Duration(budget * float64(time.Second)))
	var hs []*Harness
	for _, h := range e.harness {
		if h.prop == prop && strings.HasPrefix(h.name, only) && (e.thorough || h.flags["tier"] != "thorough") {
			hs = append(hs, h)
		}
	}
	if len(hs) == 0 {
		fmt.Println("gosym: no harness for", prop)
		return 3
	}
	nat := newNative(verif, e.harness)
	nat.work = hs[0].prop == workProp
	nat.space = hs[0].prop == spaceProp
	defer nat.close()
	var ws []*Worker
	for i := 0; i < nWorkers; i++ {
		ws = append(ws, newWorker(e, i))
	}
	defer func() {
		for _, w := range ws {
			w.s.Close()
		}
	}()
	knowns := readKnown(verif)
	var runs []*HarnessRun
	violations := 0
	var replayPath string
	var unrep []string
	knownHit := map[string]bool{}
	for i, h := range hs {
		left := time.Until(deadline)
		share := left / time.Duration(len(hs)-i)
		if x := h.flagInt("share", 0); x > 0 {
			share = left * time.Duration(x) / 100
		} else {
			share = left * 6 / 10
			if i == len(hs)-1 {
				share = left
			}
		}
		if share < time.Second {
			share = time.Second
		}
		r := e.explore(h, ws, share)
		runs = append(runs, r)
		r.checkTallies()
		if verbose {
			fmt.Printf("%s: paths %d merged %d visited %d infeasible %d limits %d unsupported %d complete %v asserts %d (%d by query) wall %.1fs steps %d depth %d queue %d %v %v\n", h.name, r.paths, r.mergedN, len(r.visited), r.infeasible, r.limits, r.unsupported, r.complete, r.asserts, r.solvedAsserts, r.wall.Seconds(), r.steps, r.maxDepth, r.maxQueue, r.limitMsgs, r.notes)
			for _, l := range h.labels {
				if !r.reached[l] {
					fmt.Println("   not reached:", l)
				}
			}
		}
		cands := append(append([]*Violation{}, r.viols...), r.hangs...)
		tried := 0
		for _, v := range cands {
			ins, _ := nativeInputs(v.Inputs, v.Model)
			if verbose {
				b, _ := json.Marshal(ins)
				fmt.Printf("   candidate %s: %s %s\n      %s\n      %d scheduling steps\n", v.Kind, v.Msg, v.Where, b, len(v.Sched))
			}
			if noNative {
				continue
			}
			isKnown := ""
			for _, k := range knowns {
				if k.prop == prop && k.harness == h.name && strings.Contains(v.Msg, k.match) {
					isKnown = k.match
				}
			}
			if isKnown != "" {
				if !knownHit[isKnown] {
					knownHit[isKnown] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", prop, h.name, v.Msg)
				}
				continue
			}
			tried++
			if tried > 6 {
				break
			}
			ms := 8000
			rp := nat.reproduce(v, e.thorough, ms)
			if verbose {
				fmt.Printf("      native %s: %v %s %s\n", rp.Kind, rp.OK, rp.Status, rp.Msg)
			}
			if !rp.OK {
				unrep = append(unrep, fmt.Sprintf("%s: %s: %s (native: %s %s)", h.name, v.Kind, v.Msg, rp.Status, tailStr(rp.Msg, 200)))
				continue
			}
			replayPath = saveReplay(verif, prop, v, rp, e.thorough)
			violations++
			fmt.Printf("%s: %s: %s\n  native replay (%s): %s %s\n", h.name, v.Kind, v.Msg, rp.Kind, rp.Status, rp.Msg)
			break
		}
		if violations > 0 {
			break
		}
	}
	valOK, valBad := 0, 0
	var valMsgs []string
	if !noNative && violations == 0 {
		valOK, valBad, valMsgs = nat.validate(runs, e.thorough)
	}
	st := Stats{}
	for _, w := range ws {
		st.add(&w.s.stats)
	}
	writeEvidence(verif, prop, tier, seed, e, hs, runs, st, nat, valOK, valBad, valMsgs, unrep, violations, time.Since(t0).Seconds())
	for _, m := range valMsgs {
		fmt.Println("encoding differs from the real run:", m)
	}
	for _, m := range unrep {
		fmt.Println("not reproduced natively, not reported:", m)
	}
	for _, r := range runs {
		if !r.complete && violations == 0 {
			fmt.Printf("reduced bound: %s: %d paths finished, %d not finished %v\n", r.h.name, r.paths, r.limits+r.unsupported+r.qlen, topMsgs(r.limitMsgs))
		}
	}
	if violations > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replayPath)
		return 1
	}
	fmt.Printf("%s: held on everything explored (%d harnesses, %d queries, %.1fs)\n", prop, len(runs), st.Queries, time.Since(t0).Seconds())
	return 0
}

func topMsgs(m map[string]int) []string {
	var ks []string
	for k, v := range m {
		ks = append(ks, fmt.Sprintf("%s (%d)", k, v))
	}
	sort.Strings(ks)
	if len(ks) > 5 {
		ks = ks[:5]
	}
	return ks
}

func (r *HarnessRun) checkTallies() {
	if len(r.tallies) == 0 || !r.complete || r.tallyBad {
		return
	}
	var ls []string
	for l := range r.tallies {
		ls = append(ls, l)
	}
	sort.Strings(ls)
	for _, l := range ls {
		t := r.tallies[l]
		r.asserts++
		if t.sum.Cmp(t.want) != 0 {
			r.viols = append(r.viols, &Violation{Kind: "tally", Msg: fmt.Sprintf("%s has probability %s, %s expected", l, t.sum.RatString(), t.want.RatString()), Harness: r.h.name, Inputs: r.tallyInputs(l), Exact: true})
			return
		}
	}
}

// tallyInputs: the choices of the first path with the label are part of the label by convention,
// the label starts with them: "a=2,b=3: ...". They are replayed as choice inputs.
func (r *HarnessRun) tallyInputs(label string) []Input {
	var out []Input
	head, _, ok := strings.Cut(label, ":")
	if !ok {
		return nil
	}
	for _, kv := range strings.Split(head, ",") {
		_, v, ok := strings.Cut(kv, "=")
		if !ok {
			return nil
		}
		i, err := strconv.ParseInt(v, 10, 64)
		if err != nil {
			return nil
		}
		out = append(out, Input{Kind: "choice", I: i})
	}
	return out
}

func saveReplay(verif, prop string, v *Violation, rp Replay, thorough bool) string {
	dir := filepath.Join(verif, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	f := filepath.Join(dir, prop+".json")
	rp.Job.Thorough = thorough
	b, _ := json.MarshalIndent(map[string]interface{}{"property": prop, "harness": v.Harness, "kind": v.Kind, "message": v.Msg, "where": v.Where, "job": rp.Job, "replay": rp.Kind, "native_status": rp.Status, "native_message": rp.Msg, "output": rp.Output}, "", " ")
	os.WriteFile(f, b, 0o644)
	return f
}

func rerun(verif, f string) int {
	var x struct {
		Job    NJob
		Replay string
	}
	b, err := os.ReadFile(f)
	if err == nil {
		err = json.Unmarshal(b, &x)
	}
	if err != nil {
		fmt.Println(err)
		return 3
	}
	e, err := loadEngine(verif)
	if err != nil {
		fmt.Println(err)
		return 3
	}
	nat := newNative(verif, e.harness)
	nat.work = strings.HasPrefix(x.Job.Harness, workProp)
	nat.space = strings.HasPrefix(x.Job.Harness, spaceProp)
	defer nat.close()
	kind := map[string]string{"run": "plain", "tally": "plain", "sched": "sched", "stress": "race"}[x.Replay]
	res, out, err := nat.run(kind, []NJob{x.Job}, 60*time.Second)
	fmt.Println(res, out, err)
	if err != nil || len(res) > 0 && (res[0].Status == "fail" || res[0].Status == "panic") {
		return 1
	}
	return 0
}
