package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func writeEvidence(verif, prop, tier string, seed int64, e *Engine, hs []*Harness, runs []*HarnessRun, st Stats, nat *Native, valOK, valBad int, valMsgs, unrep []string, violations int, wall float64) {
	var states, trans, asserts, solved int64
	paths, infeasible, unfinished := 0, 0, 0
	complete := true
	var hlist []interface{}
	var samples []interface{}
	assum := map[string]bool{}
	var unreached []string
	labels := 0
	for _, r := range runs {
		if len(r.visited) > 0 {
			states += int64(len(r.visited))
		} else {
			states += int64(r.paths)
		}
		trans += r.transitions
		asserts += r.asserts
		solved += r.solvedAsserts
		paths += r.paths
		infeasible += r.infeasible
		unfinished += r.limits + r.unsupported + r.qlen
		if !r.complete {
			complete = false
		}
		for _, l := range r.h.labels {
			labels++
			if !r.reached[l] {
				unreached = append(unreached, r.h.name+": "+l)
			}
		}
		hl := map[string]interface{}{
			"harness": r.h.name, "bounds": r.h.bounds, "paths": r.paths, "assertions_decided": r.asserts, "assertions_needing_a_query": r.solvedAsserts,
			"instructions_executed": r.steps, "exhaustive_within_bounds": r.complete, "wall_s": r.wall.Seconds(), "longest_decision_sequence": r.maxDepth,
		}
		if len(r.visited) > 0 {
			hl["distinct_states"] = len(r.visited)
			hl["paths_merged_into_a_visited_state"] = r.mergedN
		}
		if len(r.limitMsgs) > 0 {
			hl["unfinished"] = topMsgs(r.limitMsgs)
		}
		if len(r.notes) > 0 {
			hl["notes"] = r.notes
		}
		if r.h.flags["mode"] == "fp" {
			hl["floats"] = "IEEE binary64"
		} else {
			hl["floats"] = "exact reals, NaN and infinities as separate values"
		}
		hlist = append(hlist, hl)
		for i, s := range r.samples {
			if i < 2 && len(samples) < 12 {
				var in []string
				for _, x := range s.Inputs {
					in = append(in, x.K+"="+x.V)
				}
				var ob []string
				for _, x := range s.Obs {
					ob = append(ob, x.L+"="+x.V)
				}
				samples = append(samples, map[string]interface{}{"harness": r.h.name, "inputs": strings.Join(in, " "), "predicted": strings.Join(ob, " ")})
			}
		}
		for _, a := range r.h.assumes {
			assum[a] = true
		}
		if r.redirects != nil {
			assum["the third-party queue.RingBuffer is replaced by a blocking FIFO model with the same rounded capacity"] = true
		}
		if r.h.flags["mode"] != "fp" {
			assum["float64 arithmetic is evaluated over the exact reals (rounding, overflow and signed zero are outside the claim)"] = true
		}
		if r.approx {
			assum["some transcendental values of constants are double approximations"] = true
		}
	}
	if samples == nil {
		samples = append(samples, map[string]interface{}{"note": "no sequential sample path in this check"})
		for _, r := range runs {
			samples = append(samples, map[string]interface{}{"harness": r.h.name, "paths": r.paths})
		}
	}
	var fns []string
	blocks, hit := 0, 0
	cfuncs.Range(func(k, v interface{}) bool {
		c := v.(*cfunc)
		if !c.repo || c.hits == 0 {
			return true
		}
		h := 0
		for _, x := range c.blockHit {
			if x != 0 {
				h++
			}
		}
		if len(c.blockHit) > 0 {
			blocks += len(c.blockHit)
			hit += h
			fns = append(fns, fmt.Sprintf("%s (%d/%d blocks)", strings.ReplaceAll(c.name, modPath, "stream"), h, len(c.blockHit)))
		}
		return true
	})
	sort.Strings(fns)
	cov := map[string]interface{}{
		"states": states, "transitions": trans, "traces_validated_against_impl": valOK, "samples": samples,
		"exhaustive":                         complete,
		"symbolic_paths":                     paths,
		"paths_not_finished":                 unfinished,
		"infeasible_paths":                   infeasible,
		"assertions_decided":                 asserts,
		"assertions_needing_their_own_query": solved,
		"queries":                            map[string]interface{}{"total": st.Queries, "sat": st.SatN, "unsat": st.UnsatN, "unknown": st.UnknownN, "solver_errors": st.Errors, "nonlinear": st.NLQ, "sent_to_a_second_solver": st.CvcQ, "solver_s": float64(st.SolverNS) / 1e9, "slowest_s": float64(st.MaxNS) / 1e9},
		"functions_encoded":                  fns,
		"repo_blocks_executed":               fmt.Sprintf("%d of %d in these functions", hit, blocks),
		"harnesses":                          hlist,
		"encode_s":                           float64(e.loadNS) / 1e9,
		"native_build_and_replay_s":          float64(nat.wallNS) / 1e9,
		"reachability_witnesses":             fmt.Sprintf("%d of %d labels reached", labels-len(unreached), labels),
	}
	if len(unreached) > 0 {
		cov["labels_not_reached"] = unreached
	}
	if valBad > 0 || len(valMsgs) > 0 {
		cov["traces_that_differ_from_impl"] = valBad
		cov["differences"] = valMsgs
	}
	if len(unrep) > 0 {
		cov["counterexamples_not_reproduced"] = unrep
	}
	var as []string
	for a := range assum {
		as = append(as, a)
	}
	sort.Strings(as)
	as = append(as, "trusted: golang.org/x/tools/go/ssa, the gosym interpreter (validated by replaying sampled paths natively), z3/cvc5 answers")
	ev := evidence{Property: prop, Tier: tier, Seed: seed, Level: "model_checking", Coverage: cov, Assumptions: as, Wall: wall, Violations: violations}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o644)
}
