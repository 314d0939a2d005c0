package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

type finding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // known | fixed
	Harness  string `json:"harness"`
	Label    string `json:"label"`
	What     string `json:"what"`
	Commit   string `json:"commit"`
}

func readFindings(path string) []finding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || l[0] != '{' {
			continue
		}
		var f finding
		if json.Unmarshal([]byte(l), &f) == nil {
			out = append(out, f)
		}
	}
	return out
}

type hreport struct {
	Harness       string         `json:"harness"`
	Paths         int64          `json:"paths"`
	Complete      int64          `json:"complete_paths"`
	Assumed       int64          `json:"paths_cut_by_assumptions"`
	Steps         int64          `json:"ssa_instructions_executed"`
	AssertQ       int64          `json:"assertion_queries"`
	AssertTrivial int64          `json:"assertions_discharged_without_query"`
	MaxDecisions  int64          `json:"max_decisions_on_a_path"`
	Exhausted     bool           `json:"bound_exhausted"`
	Dropped       int64          `json:"unexplored_prefixes,omitempty"`
	Unsupported   map[string]int `json:"unsupported,omitempty"`
	Limits        map[string]int `json:"limits,omitempty"`
	UnknownBranch int64          `json:"undecided_branches,omitempty"`
	UnknownAssume int64          `json:"undecided_assumptions,omitempty"`
	UnknownAssert int64          `json:"undecided_assertions,omitempty"`
	Covers        map[string]int `json:"reached"`
	Notes         map[string]int `json:"notes,omitempty"`
	Witnesses     int            `json:"witnesses_replayed"`
	WitnessOK     int            `json:"witnesses_agreeing"`
	WitnessBad    []string       `json:"witnesses_disagreeing,omitempty"`
	Candidates    int            `json:"candidates"`
	Confirmed     int            `json:"confirmed"`
	Unconfirmed   []string       `json:"unconfirmed,omitempty"`
	Seconds       float64        `json:"seconds"`
}

func main() {
	debug.SetGCPercent(200)
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: gosym <property> <quick|thorough>")
		os.Exit(0)
	}
	id, tier := os.Args[1], os.Args[2]
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	repo := os.Getenv("REPO_DIR")
	if repo == "" {
		repo = "/repo"
	}
	code := runCheck(verif, repo, id, tier)
	os.Exit(code)
}

func runCheck(verif, repo, id, tier string) (code int) {
	t0 := time.Now()
	budget := 240 * time.Second
	if tier == "thorough" {
		budget = 40 * time.Minute
	}
	if s := os.Getenv("GOSYM_BUDGET"); s != "" {
		n, _ := strconv.Atoi(s)
		budget = time.Duration(n) * time.Second
	}
	workers := runtime.NumCPU()
	if s := os.Getenv("GOSYM_WORKERS"); s != "" {
		workers, _ = strconv.Atoi(s)
	}
	if workers > 8 {
		workers = 8
	}
	only := os.Getenv("GOSYM_ONLY")
	scratch, err := os.MkdirTemp("", "gosym-"+id+"-")
	if err != nil {
		fmt.Println("cannot create scratch:", err)
		return 0
	}
	defer os.RemoveAll(scratch)

	ev := map[string]any{}
	cov := map[string]any{}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev["property"], ev["tier"], ev["seed"], ev["level"] = id, tier, seed, "model_checking"
	var reports []*hreport
	var viol []map[string]any
	finish := func(why string) int {
		writeEvidence(verif, id, ev, cov, reports, viol, why, t0)
		return code
	}
	defer func() {
		if r := recover(); r != nil {
			fmt.Printf("INCONCLUSIVE property=%s engine failure: %v\n", id, r)
			if debugOn {
				debug.PrintStack()
			}
			finish(fmt.Sprintf("engine failure: %v", r))
			if code == 0 {
				code = 3
			}
		}
	}()

	// a private copy of go.mod/go.sum: the module files of the tree stay untouched
	modfile := filepath.Join(scratch, "go.mod")
	for _, n := range []string{"go.mod", "go.sum"} {
		b, _ := os.ReadFile(filepath.Join(repo, n))
		os.WriteFile(filepath.Join(scratch, n), b, 0o644)
	}
	vsymSrc := filepath.Join(verif, "harness/vsym/vsym.go")
	files := harnessFiles(filepath.Join(verif, "harness"), repo, id)
	ld, err := load(repo, vsymSrc, modfile, id, files)
	if err != nil {
		fmt.Printf("INCONCLUSIVE property=%s %v\n", id, err)
		finish("not decided: " + err.Error())
		return 3
	}
	tLoad := time.Since(t0)
	debugf("loaded in %v", tLoad)
	nbc := make(chan *nativeBin, 1)
	go func() { nbc <- buildNative(scratch, repo, vsymSrc, modfile, ld, tier) }()

	var exps []*Explorer
	deadline := time.Now().Add(budget)
	fns := ld.fns
	for i, fn := range fns {
		if only != "" && !strings.Contains(fn.Name(), only) {
			continue
		}
		e := NewExplorer(ld.prog, fn, tier)
		left := time.Until(deadline)
		share := left / time.Duration(len(fns)-i) * 2
		if share > left {
			share = left
		}
		e.deadline = time.Now().Add(share)
		if tier == "thorough" {
			e.maxSteps = 20000000
			e.toMs = 3000
			fallbackMs = 60000
		}
		h0 := time.Now()
		e.Run(workers)
		r := &hreport{Harness: fn.Name(), Paths: e.paths, Complete: e.complete, Assumed: e.infeasible, Steps: e.steps,
			AssertQ: e.assertQ, AssertTrivial: e.assertConst, MaxDecisions: e.maxDec, Dropped: e.dropped,
			Unsupported: e.unsupp, Limits: e.limits, UnknownBranch: e.unknownBranch, UnknownAssume: e.unknownAssume,
			UnknownAssert: e.unknownAssert, Covers: e.covers, Notes: e.notes, Seconds: time.Since(h0).Seconds()}
		r.Exhausted = !e.timedOut && len(e.unsupp) == 0 && len(e.limits) == 0 && e.unknownBranch+e.unknownAssume+e.unknownAssert == 0
		reports = append(reports, r)
		exps = append(exps, e)
		debugf("%s: %d paths, %d complete, %d cut, %.1fs, %d candidates", fn.Name(), e.paths, e.complete, e.infeasible, r.Seconds, len(e.cands))
	}
	nb := <-nbc
	if nb.err != nil {
		fmt.Printf("INCONCLUSIVE property=%s the replay program does not build: %v\n%s\n", id, nb.err, nb.out)
		finish("replay program does not build: " + nb.out)
		return 3
	}
	findings := readFindings(filepath.Join(verif, "known_findings.jsonl"))
	nviol, nwit := 0, 0
	knownPrinted := map[string]bool{}
	for k, e := range exps {
		rep := reports[k]
		// witnesses first: does the encoding agree with the real code?
		var reqs []replayReq
		for _, w := range e.witnesses {
			reqs = append(reqs, replayReq{e.name, w.Inputs})
		}
		for i, r := range nb.run(reqs) {
			rep.Witnesses++
			ok := r.Status == "ok"
			if ok {
				for j := range e.witnesses[i].Obs {
					if j < len(r.Obs) && r.Obs[j] != e.witnesses[i].Obs[j] && !e.witnesses[i].MapND {
						ok = false
						r.Label = "observed " + r.Obs[j] + " expected " + e.witnesses[i].Obs[j]
					}
				}
			}
			if ok {
				rep.WitnessOK++
				nwit++
			} else {
				if r.Status == "assert" || r.Status == "panic" || r.Status == "overflow" || r.Status == "crash" {
					// a real failure on an input the encoding accepted
					e.cands = append(e.cands, Candidate{Kind: "assert", Label: r.Label, Inputs: e.witnesses[i].Inputs, MapND: e.witnesses[i].MapND, key: "witness"})
				}
				if len(rep.WitnessBad) < 5 {
					rep.WitnessBad = append(rep.WitnessBad, fmt.Sprintf("%s %s (inputs %v)", r.Status, r.Label, e.witnesses[i].Inputs))
				}
			}
		}
		rep.Candidates = len(e.cands)
		reported := map[string]bool{}
		sort.SliceStable(e.cands, func(i, j int) bool { return e.cands[i].Label < e.cands[j].Label })
		for _, c := range e.cands {
			if reported[c.Kind+c.Label] {
				continue
			}
			n := 1
			if c.MapND {
				n = 60
			}
			reqs := make([]replayReq, n)
			for i := range reqs {
				reqs[i] = replayReq{e.name, c.Inputs}
			}
			var hit *replayRes
			rs := nb.run(reqs)
			for i := range rs {
				s := rs[i].Status
				if s == "assert" || s == "panic" || s == "overflow" || s == "timeout" || s == "crash" {
					hit = &rs[i]
					break
				}
			}
			if hit == nil {
				if c.Kind == "assert" || c.Kind == "panic" {
					if len(rep.Unconfirmed) < 10 {
						rep.Unconfirmed = append(rep.Unconfirmed, fmt.Sprintf("%s: %s: native %s %s (inputs %v)", c.Kind, c.Label, rs[0].Status, rs[0].Label, c.Inputs))
					}
				}
				continue
			}
			reported[c.Kind+c.Label] = true
			what := hit.Status
			if hit.Label != "" {
				what += ": " + hit.Label
			}
			isKnown := false
			for _, f := range findings {
				if f.Status == "known" && f.Property == id && (f.Harness == "" || f.Harness == e.name) && f.Label == hit.Label {
					isKnown = true
					if !knownPrinted[f.What] {
						knownPrinted[f.What] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, f.What)
					}
				}
			}
			if isKnown {
				continue
			}
			rep.Confirmed++
			nviol++
			dir := filepath.Join(verif, "evidence", "replays")
			os.MkdirAll(dir, 0o755)
			rp := filepath.Join(dir, fmt.Sprintf("%s_%d.json", id, nviol))
			b, _ := json.MarshalIndent(map[string]any{"property": id, "harness": e.name, "failure": what, "inputs": c.Inputs,
				"observed": hit.Obs, "how": "VSYM_REPLAY file content is [{\"h\":harness,\"in\":inputs}]; see /verif/DESIGN.md"}, "", " ")
			os.WriteFile(rp, b, 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
			fmt.Printf("  harness %s: %s\n  inputs %v\n", e.name, what, c.Inputs)
			viol = append(viol, map[string]any{"harness": e.name, "failure": what, "replay": rp})
			code = 1
		}
	}
	cov["native_replays"] = nwit
	var samples []any
	for _, e := range exps {
		for i, w := range e.witnesses {
			if i >= 3 {
				break
			}
			samples = append(samples, map[string]any{"harness": e.name, "inputs": w.Inputs, "observed": w.Obs})
		}
	}
	cov["samples"] = samples
	cov["functions_encoded"] = repoFns(exps)
	cov["load_seconds"] = tLoad.Seconds()
	for _, r := range reports {
		line := fmt.Sprintf("%s: paths=%d complete=%d exhausted=%v asserts(q=%d,trivial=%d) witnesses=%d/%d candidates=%d confirmed=%d %.1fs",
			r.Harness, r.Paths, r.Complete, r.Exhausted, r.AssertQ, r.AssertTrivial, r.WitnessOK, r.Witnesses, r.Candidates, r.Confirmed, r.Seconds)
		fmt.Println(line)
		if !r.Exhausted {
			fmt.Printf("  REDUCED BOUND: unsupported=%v limits=%v undecided(branch=%d assume=%d assert=%d) unexplored=%d\n", r.Unsupported, r.Limits, r.UnknownBranch, r.UnknownAssume, r.UnknownAssert, r.Dropped)
		}
		for _, s := range r.Unconfirmed {
			fmt.Println("  unconfirmed:", s)
		}
		for _, s := range r.WitnessBad {
			fmt.Println("  witness disagrees:", s)
		}
		for n, c := range r.Notes {
			fmt.Println("  note:", n, c)
		}
	}
	for _, d := range droppedAll {
		fmt.Println("  harness dropped (does not compile against this tree):", d)
	}
	var decided int64
	for _, r := range reports {
		decided += r.Complete
	}
	if code == 0 && decided == 0 {
		fmt.Printf("INCONCLUSIVE property=%s no path could be executed to its end\n", id)
		finish("no path could be executed to its end")
		return 3
	}
	if code == 0 {
		fmt.Printf("OK property=%s held on everything explored (%d queries, %.1fs in the solver, %.1fs total)\n", id, stats.Queries, float64(stats.Time)/1e9, time.Since(t0).Seconds())
	}
	return finish("")
}

func repoFns(es []*Explorer) []string {
	m := map[string]bool{}
	for _, e := range es {
		for f := range e.fns {
			if strings.Contains(f, modPath) && !strings.Contains(f, "internal/vsym") && !strings.Contains(f, ".Verif") && !strings.Contains(f, "vf_") {
				m[strings.ReplaceAll(f, modPath+"/", "")] = true
			}
		}
	}
	return sortedKeys(m)
}

func writeEvidence(verif, id string, ev, cov map[string]any, reports []*hreport, viol []map[string]any, why string, t0 time.Time) {
	var paths, steps, wit int64
	exhausted := len(reports) > 0
	var samples []string
	for _, r := range reports {
		paths += r.Complete
		steps += r.Steps
		wit += int64(r.WitnessOK)
		exhausted = exhausted && r.Exhausted
		samples = append(samples, fmt.Sprintf("%s: %d symbolic paths, %d assertion queries", r.Harness, r.Paths, r.AssertQ))
	}
	if len(droppedAll) > 0 {
		exhausted = false
		cov["harnesses_dropped"] = droppedAll
	}
	cov["states"] = paths
	cov["transitions"] = steps
	cov["traces_validated_against_impl"] = wit
	cov["exhausted"] = exhausted
	if _, ok := cov["samples"]; !ok {
		cov["samples"] = samples
	}
	cov["harnesses"] = reports
	cov["solver"] = map[string]any{"back_end": solverBin + " (fall-back: cvc5, cvc5 --solve-bv-as-int, z3 4.8)", "queries": stats.Queries, "sat": stats.SatN, "unsat": stats.UnsatN,
		"unknown": stats.UnknownN, "cache_hits": stats.CacheHits, "fallback": stats.Fallback, "seconds": float64(stats.Time) / 1e9, "max_query_ms": stats.MaxQuery / 1e6}
	if b, err := os.ReadFile(filepath.Join(verif, "harness/bounds.json")); err == nil {
		var m map[string]any
		if json.Unmarshal(b, &m) == nil {
			if x, ok := m[id]; ok {
				cov["bounds"] = x
			}
		}
	}
	if why != "" {
		cov["inconclusive"] = why
	}
	ev["coverage"] = cov
	ev["wall_s"] = time.Since(t0).Seconds()
	if len(viol) > 0 {
		ev["violations"] = len(viol)
		cov["violations_found"] = viol
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", id+".json"), b, 0o644)
}
