package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type harnessCfg struct {
	Name   string   `json:"name"`   // pkg.HFunc
	Covers []string `json:"covers"` // reachability witnesses that must be hit
	Bounds string   `json:"bounds"`
	Tier   string   `json:"tier"`   // "" both, "thorough" only there
	Weight float64  `json:"weight"` // share of time (default 1)
}
type checkCfg struct {
	Harnesses   []harnessCfg `json:"harnesses"`
	Assumptions []string     `json:"assumptions"`
	QuickS      int          `json:"quick_s"`
	ThoroughS   int          `json:"thorough_s"`
	Level       string       `json:"level"`
}

var (
	fRepo    = flag.String("repo", "/repo", "")
	fVerif   = flag.String("verif", "/verif", "")
	fProp    = flag.String("prop", "", "property to check")
	fTier    = flag.String("tier", "quick", "")
	fHarness = flag.String("harness", "", "debug: run only these harnesses (comma separated)")
	fBudget  = flag.Int("budget", 0, "seconds (overrides the configuration)")
	fWorkers = flag.Int("workers", 0, "")
	fForks   = flag.Bool("forks", false, "profile forks")
	fKeep    = flag.Bool("keep-going", false, "debug: list all violations")
	fProf    = flag.String("cpuprofile", "", "")
	fDump    = flag.Bool("dump", false, "")
	fReplay  = flag.String("replay", "", "replay a violation file natively")
	fSolver  = flag.String("solver", "z3", "")
	fSteps   = flag.Int64("steps", 40_000_000, "")
)

func main() {
	flag.Parse()
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(20 << 30)
	if *fProf != "" {
		f, _ := os.Create(*fProf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	code := run()
	if *fProf != "" {
		pprof.StopCPUProfile()
	}
	os.Exit(code)
}

type replayFile struct {
	Property string   `json:"property"`
	Harness  string   `json:"harness"`
	Message  string   `json:"message"`
	Sig      string   `json:"signature"`
	Inputs   []uint64 `json:"inputs"`
	Labels   []string `json:"labels"`
	Observed []string `json:"observed"`
	Native   string   `json:"native_outcome"`
	How      string   `json:"how_to_replay"`
}

type knownFile struct {
	Findings []struct {
		Property  string `json:"property"`
		Signature string `json:"signature"`
		What      string `json:"what"`
	} `json:"findings"`
	Fixed []string `json:"fixed"`
}

func fatal(format string, a ...any) int {
	fmt.Printf("ERROR: "+format+"\n", a...)
	return 2
}

func run() int {
	t0 := time.Now()
	debugDump = *fDump
	keepGoing = *fKeep
	forkProfile = *fForks
	work, err := os.MkdirTemp("", "gosym")
	if err != nil {
		return fatal("%v", err)
	}
	defer os.RemoveAll(work)

	var cfgs map[string]checkCfg
	if data, err := os.ReadFile(filepath.Join(*fVerif, "checks.json")); err == nil {
		if err := json.Unmarshal(data, &cfgs); err != nil {
			return fatal("checks.json: %v", err)
		}
	}
	var kf knownFile
	if data, err := os.ReadFile(filepath.Join(*fVerif, "known-findings.json")); err == nil {
		if err := json.Unmarshal(data, &kf); err != nil {
			return fatal("known-findings.json: %v", err)
		}
	}

	if *fReplay != "" {
		return replayMain(work)
	}

	cfg, ok := cfgs[*fProp]
	if *fHarness != "" {
		cfg.Harnesses = nil
		for _, h := range strings.Split(*fHarness, ",") {
			hc := harnessCfg{Name: h}
			for _, c := range cfgs {
				for _, x := range c.Harnesses {
					if x.Name == h {
						hc = x
					}
				}
			}
			cfg.Harnesses = append(cfg.Harnesses, hc)
		}
	} else if !ok {
		return fatal("no configuration for property %s", *fProp)
	}
	budget := cfg.QuickS
	if budget == 0 {
		budget = 60
	}
	if *fTier == "thorough" {
		budget = cfg.ThoroughS
		if budget == 0 {
			budget = 600
		}
	}
	if *fBudget > 0 {
		budget = *fBudget
	}
	var hcs []harnessCfg
	pkgSet := map[string]bool{}
	var pkgs []string
	for _, h := range cfg.Harnesses {
		if h.Tier == "thorough" && *fTier != "thorough" && *fHarness == "" {
			continue
		}
		if h.Weight == 0 {
			h.Weight = 1
		}
		hcs = append(hcs, h)
		p := h.Name[:strings.LastIndex(h.Name, ".")]
		if !pkgSet[p] {
			pkgSet[p] = true
			pkgs = append(pkgs, p)
		}
	}
	known := map[string]string{}
	for _, k := range kf.Findings {
		if k.Property == *fProp || *fHarness != "" {
			known[k.Signature] = k.What
		}
	}
	if keepGoing {
		known = map[string]string{}
	}

	b, err := NewBuild(*fRepo, *fVerif, work, pkgs)
	if err != nil {
		return fatal("%v", err)
	}
	prog, hs, err := b.Load()
	if err != nil {
		return fatal("%v", err)
	}
	loadS := time.Since(t0).Seconds()
	nat := &Native{b: b, hs: hs}
	go nat.ready()

	nw := *fWorkers
	if nw == 0 {
		nw = runtime.NumCPU()
		if nw > 8 {
			nw = 8
		}
	}
	var ms []*Machine
	for i := 0; i < nw; i++ {
		ms = append(ms, newMachine(i, *fSolver))
	}
	defer func() {
		for _, m := range ms {
			m.sol.Close()
		}
	}()
	cache := NewQueryCache()
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = n
		}
	}
	var exs []*Explorer
	var violated *replayFile
	var violFile string
	for _, h := range hcs {
		h := h
		f := hs[h.Name]
		if f == nil {
			return fatal("no harness %s", h.Name)
		}
		ex := newExplorer(prog, cache, h.Name, prog.fn(f), known, seed)
		ex.stepLimit = *fSteps
		ex.onViol = func(r pathResult) bool {
			rf, file, ok := confirm(nat, *fVerif, *fProp, h.Name, r)
			if ok {
				violated, violFile = rf, file
			}
			return ok
		}
		exs = append(exs, ex)
	}
	deadline := time.Now().Add(time.Duration(budget) * time.Second)
	todo := append([]*Explorer(nil), exs...)
	weights := map[*Explorer]float64{}
	for i, ex := range exs {
		weights[ex] = hcs[i].Weight
	}
	for round := 0; round < 3 && len(todo) > 0 && violated == nil; round++ {
		var rest []*Explorer
		for i, ex := range todo {
			tot := 0.0
			for _, e := range todo[i:] {
				tot += weights[e]
			}
			left := time.Until(deadline)
			if left < 200*time.Millisecond && round > 0 {
				rest = append(rest, ex)
				continue
			}
			ex.explore(ms, time.Now().Add(time.Duration(float64(left)*weights[ex]/tot)))
			if violated != nil {
				break
			}
			if ex.timedOut {
				rest = append(rest, ex)
			}
		}
		todo = rest
		if time.Until(deadline) < time.Second {
			break
		}
	}

	// known findings: confirm natively
	code := 0
	knownLines := map[string]bool{}
	for _, ex := range exs {
		var sigs []string
		for s := range ex.knownHit {
			sigs = append(sigs, s)
		}
		sort.Strings(sigs)
		for _, s := range sigs {
			r := ex.knownHit[s]
			out := "?"
			rs, err := nat.run([]njob{{ex.name, r.replayInputs(), 200}}, 60*time.Second)
			if err == nil {
				out = rs[0].Kind
			}
			if out == "violation" || out == "crash" {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", *fProp, known[s])
				knownLines[s] = true
			} else {
				fmt.Printf("NOTE: listed finding %q did not reproduce natively (%s)\n", s, out)
			}
		}
	}
	// fallback: paths the engine could not finish are run concretely
	var fbRuns, fbViol int
	sampled, agreed := 0, 0
	var mism []string
	if violated == nil && !keepGoing {
		for _, ex := range exs {
			var jobs []njob
			for _, r := range ex.fallback {
				jobs = append(jobs, njob{ex.name, r.replayInputs(), 1})
			}
			if len(jobs) > 0 {
				rs, err := nat.run(jobs, 60*time.Second)
				if err == nil {
					for i, x := range rs {
						fbRuns++
						if x.Kind == "violation" && x.Msg != "" && !knownMsg(known, ex.name, x.Msg) {
							fbViol++
							if violated == nil {
								r := ex.fallback[i]
								r.msg = x.Msg
								rf, file, ok := confirm(nat, *fVerif, *fProp, ex.name, r)
								if ok {
									violated, violFile = rf, file
								}
							}
						}
					}
				}
			}
			// sampled completed paths: native run must agree
			jobs = nil
			for _, r := range ex.samples {
				jobs = append(jobs, njob{ex.name, r.replayInputs(), 1})
			}
			if len(jobs) > 0 {
				rs, err := nat.run(jobs, 120*time.Second)
				if err != nil {
					mism = append(mism, err.Error())
					continue
				}
				for i, x := range rs {
					sampled++
					r := ex.samples[i]
					same := x.Kind == "ok" && len(x.Obs) == len(r.obs)
					if same && !x.N {
						for k := range x.Obs {
							if x.Obs[k] != r.obs[k] {
								same = false
							}
						}
					}
					if same {
						agreed++
					} else {
						d := fmt.Sprintf("%s inputs=%v native=%s %s", ex.name, r.replayInputs(), x.Kind, x.Msg)
						for k := range r.obs {
							if k < len(x.Obs) && x.Obs[k] != r.obs[k] {
								d += fmt.Sprintf("\n  obs %d engine %q\n        native %q", k, r.obs[k], x.Obs[k])
							}
						}
						mism = append(mism, d)
					}
				}
			}
		}
	}

	// report
	var paths, okp, assumed, steps, asserts, decisions, timed int64
	vac := []string{}
	for i, ex := range exs {
		paths += ex.paths
		okp += ex.okPaths
		assumed += ex.assumed
		steps += ex.steps
		asserts += ex.asserts
		decisions += ex.decisions
		st := "exhausted"
		if ex.timedOut || len(ex.queue) > 0 {
			st = fmt.Sprintf("time budget reached (%d states left)", len(ex.queue))
			timed++
		}
		fmt.Printf("harness %s: %d paths (%d ok, %d assumed away), %d asserts, %.1fs, %s\n", ex.name, ex.paths, ex.okPaths, ex.assumed, ex.asserts, ex.elapsed.Seconds(), st)
		for _, s := range topN(ex.unsup, 8) {
			fmt.Println("  incomplete:", s)
		}
		for _, s := range topN(ex.incompl, 5) {
			fmt.Println("  incomplete:", s)
		}
		for p, s := range ex.initNotes {
			fmt.Println("  init:", p, s)
		}
		for _, s := range ex.spurious {
			fmt.Println("  not reproduced natively:", s)
		}
		if forkProfile {
			for _, s := range topN(ex.forks, 25) {
				fmt.Println("  fork:", s)
			}
		}
		for _, c := range hcs[i].Covers {
			if ex.covers[c] == 0 && violated == nil {
				vac = append(vac, ex.name+":"+c)
			}
		}
		if debugDump || *fHarness != "" {
			fmt.Println("  covers:", ex.covers)
		}
		if keepGoing {
			seen := map[string]int{}
			for _, r := range ex.violations {
				seen[r.sig]++
				if seen[r.sig] <= 1 {
					out := "?"
					rs, err := nat.run([]njob{{ex.name, r.replayInputs(), 200}}, 60*time.Second)
					if err == nil {
						out = rs[0].Kind + " " + rs[0].Msg
					} else {
						out = err.Error()
					}
					fmt.Printf("  VIOL %s\n    where %s\n    obs %q\n    native %s\n    inputs %v\n", r.sig, r.where, r.obs, out, r.replayInputs())
				}
			}
			for s, n := range seen {
				fmt.Printf("  %6d %s\n", n, s)
			}
		}
	}
	for _, s := range vac {
		fmt.Println("VACUITY: reachability witness not hit:", s)
	}
	for i, s := range mism {
		if i < 5 {
			fmt.Println("NOTE: engine/native disagreement:", s)
		}
	}
	wall := time.Since(t0).Seconds()
	fmt.Printf("%s %s: %d paths, %d steps, %d decisions, %d asserts, queries %d (cached %d, sat %d, unsat %d, unknown %d), solver %.1fs, native samples %d/%d agree, load %.1fs, native build %.1fs, wall %.1fs\n",
		*fProp, *fTier, paths, steps, decisions, asserts, stats.queries, stats.cached, stats.sat, stats.unsat, stats.unknown, float64(atomic.LoadInt64(&stats.nanos))/1e9, agreed, sampled, loadS, nat.took.Seconds(), wall)

	nviol := 0
	if violated != nil {
		nviol = 1
	}
	if *fHarness == "" && *fProp != "" {
		writeEvidence(cfg, hcs, exs, prog, seed, wall, nviol, sampled, agreed, mism, vac, fbRuns, knownLines)
	}
	if violated != nil {
		fmt.Printf("violated: %s (harness %s)\n", violated.Message, violated.Harness)
		for _, o := range violated.Observed {
			fmt.Printf("  observed: %s\n", o)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", *fProp, violFile)
		code = 1
	}
	return code
}

func knownMsg(known map[string]string, h, msg string) bool {
	for s := range known {
		if strings.HasPrefix(s, h+"|") && strings.HasSuffix(s, "|"+msg) {
			return true
		}
	}
	return false
}

func confirm(nat *Native, verif, prop, h string, r pathResult) (*replayFile, string, bool) {
	in := r.replayInputs()
	rs, err := nat.run([]njob{{h, in, 300}}, 120*time.Second)
	if err != nil {
		fmt.Println("NOTE: cannot replay:", err)
		return nil, "", false
	}
	x := rs[0]
	if x.Kind != "violation" && x.Kind != "crash" {
		fmt.Printf("NOTE: counterexample not reproduced natively: %s (%s %s) inputs %v\n", r.msg, x.Kind, x.Msg, in)
		return nil, "", false
	}
	dir := filepath.Join(verif, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	file := filepath.Join(dir, prop+".json")
	obs := x.Obs
	if len(obs) == 0 {
		obs = r.obs
	}
	rf := &replayFile{Property: prop, Harness: h, Message: r.msg, Sig: r.sig, Inputs: in, Labels: r.labels, Observed: obs, Native: x.Kind + ": " + x.Msg,
		How: "bash /verif/check.sh --replay " + file}
	js, _ := json.MarshalIndent(rf, "", " ")
	os.WriteFile(file, js, 0o644)
	return rf, file, true
}

func replayMain(work string) int {
	data, err := os.ReadFile(*fReplay)
	if err != nil {
		return fatal("%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(data, &rf); err != nil {
		return fatal("%v", err)
	}
	p := rf.Harness[:strings.LastIndex(rf.Harness, ".")]
	b, err := NewBuild(*fRepo, *fVerif, work, []string{p})
	if err != nil {
		return fatal("%v", err)
	}
	b.funcs[p] = map[string]bool{rf.Harness[strings.LastIndex(rf.Harness, ".")+1:]: true}
	nat := &Native{b: b}
	rs, err := nat.run([]njob{{rf.Harness, rf.Inputs, 300}}, 120*time.Second)
	if err != nil {
		return fatal("%v", err)
	}
	for _, o := range rs[0].Obs {
		fmt.Println("observed:", o)
	}
	fmt.Println("native outcome:", rs[0].Kind, rs[0].Msg)
	if rs[0].Kind == "violation" || rs[0].Kind == "crash" {
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, *fReplay)
		return 1
	}
	return 0
}

func writeEvidence(cfg checkCfg, hcs []harnessCfg, exs []*Explorer, prog *Program, seed int64, wall float64, nviol, sampled, agreed int, mism, vac []string, fbRuns int, knownLines map[string]bool) {
	var fns []string
	prog.mu.Lock()
	for _, f := range prog.fns {
		if f.inRepo && atomic.LoadInt32(&f.hit) != 0 {
			fns = append(fns, strings.ReplaceAll(f.name, modPath, "sqldef"))
		}
	}
	prog.mu.Unlock()
	sort.Strings(fns)
	var paths, decisions, asserts, okp int64
	exhaustive := true
	var hl []map[string]any
	samples := []any{}
	bounds := []string{}
	for i, ex := range exs {
		paths += ex.paths
		okp += ex.okPaths
		decisions += ex.decisions
		asserts += ex.asserts
		ex2 := !ex.timedOut && len(ex.queue) == 0 && len(ex.unsup) == 0 && len(ex.incompl) == 0
		exhaustive = exhaustive && ex2
		hl = append(hl, map[string]any{
			"harness": ex.name, "bounds": hcs[i].Bounds, "paths": ex.paths, "paths_ok": ex.okPaths, "paths_assumed_away": ex.assumed,
			"assertions": ex.asserts, "path_space_exhausted": ex2, "states_left": len(ex.queue),
			"incomplete": append(topN(ex.unsup, 10), topN(ex.incompl, 5)...), "witnesses_hit": ex.covers, "seconds": ex.elapsed.Seconds(),
			"counterexamples_not_reproduced": ex.spurious,
		})
		bounds = append(bounds, ex.name+": "+hcs[i].Bounds)
		for k, r := range ex.samples {
			if k < 2 {
				obs := r.obs
				if len(obs) > 4 {
					obs = obs[:4]
				}
				samples = append(samples, map[string]any{"harness": ex.name, "inputs": r.replayInputs(), "observed": obs})
			}
		}
	}
	lvl := cfg.Level
	if lvl == "" {
		lvl = "model_checking"
	}
	var kl []string
	for k := range knownLines {
		kl = append(kl, k)
	}
	sort.Strings(kl)
	if mism == nil {
		mism = []string{}
	}
	ev := map[string]any{
		"property": *fProp, "tier": *fTier, "seed": seed, "level": lvl, "wall_s": wall, "violations": nviol,
		"assumptions": append([]string{"bounds as listed per harness; nothing is claimed outside them"}, cfg.Assumptions...),
		"coverage": map[string]any{
			"states": paths, "transitions": decisions, "traces_validated_against_impl": agreed, "samples": samples,
			"explanation":               "Symbolic execution of the Go SSA of /repo's working tree (re-read on this run). states = symbolic paths executed, transitions = branch decisions taken on them; every branch on symbolic data and every assertion is decided by z3 over all input values within the bounds.",
			"exhaustive":                exhaustive,
			"harnesses":                 hl,
			"functions_encoded":         fns,
			"functions_encoded_n":       len(fns),
			"assertions_discharged":     asserts,
			"solver":                    solverVersion(),
			"solver_queries":            atomic.LoadInt64(&stats.queries),
			"solver_queries_cached":     atomic.LoadInt64(&stats.cached),
			"solver_sat":                atomic.LoadInt64(&stats.sat),
			"solver_unsat":              atomic.LoadInt64(&stats.unsat),
			"solver_unknown":            atomic.LoadInt64(&stats.unknown),
			"solver_seconds":            float64(atomic.LoadInt64(&stats.nanos)) / 1e9,
			"native_samples":            sampled,
			"native_disagreements":      mism,
			"unfinished_paths_replayed": fbRuns,
			"witnesses_missed":          vac,
			"known_findings_seen":       kl,
		},
	}
	js, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*fVerif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(*fVerif, "evidence", *fProp+".json"), append(js, '\n'), 0o644)
}

func solverVersion() string {
	out, _ := exec.Command(*fSolver, "--version").Output()
	return strings.TrimSpace(string(out))
}
