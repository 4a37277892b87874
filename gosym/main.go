package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// HarnessCfg is one entry function of a check.
type HarnessCfg struct {
	Pkg      string `json:"pkg"`
	Fn       string `json:"fn"`
	What     string `json:"what"`
	Quick    int    `json:"quick_s"`
	Thorough int    `json:"thorough_s"`
	OnlyFull bool   `json:"thorough_only"`
	Bounds   string `json:"bounds"`
	MaxSteps int64  `json:"max_steps"`
	Depth    int    `json:"depth"`
	Order    bool   `json:"map_order"`
}

type CheckCfg struct {
	ID        string       `json:"id"`
	Harnesses []HarnessCfg `json:"harnesses"`
	Outside   []string     `json:"outside"`
}

type nativeCase struct {
	Harness string            `json:"harness"`
	Inputs  map[string]uint64 `json:"inputs"`
	Choices []uint64          `json:"choices"`
	Tier    int               `json:"tier"`
	Sched   []int             `json:"sched,omitempty"`
}

type nativeResult struct {
	Violated string   `json:"violated"`
	Detail   string   `json:"detail"`
	Assume   bool     `json:"assume_failed"`
	Diverged string   `json:"diverged"`
	Observe  []string `json:"observe"`
}

type replayFile struct {
	Property string     `json:"property"`
	Pkg      string     `json:"pkg"`
	Assert   string     `json:"assertion"`
	Detail   string     `json:"detail"`
	Where    string     `json:"where"`
	Case     nativeCase `json:"case"`
}

// runNative runs cases in one process; results stop early when the process dies.
func runNative(bin string, cs []nativeCase, timeout time.Duration) ([]nativeResult, string) {
	js, _ := json.Marshal(cs)
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin)
	cmd.Stdin = bytes.NewReader(js)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err := cmd.Run()
	var rs []nativeResult
	for _, l := range strings.Split(out.String(), "\n") {
		if strings.TrimSpace(l) == "" {
			continue
		}
		var r nativeResult
		if json.Unmarshal([]byte(l), &r) == nil {
			rs = append(rs, r)
		}
	}
	if ctx.Err() != nil {
		return rs, "timeout"
	}
	if err != nil {
		s := errb.String()
		if i := strings.Index(s, "\n\n"); i > 0 {
			s = s[:i]
		}
		if len(s) > 400 {
			s = s[:400]
		}
		return rs, "died: " + s
	}
	return rs, ""
}

// runEach runs every case in a process of its own, so that none sees the globals another left.
func runEach(bin string, cs []nativeCase, timeout time.Duration) ([]nativeResult, string) {
	rs := make([]nativeResult, len(cs))
	whys := make([]string, len(cs))
	sem := make(chan bool, 6)
	var wg sync.WaitGroup
	for i := range cs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			r, why := runNative(bin, cs[i:i+1], timeout)
			whys[i] = why
			if len(r) == 1 {
				rs[i] = r[0]
			} else {
				rs[i].Diverged = "no result"
			}
		}()
	}
	wg.Wait()
	for _, w := range whys {
		if w != "" {
			return rs, w
		}
	}
	return rs, ""
}

// confirm replays a violation; it returns the assertion that fails concretely.
func confirm(bin string, v Violation, tier int, order bool) (string, string) {
	c := nativeCase{v.Harness, v.Inputs, v.Choices, tier, v.Sched}
	n := 1
	if order {
		n = 300
	}
	cs := make([]nativeCase, n)
	for i := range cs {
		cs[i] = c
	}
	to := 20 * time.Second
	rs, why := runNative(bin, cs, to)
	for _, r := range rs {
		if r.Violated != "" {
			return r.Violated, r.Detail
		}
	}
	if why == "timeout" {
		return "termination", "the real code does not finish within " + to.String()
	}
	if why != "" && (strings.Contains(why, "stack overflow") || strings.Contains(why, "stack exceeds") || strings.Contains(why, "fatal error") || strings.Contains(why, "out of memory") || strings.Contains(why, "panic")) {
		return "no-panic", why
	}
	if len(rs) > 0 {
		r := rs[0]
		return "", fmt.Sprintf("not reproduced (assume=%v diverged=%q %s)", r.Assume, r.Diverged, why)
	}
	return "", "not reproduced: " + why
}

type known struct{ prop, harness, assert, text string }

func readKnown() []known {
	b, _ := os.ReadFile(filepath.Join(verDir, "known_findings.txt"))
	var r []known
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "known: ")
		if !ok {
			continue
		}
		k := known{}
		fs := strings.Fields(rest)
		i := 0
		for ; i < len(fs); i++ {
			if v, ok := strings.CutPrefix(fs[i], "property="); ok {
				k.prop = v
			} else if v, ok := strings.CutPrefix(fs[i], "harness="); ok {
				k.harness = v
			} else if v, ok := strings.CutPrefix(fs[i], "assertion="); ok {
				k.assert = v
			} else {
				break
			}
		}
		k.text = strings.Join(fs[i:], " ")
		r = append(r, k)
	}
	return r
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym check|run|replay ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "run":
		os.Exit(cmdRun(os.Args[2:]))
	case "selftest":
		os.Exit(cmdSelftest(os.Args[2:]))
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	}
	fmt.Fprintln(os.Stderr, "unknown command")
	os.Exit(2)
}

func mkCfg(h HarnessCfg, tier int, budget time.Duration, seed int64) *Config {
	c := &Config{Workers: runtime.NumCPU(), MaxSteps: 4_000_000, MaxDepth: 400, Timeout: budget, QTimeout: 3 * time.Second,
		MaxSamples: 24, Seed: seed, RepoPrefix: repoMod, Tier: tier}
	if c.Workers > 8 {
		c.Workers = 8
	}
	if tier > 0 {
		c.QTimeout = 15 * time.Second
		c.MaxSamples = 100
	}
	if h.MaxSteps > 0 {
		c.MaxSteps = h.MaxSteps
	}
	if h.Depth > 0 {
		c.MaxDepth = h.Depth
	}
	return c
}

func cmdReplay(args []string) int {
	if len(args) < 1 {
		return 2
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Println(err)
		return 2
	}
	ov, err := overlay([]string{rf.Pkg})
	if err != nil {
		fmt.Println(err)
		return 2
	}
	l, err := load(ov, []string{rf.Pkg})
	if err != nil {
		fmt.Println(err)
		return 2
	}
	tmp, _ := os.MkdirTemp("", "gosym")
	defer os.RemoveAll(tmp)
	bin, err := buildReplay(ov, rf.Pkg, l.names[rf.Pkg], tmp)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	id, d := confirm(bin, Violation{Harness: rf.Case.Harness, Inputs: rf.Case.Inputs, Choices: rf.Case.Choices, Sched: rf.Case.Sched}, rf.Case.Tier, true)
	if id != "" {
		fmt.Printf("VIOLATION property=%s replay=%s\n  %s: assertion %q fails on the real code: %s\n", rf.Property, args[0], rf.Case.Harness, id, d)
		return 1
	}
	fmt.Println("the real code no longer fails on this input:", d)
	return 0
}

type harnessReport struct {
	Harness    string            `json:"harness"`
	What       string            `json:"what,omitempty"`
	Bounds     string            `json:"bounds,omitempty"`
	Exhausted  bool              `json:"all_paths_within_bounds_explored"`
	Left       int               `json:"unexplored_branch_sides,omitempty"`
	Paths      int64             `json:"paths"`
	Complete   int64             `json:"complete_paths"`
	AssumeCut  int64             `json:"paths_cut_by_assumption"`
	Unsup      map[string]int    `json:"paths_outside_the_encoder,omitempty"`
	StepCut    int64             `json:"paths_cut_by_step_limit,omitempty"`
	Branches   int64             `json:"symbolic_branches"`
	Instrs     int64             `json:"ssa_instructions_executed"`
	Asserts    map[string]string `json:"assertions"`
	Reach      map[string]int64  `json:"reached"`
	Queries    int64             `json:"solver_queries"`
	Unknown    int64             `json:"solver_unknown,omitempty"`
	SolverSec  float64           `json:"solver_s"`
	MaxQuery   float64           `json:"slowest_query_s"`
	WallSec    float64           `json:"wall_s"`
	Validated  int64             `json:"sampled_paths_replayed_on_real_build"`
	Mismatch   []string          `json:"replay_mismatches,omitempty"`
	Unconfirm  []string          `json:"solver_counterexamples_not_reproduced,omitempty"`
	Limits     map[string]string `json:"limits,omitempty"`
	Violations int               `json:"violations,omitempty"`
	Known      int               `json:"known_findings,omitempty"`
	NotRun     string            `json:"not_run,omitempty"`
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	id := fs.String("id", "", "property")
	tier := fs.String("tier", envOr("VERIF_TIER", "quick"), "tier")
	only := fs.String("only", "", "only this harness")
	scale := fs.Float64("scale", 1, "time budget factor")
	fs.Parse(args)
	seed, _ := strconv.ParseInt(envOr("VERIF_SEED", "1"), 10, 64)
	start := time.Now()
	var cc []CheckCfg
	b, err := os.ReadFile(filepath.Join(verDir, "checks.json"))
	if err == nil {
		err = json.Unmarshal(b, &cc)
	}
	if err != nil {
		fmt.Println("checks.json:", err)
		return 2
	}
	var ck *CheckCfg
	for i := range cc {
		if cc[i].ID == *id {
			ck = &cc[i]
		}
	}
	if ck == nil {
		fmt.Println("unknown property", *id)
		return 2
	}
	tn := 0
	if *tier == "thorough" {
		tn = 1
	}
	var hs []HarnessCfg
	pk := map[string]bool{}
	for _, h := range ck.Harnesses {
		if tn == 0 && h.OnlyFull || *only != "" && h.Fn != *only {
			continue
		}
		hs = append(hs, h)
		pk[h.Pkg] = true
	}
	ov, err := overlay(sortedKeys(pk))
	if err != nil {
		fmt.Println(err)
		return 2
	}
	l, err := load(ov, sortedKeys(pk))
	if err != nil {
		fmt.Println("cannot load /repo:", err)
		return 2
	}
	if len(l.pkgs) == 0 {
		fmt.Println("no harness of this check can be built against the current /repo:", l.errs)
		return 2
	}
	tmp, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(tmp)
	bins := map[string]chan string{}
	var binErr sync.Map
	for p := range l.pkgs {
		ch := make(chan string, 1)
		bins[p] = ch
		go func(p string) {
			bin, err := buildReplay(ov, p, l.names[p], tmp)
			if err != nil {
				binErr.Store(p, err.Error())
			}
			ch <- bin
		}(p)
	}
	getBin := func(p string) string {
		b := <-bins[p]
		bins[p] <- b
		return b
	}
	kf := readKnown()
	var reps []harnessReport
	var samples []any
	funcs := map[string]bool{}
	viol, printedKnown := 0, map[string]bool{}
	var states, trans, traces, asserts int64
	exhaustive := true
	for hi, h := range hs {
		rep := harnessReport{Harness: h.Pkg + "." + h.Fn, What: h.What, Bounds: h.Bounds}
		sp := l.pkgs[h.Pkg]
		if sp == nil || sp.Func(h.Fn) == nil {
			rep.NotRun = "harness package does not build against the current tree: " + l.errs[h.Pkg]
			reps = append(reps, rep)
			exhaustive = false
			continue
		}
		secs := h.Quick
		if tn > 0 {
			secs = h.Thorough
			if secs == 0 {
				secs = h.Quick * 8
			}
		}
		if secs == 0 {
			secs = 20
		}
		ex := NewExplorer(l.prog, sp.Func(h.Fn), h.Fn, mkCfg(h, tn, time.Duration(float64(secs)*float64(time.Second)**scale), seed))
		t0 := time.Now()
		ex.Run()
		rep.WallSec = time.Since(t0).Seconds()
		fillReport(&rep, ex)
		if !rep.Exhausted {
			exhaustive = false
		}
		for f := range ex.funcs {
			funcs[f] = true
		}
		states += rep.Paths
		trans += rep.Branches
		for _, s := range ex.asserts {
			asserts += s.Checked
		}
		bin := getBin(h.Pkg)
		if bin == "" {
			e, _ := binErr.Load(h.Pkg)
			rep.Limits["replay-build"] = fmt.Sprint(e)
		}
		// violations
		cand := append([]Violation{}, ex.viol...)
		cand = append(cand, ex.stuck...)
		for _, v := range cand {
			if bin == "" {
				rep.Unconfirm = append(rep.Unconfirm, v.ID+": "+v.Msg+" (no replay build)")
				continue
			}
			aid, detail := confirm(bin, v, tn, h.Order)
			if aid == "" {
				if v.ID != "termination" {
					rep.Unconfirm = append(rep.Unconfirm, v.ID+": "+v.Msg+": "+detail+" inputs="+short(v.Inputs))
				}
				continue
			}
			var kn *known
			for i := range kf {
				if kf[i].prop == *id && kf[i].assert == aid && (kf[i].harness == "" || kf[i].harness == h.Fn) {
					kn = &kf[i]
				}
			}
			if kn != nil {
				rep.Known++
				key := kn.harness + kn.assert
				if !printedKnown[key] {
					printedKnown[key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", *id, kn.text)
				}
				continue
			}
			viol++
			rep.Violations++
			rf := replayFile{*id, h.Pkg, aid, detail, v.Where, nativeCase{h.Fn, v.Inputs, v.Choices, tn, v.Sched}}
			js, _ := json.MarshalIndent(rf, "", " ")
			os.MkdirAll(filepath.Join(verDir, "replays"), 0o755)
			fn := filepath.Join(verDir, "replays", fmt.Sprintf("%s-%s-%d.json", *id, h.Fn, viol))
			os.WriteFile(fn, js, 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", *id, fn)
			fmt.Printf("  %s: assertion %q fails (%s) %s\n  inputs: %s choices: %v\n", h.Fn, aid, v.Msg, detail, short(v.Inputs), v.Choices)
			if viol >= 3 {
				break
			}
		}
		// sampled paths on the real build
		if bin != "" && len(ex.samples) > 0 && rep.Violations == 0 {
			validate(bin, ex.samples, h.Fn, tn, &rep)
			traces += rep.Validated
		}
		for i, s := range ex.samples {
			if i < 2 {
				samples = append(samples, map[string]any{"harness": h.Fn, "inputs": trimInputs(s.Inputs), "choices": s.Choices, "observed": trimObs(s.Observe)})
			}
		}
		reps = append(reps, rep)
		if viol >= 3 {
			exhaustive = false
			for _, r := range hs[hi+1:] {
				reps = append(reps, harnessReport{Harness: r.Pkg + "." + r.Fn, NotRun: "stopped after violations"})
			}
			break
		}
	}
	var repoF []string
	lib := 0
	for f := range funcs {
		if strings.Contains(f, repoMod) && !strings.Contains(f, "/zzverif/sym") {
			repoF = append(repoF, strings.ReplaceAll(f, repoMod+"/internal/", ""))
		} else {
			lib++
		}
	}
	sort.Strings(repoF)
	if samples == nil {
		samples = []any{}
	}
	ev := map[string]any{
		"property": *id, "tier": *tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": traces, "samples": samples,
			"exhaustive": exhaustive, "assertion_checks": asserts,
			"functions_encoded": repoF, "library_functions_encoded": lib, "harnesses": reps,
			"explanation": "states = symbolic paths of the real code explored (each stands for all inputs satisfying its path condition); transitions = symbolic branch decisions; every assertion on every path is decided by the solver over all inputs of the path",
			"load_s":      l.took.Seconds(),
		},
		"assumptions": append([]string{
			"the SSA interpreter and its library models (see DESIGN.md) represent Go semantics; sampled paths are replayed on the real build to check this",
			"z3 (and the fallback solvers) answer correctly",
		}, ck.Outside...),
		"wall_s": time.Since(start).Seconds(), "violations": viol,
	}
	js, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verDir, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verDir, "evidence", *id+".json"), append(js, '\n'), 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	for _, r := range reps {
		fmt.Printf("%s: paths=%d complete=%d branches=%d queries=%d asserts=%v exhausted=%v wall=%.1fs validated=%d", r.Harness, r.Paths, r.Complete, r.Branches, r.Queries, len(r.Asserts), r.Exhausted, r.WallSec, r.Validated)
		if len(r.Unsup) > 0 {
			fmt.Printf(" unsupported=%v", r.Unsup)
		}
		if len(r.Mismatch) > 0 {
			fmt.Printf(" MISMATCH=%v", r.Mismatch)
		}
		if len(r.Unconfirm) > 0 {
			fmt.Printf(" UNCONFIRMED=%v", r.Unconfirm)
		}
		if r.NotRun != "" {
			fmt.Printf(" NOTRUN=%s", r.NotRun)
		}
		fmt.Println()
	}
	if viol > 0 {
		return 1
	}
	ran := false
	for _, r := range reps {
		if r.Complete > 0 {
			ran = true
		}
	}
	if !ran {
		fmt.Println("nothing could be explored")
		return 2
	}
	fmt.Printf("%s held on everything explored (%.1fs)\n", *id, time.Since(start).Seconds())
	return 0
}

func short(m map[string]uint64) string {
	s := []string{}
	for _, k := range sortedKeys(m) {
		s = append(s, fmt.Sprintf("%s=%d", strings.TrimPrefix(k, "in!"), m[k]))
		if len(s) > 60 {
			s = append(s, "...")
			break
		}
	}
	return strings.Join(s, " ")
}

func trimInputs(m map[string]uint64) map[string]uint64 {
	r := map[string]uint64{}
	for _, k := range sortedKeys(m) {
		if len(r) >= 40 {
			break
		}
		r[strings.TrimPrefix(k, "in!")] = m[k]
	}
	return r
}

func trimObs(o []string) []string {
	var r []string
	for i, s := range o {
		if i >= 8 {
			break
		}
		if len(s) > 300 {
			s = s[:300] + "..."
		}
		r = append(r, s)
	}
	return r
}

func fillReport(rep *harnessReport, ex *Explorer) {
	st := &ex.stats
	rep.Paths, rep.Complete, rep.AssumeCut, rep.StepCut = st.Paths, st.Complete, st.AssumeAborts, st.StepLimit
	rep.Branches, rep.Instrs = st.Branches, st.Instrs
	rep.Queries, rep.Unknown, rep.SolverSec, rep.MaxQuery = st.Queries, st.Unknown, st.SolverTime.Seconds(), st.MaxQuery.Seconds()
	rep.Unsup = ex.unsup
	rep.Limits = ex.limits
	rep.Left = ex.remaining
	rep.Exhausted = ex.remaining == 0 && st.Timeouts == 0 && st.Unsupported == 0 && st.StepLimit == 0 && st.Unknown == 0 && len(ex.viol) == 0
	rep.Reach = ex.reach
	rep.Asserts = map[string]string{}
	for k, s := range ex.asserts {
		rep.Asserts[k] = fmt.Sprintf("checked on %d paths: %d by the solver, %d by rewriting, %d undecided, %.2fs", s.Checked, s.Solver, s.Const, s.Unknown, float64(s.SolverNs)/1e9)
	}
}

func validate(bin string, ss []Sample, fn string, tier int, rep *harnessReport) {
	cs := make([]nativeCase, len(ss))
	for i, s := range ss {
		cs[i] = nativeCase{fn, s.Inputs, s.Choices, tier, s.Sched}
	}
	rs, why := runEach(bin, cs, 20*time.Second)
	if why != "" {
		rep.Mismatch = append(rep.Mismatch, "native run: "+why)
	}
	for i, r := range rs {
		ok := r.Violated == "" && !r.Assume && r.Diverged == "" && len(r.Observe) == len(ss[i].Observe)
		msg := fmt.Sprintf("violated=%q assume=%v diverged=%q", r.Violated, r.Assume, r.Diverged)
		if ok {
			for k := range r.Observe {
				if r.Observe[k] != ss[i].Observe[k] {
					ok = false
					msg = fmt.Sprintf("engine %q real %q", clip(ss[i].Observe[k]), clip(r.Observe[k]))
					break
				}
			}
		}
		if ok {
			rep.Validated++
		} else if len(rep.Mismatch) < 5 {
			rep.Mismatch = append(rep.Mismatch, msg+" inputs "+short(ss[i].Inputs))
		}
	}
}

func clip(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}

func cmdRun(args []string) int {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	h := fs.String("h", "", "pkg.Fn")
	tier := fs.Int("tier", 0, "")
	secs := fs.Int("t", 30, "seconds")
	verb := fs.Bool("v", false, "")
	workers := fs.Int("w", 0, "")
	prof := fs.String("prof", "", "")
	order := fs.Bool("order", false, "")
	steps := fs.Int64("steps", 0, "")
	depth := fs.Int("depth", 0, "")
	fs.Parse(args)
	pkg, fn, _ := strings.Cut(*h, ".")
	ov, err := overlay([]string{pkg})
	if err != nil {
		fmt.Println(err)
		return 2
	}
	l, err := load(ov, []string{pkg})
	if err != nil {
		fmt.Println(err)
		return 2
	}
	for k, e := range l.errs {
		fmt.Println("LOAD", k, e)
	}
	sp := l.pkgs[pkg]
	if sp == nil {
		return 2
	}
	fns := []string{fn}
	if fn == "" || strings.HasSuffix(fn, "*") {
		fns = nil
		for _, n := range l.names[pkg] {
			if strings.HasPrefix(n, strings.TrimSuffix(fn, "*")) {
				fns = append(fns, n)
			}
		}
	}
	tmp, _ := os.MkdirTemp("", "gosym")
	defer os.RemoveAll(tmp)
	bin, err := buildReplay(ov, pkg, l.names[pkg], tmp)
	if err != nil {
		fmt.Println("REPLAY BUILD", err)
	}
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	for _, fn := range fns {
		cfg := mkCfg(HarnessCfg{MaxSteps: *steps, Depth: *depth}, *tier, time.Duration(*secs)*time.Second, 1)
		cfg.Verbose = *verb
		if *workers > 0 {
			cfg.Workers = *workers
		}
		if sp.Func(fn) == nil {
			fmt.Println("no", fn)
			return 2
		}
		ex := NewExplorer(l.prog, sp.Func(fn), fn, cfg)
		t0 := time.Now()
		ex.Run()
		rep := harnessReport{Harness: fn}
		fillReport(&rep, ex)
		rep.WallSec = time.Since(t0).Seconds()
		for _, v := range append(append([]Violation{}, ex.viol...), ex.stuck...) {
			fmt.Printf("CEX %s: %s\n  inputs %s\n  choices %v\n  at %s\n", v.ID, v.Msg, short(v.Inputs), v.Choices, v.Where)
			if bin != "" {
				a, d := confirm(bin, v, *tier, *order)
				fmt.Printf("  native: %q %s\n", a, d)
			}
		}
		if bin != "" {
			validate(bin, ex.samples, fn, *tier, &rep)
		}
		js, _ := json.MarshalIndent(rep, "", " ")
		fmt.Println(string(js))
		if *verb {
			for _, s := range ex.samples {
				fmt.Println("SAMPLE", short(s.Inputs), s.Choices, s.Observe)
			}
		}
	}
	return 0
}
