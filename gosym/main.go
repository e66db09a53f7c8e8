package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type HarnessCfg struct {
	Pkg    string           `json:"pkg"`    // directory below /repo
	Fn     string           `json:"fn"`     // Verif... function
	Bounds string           `json:"bounds"` // what the harness quantifies over
	Quick  TierCfg          `json:"quick"`
	Thor   TierCfg          `json:"thorough"`
	Expect []string         `json:"expect"` // Reach tags that must be reached (vacuity guard)
	Tiers  string           `json:"tiers"`  // "thorough": only there
	Params map[string]int64 `json:"params"`
	Tries  int              `json:"tries"`  // native attempts to reproduce a counterexample
	NoWit  bool             `json:"no_witness"`
}

type TierCfg struct {
	Params   map[string]int64 `json:"params"`
	Time     int              `json:"time"`  // seconds
	Paths    int64            `json:"paths"`
	Steps    int64            `json:"steps"`
	Concret  int              `json:"concret"`
	SolverMS int              `json:"solver_ms"`
}

type CheckCfg struct {
	Level       string       `json:"level"`
	Technique   string       `json:"technique"`
	Note        string       `json:"note"`
	Assumptions []string     `json:"assumptions"`
	Harness     []HarnessCfg `json:"harness"`
}

type Finding struct {
	Property string `json:"property"`
	Match    string `json:"match"` // prefix of the violation message
	What     string `json:"what"`
	Status   string `json:"status"` // "known" or "fixed"
}

func loadChecks() map[string]*CheckCfg {
	b, err := os.ReadFile(filepath.Join(verifDir, "checks.json"))
	if err != nil {
		fatal(err)
	}
	m := map[string]*CheckCfg{}
	if err := json.Unmarshal(b, &m); err != nil {
		fatal(fmt.Errorf("checks.json: %v", err))
	}
	return m
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "gosym:", err)
	cleanUp()
	os.Exit(2)
}

func limitsOf(t TierCfg, workers int) Limits {
	l := Limits{MaxPaths: 2_000_000, MaxSteps: 40_000_000, MaxTime: 60 * time.Second, MaxViol: 200, Witnesses: 3, MaxConcret: 300, Workers: workers, SolverTO: 20 * time.Second}
	if t.Time > 0 {
		l.MaxTime = time.Duration(t.Time) * time.Second
	}
	if t.Paths > 0 {
		l.MaxPaths = t.Paths
	}
	if t.Steps > 0 {
		l.MaxSteps = t.Steps
	}
	if t.Concret > 0 {
		l.MaxConcret = t.Concret
	}
	if t.SolverMS > 0 {
		l.SolverTO = time.Duration(t.SolverMS) * time.Millisecond
	}
	return l
}

func main() {
	os.Setenv("PATH", goRoot+"/bin:"+os.Getenv("PATH")) // the Go release /repo is built with
	debug.SetGCPercent(300)
	if len(os.Args) < 2 {
		fatal(fmt.Errorf("usage: gosym check|run|replay|list ..."))
	}
	if p := os.Getenv("GOSYM_PROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if os.Getenv("GOSYM_STEPS") != "" {
		stepProf = &stepProfile{incl: map[string]int{}, self: map[string]int{}}
	}
	switch os.Args[1] {
	case "check":
		rc := cmdCheck(os.Args[2:])
		cleanUp()
		os.Exit(rc)
	case "run":
		cmdRun(os.Args[2:])
		cleanUp()
	case "replay":
		rc := cmdReplay(os.Args[2:])
		cleanUp()
		os.Exit(rc)
	case "list":
		c := loadChecks()
		var ks []string
		for k := range c {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Println(k)
		}
	default:
		fatal(fmt.Errorf("unknown command %s", os.Args[1]))
	}
}

type paramFlag map[string]int64

func (p paramFlag) String() string { return "" }
func (p paramFlag) Set(s string) error {
	k, v, ok := strings.Cut(s, "=")
	if !ok {
		return fmt.Errorf("k=v expected")
	}
	n, err := strconv.ParseInt(v, 10, 64)
	p[k] = n
	return err
}

// cmdRun explores harnesses during development.
func cmdRun(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	par := paramFlag{}
	fs.Var(par, "p", "harness parameter k=v")
	tm := fs.Int("t", 60, "seconds")
	wk := fs.Int("w", runtime.NumCPU(), "workers")
	nat := fs.Bool("n", false, "native replay of violations and witnesses")
	maxp := fs.Int64("paths", 2_000_000, "paths")
	fs.Parse(args)
	for _, a := range fs.Args() {
		dir, fn, _ := strings.Cut(a, ".")
		e, err := LoadEngine([]string{modPath + "/" + dir}, map[string]bool{dir: true})
		if err != nil {
			fatal(err)
		}
		fmt.Printf("loaded in %v\n", e.loadDur.Round(time.Millisecond))
		f := e.harness[modPath+"/"+dir+"."+fn]
		if f == nil {
			fatal(fmt.Errorf("no harness %s (have %v)", fn, e.harnessNames(modPath+"/"+dir)))
		}
		var n *Native
		if *nat {
			d, _ := os.MkdirTemp("", "zznat")
			defer os.RemoveAll(d)
			n = buildNative(d, map[string][]string{dir: {fn}})
		}
		j := &Job{eng: e, fn: f, name: a, params: par, limits: limitsOf(TierCfg{Time: *tm, Paths: *maxp}, *wk)}
		t0 := time.Now()
		j.Run()
		fmt.Printf("%s: %v paths=%d ok=%d ended=%d trunc=%q steps=%d asserts=%d discharged=%d violations=%d queries=%d solver=%v\n", a, time.Since(t0).Round(time.Millisecond), j.paths, j.ok, j.ended, j.trunc, j.steps, j.asserts, j.discharged, len(j.viol), gStats.Queries, time.Duration(gStats.Nanos).Round(time.Millisecond))
		fmt.Println("reach:", j.reach)
		for k, v := range j.inconc {
			fmt.Printf("inconclusive x%d: %s\n", v, k)
		}
		for _, v := range j.viol {
			fmt.Printf("VIOL %s\n  at %s\n", v.Msg, v.Stack)
			var ks []string
			for k := range v.Assign {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				s := v.Assign[k]
				if s == "0" && strings.Contains(k, ".") {
					continue
				}
				if len(s) > 24 {
					s = s[:24] + "..."
				}
				fmt.Printf("    %s=%s", k, s)
			}
			fmt.Println()
			if n != nil {
				r := n.Run(a, v.Assign, par)
				fmt.Printf("  native: viol=%q status=%q done=%v\n", r.Viol, r.Status, r.Done)
				if r.Viol == "" {
					fmt.Println(r.Out)
				}
			}
		}
		if n != nil {
			for _, w := range j.wit {
				r := n.Run(a, w.Assign, par)
				fmt.Printf("witness %s: native viol=%q status=%q done=%v diff=%q\n", w.Kind, r.Viol, r.Status, r.Done, witDiff(w, r))
				if os.Getenv("ZZ_OUT") != "" || r.Viol != "" || !r.Done {
					fmt.Println(r.Out)
				}
			}
		}
		if stepProf != nil {
			for _, m := range []map[string]int{stepProf.incl, stepProf.self} {
				var l []string
				for k := range m {
					l = append(l, k)
				}
				sort.Slice(l, func(i, j int) bool { return m[l[i]] > m[l[j]] })
				for i, k := range l {
					if i > 30 {
						break
					}
					fmt.Println(m[k]*997, k)
				}
				fmt.Println()
			}
		}
		if os.Getenv("GOSYM_FORKS") != "" {
			type kv struct {
				k string
				v int
			}
			var l []kv
			for k, v := range forkProf {
				l = append(l, kv{k, v})
			}
			sort.Slice(l, func(i, j int) bool { return l[i].v > l[j].v })
			for i, x := range l {
				if i > 25 {
					break
				}
				fmt.Println(x.v, x.k)
			}
		}
	}
}

// witDiff compares the engine's observations on one path with the native run on the same inputs.
func witDiff(w *Witness, r *NatRes) string {
	if r.Viol != "" {
		return "native violation " + r.Viol
	}
	if w.Kind == "ok" && !r.Done {
		return "native run did not finish: " + r.Status
	}
	cnt := map[string]int{}
	for _, o := range w.Obs {
		i := cnt[o.Name]
		cnt[o.Name]++
		if i >= len(r.Obs[o.Name]) || r.Obs[o.Name][i] != o.Val {
			got := "nothing"
			if i < len(r.Obs[o.Name]) {
				got = r.Obs[o.Name][i]
			}
			return fmt.Sprintf("observation %s: engine %s, native %s", o.Name, o.Val, got)
		}
	}
	for _, t := range w.Reach {
		if t[0] != '~' && !r.Reach[t] {
			return "native run did not reach " + t
		}
	}
	return ""
}

type ReplayFile struct {
	Property string            `json:"property"`
	Harness  string            `json:"harness"`
	Message  string            `json:"message"`
	Params   map[string]int64  `json:"params"`
	Assign   map[string]string `json:"assign"`
	Where    string            `json:"where,omitempty"`
	Output   string            `json:"native_output,omitempty"`
	Cmd      string            `json:"replay_cmd"`
}

func cmdReplay(args []string) int {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fatal(err)
	}
	var r ReplayFile
	if err := json.Unmarshal(b, &r); err != nil {
		fatal(err)
	}
	d, _ := os.MkdirTemp("", "zznat")
	defer os.RemoveAll(d)
	dir, fn, _ := strings.Cut(r.Harness, ".")
	n := buildNative(d, map[string][]string{dir: {fn}})
	for i := 0; i < 5; i++ {
		res := n.Run(r.Harness, r.Assign, r.Params)
		if res.Viol != "" || i == 4 {
			fmt.Println(res.Out)
			fmt.Printf("violation=%q status=%q\n", res.Viol, res.Status)
			if res.Viol != "" {
				return 1
			}
		}
	}
	return 0
}

func cmdCheck(args []string) int {
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	fs.StringVar(&tier, "tier", tier, "quick or thorough")
	keep := fs.Bool("v", false, "verbose")
	if len(args) < 1 {
		fatal(fmt.Errorf("property id expected"))
	}
	id := args[0]
	fs.Parse(args[1:])
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cfg := loadChecks()[id]
	if cfg == nil {
		fatal(fmt.Errorf("no check %s", id))
	}
	var findings []Finding
	if b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.json")); err == nil {
		if err := json.Unmarshal(b, &findings); err != nil {
			fatal(err)
		}
	}
	pk := map[string][]string{}
	only := map[string]bool{}
	var pats []string
	var hs []HarnessCfg
	for _, h := range cfg.Harness {
		if h.Tiers == "thorough" && tier != "thorough" {
			continue
		}
		hs = append(hs, h)
		if !only[h.Pkg] {
			only[h.Pkg] = true
			pats = append(pats, modPath+"/"+h.Pkg)
		}
		if !slices.Contains(pk[h.Pkg], h.Fn) {
			pk[h.Pkg] = append(pk[h.Pkg], h.Fn)
		}
	}
	work, err := os.MkdirTemp("", "gosym-"+id+"-")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(work)
	evDir := filepath.Join(verifDir, "evidence")
	repDir := filepath.Join(evDir, "replay")
	os.MkdirAll(repDir, 0755)
	evFile := filepath.Join(evDir, id+".json")
	os.Remove(evFile)
	old, _ := filepath.Glob(filepath.Join(repDir, id+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	nat := buildNative(work, pk)
	e, err := LoadEngine(pats, only)
	if err != nil {
		<-nat.done
		os.RemoveAll(work)
		fatal(err)
	}
	var missing []string
	if len(droppedFiles) > 0 {
		// some harness files do not compile against this tree: go on with the others
		for f, m := range droppedFiles {
			missing = append(missing, "harness file "+filepath.Base(f)+" does not fit this tree: "+m)
		}
		<-nat.done
	}
	var have []HarnessCfg
	pk = map[string][]string{}
	for _, h := range hs {
		if e.harness[modPath+"/"+h.Pkg+"."+h.Fn] == nil {
			missing = append(missing, "not run: "+h.Pkg+"."+h.Fn)
			continue
		}
		have = append(have, h)
		if !slices.Contains(pk[h.Pkg], h.Fn) {
			pk[h.Pkg] = append(pk[h.Pkg], h.Fn)
		}
	}
	hs = have
	if len(hs) == 0 {
		<-nat.done
		os.RemoveAll(work)
		fatal(fmt.Errorf("no harness fits the tree: %s", strings.Join(missing, "; ")))
	}
	if len(droppedFiles) > 0 {
		nat = buildNative(work, pk)
	}
	type hres struct {
		Harness      string           `json:"harness"`
		Bounds       string           `json:"bounds"`
		Params       map[string]int64 `json:"params,omitempty"`
		Paths        int64            `json:"paths"`
		Completed    int64            `json:"completed"`
		Ended        int64            `json:"ended_by_assumption"`
		Inconclusive map[string]int   `json:"inconclusive,omitempty"`
		Truncated    string           `json:"truncated,omitempty"`
		Steps        int64            `json:"ssa_instructions"`
		Decisions    int64            `json:"decisions"`
		Asserts      int64            `json:"assertions_evaluated"`
		Discharged   int64            `json:"assertion_queries_unsat"`
		Queries      int64            `json:"solver_queries"`
		SolverS      float64          `json:"solver_s"`
		WallS        float64          `json:"wall_s"`
		Reach        map[string]int64 `json:"reached"`
		NotReached   []string         `json:"expected_but_not_reached,omitempty"`
	}
	var hr []*hres
	funcs, natives := map[string]bool{}, map[string]bool{}
	var states, trans, validated, asserts, discharged int64
	var samples []string
	notes := missing
	nviol := 0
	fixedOrKnown := map[string]bool{}
	var reported []string
	exit := 0
	total := int64(0)
	report := func(h HarnessCfg, params map[string]int64, assign map[string]string, msg, where, out string) {
		for _, f := range findings {
			if f.Property == id && f.Status == "known" && f.Match != "" && strings.HasPrefix(msg, f.Match) {
				if !fixedOrKnown[f.Match] {
					fixedOrKnown[f.Match] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, f.What)
				}
				return
			}
		}
		nviol++
		exit = 1
		if nviol > 5 {
			return
		}
		if len(out) > 20000 {
			out = out[:20000]
		}
		p := filepath.Join(repDir, fmt.Sprintf("%s-%d.json", id, nviol))
		b, _ := json.MarshalIndent(ReplayFile{Property: id, Harness: h.Pkg + "." + h.Fn, Message: msg, Params: params, Assign: assign, Where: where, Output: out,
			Cmd: "cd /verif && ./run.sh replay " + p}, "", " ")
		os.WriteFile(p, b, 0644)
		reported = append(reported, msg)
		fmt.Printf("# %s\n# in %s.%s\nVIOLATION property=%s replay=%s\n", msg, h.Pkg, h.Fn, id, p)
	}
	var mu sync.Mutex
	tierTime := 0
	for _, h := range hs {
		tc := h.Quick
		if tier == "thorough" {
			tc = h.Thor
			if tc.Time == 0 {
				tc.Time = 240
			}
			if tc.Params == nil {
				tc.Params = h.Quick.Params
			}
			if tc.Steps == 0 {
				tc.Steps = h.Quick.Steps
			}
			if tc.Concret == 0 {
				tc.Concret = h.Quick.Concret
			}
		}
		params := map[string]int64{}
		if n, err := strconv.Atoi(strings.TrimPrefix(id, "C")); err == nil {
			params["prop"] = int64(n)
		}
		for k, v := range h.Params {
			params[k] = v
		}
		for k, v := range tc.Params {
			params[k] = v
		}
		if tier == "thorough" {
			params["thorough"] = 1
		}
		lim := limitsOf(tc, runtime.NumCPU())
		if h.NoWit {
			lim.Witnesses = 0
		}
		tierTime += int(lim.MaxTime.Seconds())
		name := h.Pkg + "." + h.Fn
		j := &Job{eng: e, fn: e.harness[modPath+"/"+name], name: name, params: params, limits: lim}
		q0, n0 := atomic.LoadInt64(&gStats.Queries), atomic.LoadInt64(&gStats.Nanos)
		s0 := time.Now()
		j.Run()
		r := &hres{Harness: name, Bounds: h.Bounds, Params: params, Paths: j.paths, Completed: j.ok, Ended: j.ended, Inconclusive: j.inconc, Truncated: j.trunc, Steps: j.steps, Decisions: j.decs,
			Asserts: j.asserts, Discharged: j.discharged, Queries: gStats.Queries - q0, SolverS: time.Duration(gStats.Nanos - n0).Seconds(), WallS: time.Since(s0).Seconds(), Reach: j.reach}
		for _, t := range h.Expect {
			if j.reach[t] == 0 {
				r.NotReached = append(r.NotReached, t)
			}
		}
		hr = append(hr, r)
		for f := range j.funcs {
			funcs[f] = true
		}
		for f := range j.native {
			natives[f] = true
		}
		states += j.decs + j.paths
		trans += j.steps
		asserts += j.asserts
		discharged += j.discharged
		total += j.paths
		if *keep {
			b, _ := json.Marshal(r)
			fmt.Println(string(b))
		}
		// native confirmation
		tries := h.Tries
		if tries == 0 {
			tries = 2
		}
		seen := map[string]bool{}
		// The first one several times, the others in an arbitrary order: some need values (hashes, say) which no native run has.
		if len(j.viol) > 1 {
			rest := j.viol[1:]
			rand.New(rand.NewSource(1)).Shuffle(len(rest), func(a, b int) { rest[a], rest[b] = rest[b], rest[a] })
		}
		failed := map[string]string{}
		var order []string
		until := time.Now().Add(90 * time.Second)
		for i, v := range j.viol {
			if seen[v.Msg] || failed[v.Msg] != "" && time.Now().After(until) {
				continue
			}
			ok := false
			var last *NatRes
			for t := 0; t < tries && !ok; t++ {
				last = nat.Run(name, v.Assign, params)
				ok = last.Viol != ""
				if i >= 6 {
					break
				}
			}
			if ok {
				seen[v.Msg] = true
				msg := last.Viol
				report(h, params, v.Assign, msg, v.Stack, last.Out)
				continue
			}
			if failed[v.Msg] == "" {
				order = append(order, v.Msg)
				failed[v.Msg] = fmt.Sprintf("counterexample not reproduced natively: %s (%s) at %s", v.Msg, strings.TrimSpace(last.Status), v.Stack)
			}
			if *keep {
				b, _ := json.Marshal(v.Assign)
				fmt.Println(string(b))
				fmt.Println(last.Out)
			}
		}
		for _, m := range order {
			if s := failed[m]; !seen[m] {
				notes = append(notes, s)
				fmt.Println("# note:", s)
			}
		}
		var wg sync.WaitGroup
		sem := make(chan bool, 4)
		runW := func(assign map[string]string, w *Witness, why string) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			res := nat.Run(name, assign, params)
			mu.Lock()
			defer mu.Unlock()
			if res.Viol != "" {
				// confirm once more before reporting
				mu.Unlock()
				res2 := nat.Run(name, assign, params)
				mu.Lock()
				if res2.Viol != "" && !seen[res2.Viol] {
					seen[res2.Viol] = true
					report(h, params, assign, res2.Viol, why, res2.Out)
				}
				return
			}
			if w == nil {
				return
			}
			if d := witDiff(w, res); d != "" {
				s := fmt.Sprintf("%s: engine and native run differ on a witness: %s", name, d)
				notes = append(notes, s)
				if *keep {
					fmt.Println("# note:", s)
				}
				return
			}
			validated++
			if len(samples) < 6 {
				b, _ := json.Marshal(w)
				if len(b) > 1500 {
					b = b[:1500]
				}
				samples = append(samples, name+": "+string(b))
			}
		}
		nw := 0
		for _, w := range j.wit {
			if nw >= 8 {
				break
			}
			nw++
			wg.Add(1)
			go runW(w.Assign, w, "witness")
		}
		for msg, v := range j.inconcPrefix {
			if nw >= 14 {
				break
			}
			nw++
			wg.Add(1)
			go runW(v.Assign, nil, "native run of a path the engine could not finish: "+msg)
		}
		wg.Wait()
	}
	<-nat.done
	if nat.err != nil {
		os.RemoveAll(work)
		fatal(nat.err)
	}
	var fl, nl []string
	for f := range funcs {
		if !strings.Contains(f, "zzsym") && !strings.Contains(f, "Verif") {
			fl = append(fl, f)
		}
	}
	for f := range natives {
		nl = append(nl, f)
	}
	sort.Strings(fl)
	sort.Strings(nl)
	var repoF []string
	nOther := 0
	for _, f := range fl {
		if strings.Contains(f, modPath+"/") {
			repoF = append(repoF, f)
		} else {
			nOther++
		}
	}
	incon := 0
	reduced := []string{}
	for _, r := range hr {
		for k, v := range r.Inconclusive {
			incon += v
			reduced = append(reduced, fmt.Sprintf("%s: %d paths outside the claim: %s", r.Harness, v, k))
		}
		if r.Truncated != "" {
			reduced = append(reduced, fmt.Sprintf("%s: exploration stopped by the %s limit after %d paths", r.Harness, r.Truncated, r.Paths))
		}
		for _, t := range r.NotReached {
			reduced = append(reduced, fmt.Sprintf("%s: never reached %s", r.Harness, t))
		}
	}
	sort.Strings(reduced)
	if len(samples) == 0 {
		samples = append(samples, fmt.Sprintf("%d paths, no native witness", total))
	}
	cov := map[string]any{
		"states": states, "transitions": trans, "checker_cmd": "gosym check " + id, "traces_validated_against_impl": validated, "samples": samples,
		"state_means": "node of the decision tree of symbolic execution", "transition_means": "SSA instruction executed symbolically",
		"symbolic_paths": total, "assertions": asserts, "assertion_queries_discharged_unsat": discharged,
		"functions_encoded": repoF, "library_functions_encoded": nOther, "functions_modelled": nl,
		"solver": "z3-new (fallback: z3-new fresh, cvc5)", "solver_queries": gStats.Queries, "solver_unsat": gStats.UnsatN, "solver_sat": gStats.SatN, "solver_unknown": gStats.UnknownN,
		"solver_s": time.Duration(gStats.Nanos).Seconds(), "harnesses": hr, "reduced_bounds": reduced, "notes": notes, "inconclusive_paths": incon,
		"exhaustive": len(reduced) == 0, "load_s": e.loadDur.Seconds(),
		"trusted_base": []string{"gosym SSA interpreter and its models (functions_modelled)", "z3", "go/ssa", "Go toolchain (native replay)"},
	}
	ev := map[string]any{"property": id, "tier": tier, "seed": seed, "level": cfg.Level, "coverage": cov, "assumptions": cfg.Assumptions, "wall_s": time.Since(t0).Seconds(), "violations": nviol}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(evFile, b, 0644); err != nil {
		fatal(err)
	}
	fmt.Printf("%s %s: %d harnesses, %d paths, %d assertions (%d solver-discharged), %d queries, %d native validations, %d inconclusive paths, %.1fs\n", id, tier, len(hr), total, asserts, discharged, gStats.Queries, validated, incon, time.Since(t0).Seconds())
	for _, s := range reduced {
		fmt.Println("# reduced bound:", s)
	}
	return exit
}
