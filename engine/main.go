package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym check|run|replay|goals ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		if f := os.Getenv("GOSYM_PROF"); f != "" {
			w, _ := os.Create(f)
			pprof.StartCPUProfile(w)
			r := cmdCheck(os.Args[2:])
			pprof.StopCPUProfile()
			os.Exit(r)
		}
		os.Exit(cmdCheck(os.Args[2:]))
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	case "goals":
		gs, err := scanGoals()
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		for _, g := range gs {
			fmt.Println(g.Prop, g.Fn, g.PkgDir, g.Opts)
		}
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

type knownFinding struct {
	prop, goal, match, text string
}

func loadKnown() []knownFinding {
	f, err := os.Open(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	var r []knownFinding
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := sc.Text()
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		head, text, _ := strings.Cut(strings.TrimPrefix(l, "finding: "), " -- ")
		k := knownFinding{text: text}
		for _, w := range strings.SplitN(head, " ", 3) {
			a, b, _ := strings.Cut(w, "=")
			switch a {
			case "property":
				k.prop = b
			case "goal":
				k.goal = b
			case "match":
				k.match = strings.Trim(b, `"`)
			}
		}
		r = append(r, k)
	}
	return r
}

type goalResult struct {
	Goal        string           `json:"goal"`
	Doc         string           `json:"checks"`
	Paths       int64            `json:"paths"`
	Infeasible  int64            `json:"paths_infeasible"`
	Steps       int64            `json:"instructions"`
	Asserts     int64            `json:"assertions"`
	AssertsHeld int64            `json:"assertions_held"`
	Queries     int64            `json:"solver_queries"`
	Unknowns    int64            `json:"solver_unknown"`
	SolverS     float64          `json:"solver_s"`
	WallS       float64          `json:"wall_s"`
	Bounds      map[string]int   `json:"bounds"`
	Reached     map[string]int64 `json:"reached"`
	Reduced     map[string]int64 `json:"not_decided,omitempty"`
	Complete    bool             `json:"complete_within_bounds"`
	Native      int              `json:"native_runs"`
	NativeAgree int              `json:"native_runs_agreeing"`
}

const quickBudget = 600 * time.Second

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("property", "", "property id")
	tier := fs.String("tier", envOr("VERIF_TIER", "quick"), "quick or thorough")
	only := fs.String("goal", "", "only this goal")
	workers := fs.Int("workers", 0, "solver processes")
	noNative := fs.Bool("nonative", false, "skip native runs")
	evid := fs.Bool("evidence", true, "write evidence")
	fs.Parse(args)
	start := time.Now()
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	all, err := scanGoals()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var goals []*Goal
	for _, g := range all {
		if g.Prop == *prop && (*only == "" || g.Fn == *only) {
			if g.Opts["tier"] == "thorough" && *tier != "thorough" {
				continue
			}
			goals = append(goals, g)
		}
	}
	if len(goals) == 0 {
		fmt.Fprintln(os.Stderr, "no goals for", *prop)
		return 2
	}
	prog, pkgs, err := loadRepo(goals, nil)
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot load the code under test:", err)
		return 2
	}
	loadS := time.Since(start).Seconds()
	known := loadKnown()
	var results []*goalResult
	funcs := map[string]bool{}
	assumptions := map[string]bool{}
	var viols []*Violation
	knownHit := map[string]bool{}
	failed := false
	var samples []any
	nativeRuns, nativeAgree := 0, 0
	nworkers := *workers
	if nworkers == 0 {
		nworkers = min(7, max(2, runtime.NumCPU()-1))
	}
	for _, g := range goals {
		pk := pkgs[g.PkgDir]
		if pk == nil {
			fmt.Fprintln(os.Stderr, "no package", g.PkgDir)
			return 2
		}
		fn := pk.Func(g.Fn)
		if fn == nil {
			fmt.Fprintln(os.Stderr, "no function", g.Fn)
			return 2
		}
		limit := time.Hour
		if *tier == "quick" { // All goals of a quick check share this time
			limit = max(20*time.Second, quickBudget-time.Since(start))
		}
		e, r := runGoal(prog, fn, g, *tier, nworkers, known, knownHit, int64(seed), limit)
		results = append(results, r)
		for f := range e.funcs {
			funcs[f] = true
		}
		for a := range e.assumptions {
			assumptions[a] = true
		}
		var vs []*Violation
		for _, k := range sortedKeys(e.viol) {
			vs = append(vs, e.viol[k])
		}
		var unreached []*Violation
		for _, want := range strings.Split(g.Opts["reach"], ",") {
			if want != "" && e.reach[want] == 0 && len(vs) == 0 {
				if r.Complete && e.paths > e.infeasible { // Decided: it never happens
					v := &Violation{Kind: "unreached", Msg: "no input and no schedule leads to the case \"" + want + "\""}
					if len(e.samples) > 0 {
						v.Inputs, v.Texts = e.samples[0].Inputs, e.samples[0].Texts
					}
					unreached = append(unreached, v)
					continue
				}
				fmt.Printf("INCOMPLETE property=%s goal=%s: the case %q was not reached (%v)\n", *prop, g.Fn, want, r.Reduced)
			}
		}
		vs = append(vs, unreached...)
		if e.paths == e.infeasible && len(vs) == 0 {
			fmt.Printf("INCOMPLETE property=%s goal=%s: no feasible path\n", *prop, g.Fn)
			failed = true
		}
		for i := range e.samples {
			if i < 2 && len(samples) < 12 {
				samples = append(samples, map[string]any{"goal": g.Fn, "inputs": e.samples[i].Inputs, "reached": e.samples[i].Reach})
			}
		}
		for i, v := range vs {
			v.Goal = g.Fn
			v.Path = writeReplay(*prop, *tier, g, v, i)
		}
		if len(vs) > 0 && !*noNative {
			for _, v := range vs {
				v.Replay = nativeReplay(g, v, *tier)
				rewriteReplay(v)
			}
		}
		if len(viols)+len(vs) == 0 && e.hang != nil && g.Opts["native"] != "0" {
			if v := confirmHang(g, e.hang, *tier); v != nil {
				v.Goal = g.Fn
				v.Path = writeReplay(*prop, *tier, g, v, 98)
				if !isKnown(known, *prop, g.Fn, v, knownHit) {
					vs = append(vs, v)
				}
			}
		}
		viols = append(viols, vs...)
		if len(vs) == 0 && !*noNative && g.Opts["native"] != "0" && len(e.samples) > 0 {
			n, a, bad := nativeSamples(g, e.samples, *tier)
			r.Native, r.NativeAgree = n, a
			nativeRuns += n
			nativeAgree += a
			if bad != nil {
				bad.Goal = g.Fn
				bad.Path = writeReplay(*prop, *tier, g, bad, 99)
				if !isKnown(known, *prop, g.Fn, bad, knownHit) {
					viols = append(viols, bad)
				}
			}
		}
		fmt.Printf("%s %s: %d paths, %d assertions (%d held), %d queries, %.1fs solver, %.1fs wall, complete=%v, native %d/%d %v\n", g.Prop, g.Fn, r.Paths, r.Asserts, r.AssertsHeld, r.Queries, r.SolverS, r.WallS, r.Complete, r.NativeAgree, r.Native, r.Reduced)
	}
	// evidence
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	states, trans, q, un := int64(0), int64(0), int64(0), int64(0)
	ss := 0.0
	complete := true
	var asr, held int64
	bounds := map[string]any{}
	for i, r := range results {
		states += r.Paths - r.Infeasible
		trans += r.Steps
		q += r.Queries
		un += r.Unknowns
		ss += r.SolverS
		asr += r.Asserts
		held += r.AssertsHeld
		complete = complete && r.Complete
		b := map[string]any{}
		for k, v := range r.Bounds {
			b[k] = v
		}
		b["scheduling_delays"] = goals[i].opt(*tier, "delays", 0)
		b["instructions_per_path"] = goals[i].opt(*tier, "steps", 400000)
		bounds[r.Goal] = b
	}
	if len(samples) == 0 {
		samples = append(samples, map[string]any{"note": "no completed path"})
	}
	ev := map[string]any{
		"property": *prop, "tier": *tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": nativeAgree, "native_runs": nativeRuns,
			"samples": samples, "goals": results, "functions_encoded": fl, "bounds": bounds,
			"solver": "z3-new (SMT-LIB over pipes)", "queries": q, "queries_unknown": un, "solver_s": ss, "assertions": asr, "assertions_held": held,
			"complete_within_bounds": complete, "load_s": loadS,
			"explanation": "states: feasible symbolic paths explored, each standing for all values satisfying its path condition; transitions: SSA instructions executed symbolically; traces_validated_against_impl: inputs solved from explored paths that were run on the compiled code and gave the same verdict and reached the same cases",
		},
		"assumptions": append([]string{"the Go compiler and the symbolic semantics of go/ssa agree (sampled by the native runs)", "library models listed in DESIGN.md"}, sortedKeys(assumptions)...),
		"wall_s":      time.Since(start).Seconds(), "violations": len(viols),
	}
	if *evid {
		os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755)
		b, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(verifDir, "evidence", *prop+".json"), b, 0644)
	}
	for _, k := range known {
		if k.prop == *prop && knownHit[k.goal+"|"+k.match] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k.text)
		}
	}
	if len(viols) > 0 {
		for _, v := range viols {
			fmt.Printf("%s: %s at %s\n  inputs %v\n  replay: %s\n", v.Kind, v.Msg, v.Site, shortInputs(v.Inputs), v.Replay)
			for i, s := range v.Stack {
				if i < 12 {
					fmt.Println("    ", s)
				}
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, v.Path)
		}
		return 1
	}
	if failed {
		return 2
	}
	return 0
}

func shortInputs(m map[string][]uint64) string {
	var sb strings.Builder
	for _, k := range sortedKeys(m) {
		fmt.Fprintf(&sb, "%s=%x ", k, m[k])
		if sb.Len() > 600 {
			sb.WriteString("...")
			break
		}
	}
	return sb.String()
}

func isKnown(known []knownFinding, prop, goal string, v *Violation, hit map[string]bool) bool {
	for _, k := range known {
		if k.prop == prop && (k.goal == "" || k.goal == goal) && strings.Contains(v.Sig(), k.match) {
			hit[k.goal+"|"+k.match] = true
			return true
		}
	}
	return false
}

func runGoal(prog *ssa.Program, fn *ssa.Function, g *Goal, tier string, workers int, known []knownFinding, hit map[string]bool, seed int64, limit time.Duration) (*Explorer, *goalResult) {
	params := map[string]int{}
	for k := range g.Opts {
		k = strings.TrimPrefix(k, "thorough.")
		params[k] = g.opt(tier, k, 0)
	}
	opt := Options{Workers: workers, MaxSteps: g.opt(tier, "steps", 400000), Delays: g.opt(tier, "delays", 0),
		Timeout: time.Duration(g.opt(tier, "timeout", map[string]int{"quick": 120, "thorough": 600}[tier])) * time.Second,
		MaxViol: g.opt(tier, "maxviol", 4), Params: params, Seed: seed}
	opt.Timeout = min(opt.Timeout, limit)
	e := newExplorer(prog, fn, modPath, opt)
	e.tier = tier
	e.isKnown = func(v *Violation) bool { return isKnown(known, g.Prop, g.Fn, v, hit) }
	t0 := time.Now()
	e.run()
	r := &goalResult{Goal: g.Fn, Doc: g.Doc, Paths: e.paths, Infeasible: e.infeasible, Steps: e.steps, Asserts: e.asserts, AssertsHeld: e.assertsOK,
		Queries: e.queries, Unknowns: e.unknowns, SolverS: e.solverTime.Seconds(), WallS: time.Since(t0).Seconds(), Bounds: e.bounds, Reached: e.reach, Reduced: e.notes}
	if e.timedOut {
		e.notes["time limit"]++
	}
	r.Complete = len(e.notes) == 0 && len(e.viol) == 0
	return e, r
}

func (v *Violation) record(tier string, g *Goal) map[string]any {
	return map[string]any{"Inputs": v.Inputs, "Texts": v.Texts, "Tier": tier, "Timed": g.Opts["timed"] == "1"}
}

func writeReplay(prop, tier string, g *Goal, v *Violation, i int) string {
	dir := filepath.Join(verifDir, "out", "replay")
	os.MkdirAll(dir, 0755)
	v.Path = filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", prop, g.Fn, i))
	v.Prop, v.Tier = prop, tier
	rewriteReplay(v)
	return v.Path
}

func rewriteReplay(v *Violation) {
	b, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(v.Path, b, 0644)
}

type nativeOut struct {
	I       int      `json:"i"`
	Failed  []string `json:"failed"`
	Reached []string `json:"reached"`
	Skipped bool     `json:"skipped"`
	Panic   string   `json:"panic"`
}

// native runs the harness of a goal, compiled with the real code, on the given records.
func runNative(g *Goal, recs []map[string]any, timeout time.Duration, race bool) (outs []nativeOut, log string, err error) {
	dir, err := os.MkdirTemp("", "gosym")
	if err != nil {
		return nil, "", err
	}
	defer os.RemoveAll(dir)
	ov := overlayFiles([]*Goal{g})
	pkgName := filepath.Base(g.PkgDir)
	b, _ := os.ReadFile(g.File)
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "package ") {
			pkgName = strings.Fields(l)[1]
			break
		}
	}
	body := "sym.RunAll(os.Getenv(\"VERIF_REPLAY\"), os.Getenv(\"VERIF_TMP\"), " + g.Fn + ")"
	imp := ""
	if g.Opts["timed"] == "1" {
		imp = "\t\"testing/synctest\"\n"
		body = "sym.RunAll(os.Getenv(\"VERIF_REPLAY\"), os.Getenv(\"VERIF_TMP\"), func() { var r any; synctest.Test(t, func(t *testing.T) { defer func() { r = recover(); if r == nil { sym.Flush(); os.Exit(0) } }(); " + g.Fn + "() }); if r != nil { panic(r) } })"
	}
	test := "package " + pkgName + "\n\nimport (\n\t\"os\"\n\t\"testing\"\n" + imp + "\n\t\"" + symPath + "\"\n)\n\nfunc TestVerifReplay(t *testing.T) {\n\t" + body + "\n}\n"
	tf := filepath.Join(dir, "zz_test.go")
	os.WriteFile(tf, []byte(test), 0644)
	ov[filepath.Join(repoDir, g.PkgDir, "zz_verif_replay_test.go")] = tf
	// the serial port comes from the harness
	serialMod := ""
	if g.Opts["serial"] == "1" {
		sf := filepath.Join(dir, "serial.go")
		os.WriteFile(sf, []byte("package serial\n\nimport (\n\t\"io\"\n\t\"time\"\n\n\t\""+symPath+"\"\n)\n\ntype Port struct{ io.ReadWriteCloser }\n\nfunc openPort(name string, baud int, databits byte, parity Parity, stopbits StopBits, readTimeout time.Duration) (*Port, error) {\n\tp, err := sym.OpenSerial(name, baud)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\treturn &Port{p}, nil\n}\n"), 0644)
		mod := filepath.Join(dir, "serial")
		os.MkdirAll(mod, 0755)
		ms, _ := filepath.Glob(filepath.Join(goModCache(), "github.com/tarm/serial@*/serial.go"))
		for _, m := range ms {
			b, _ := os.ReadFile(m)
			os.WriteFile(filepath.Join(mod, "serial.go"), b, 0644)
		}
		b, _ := os.ReadFile(sf)
		os.WriteFile(filepath.Join(mod, "port.go"), b, 0644)
		os.WriteFile(filepath.Join(mod, "go.mod"), []byte("module github.com/tarm/serial\n"), 0644)
		serialMod = mod
	}
	// only the replay test may run: the package's own tests stay out
	ents, _ := os.ReadDir(filepath.Join(repoDir, g.PkgDir))
	for _, e := range ents {
		if strings.HasSuffix(e.Name(), "_test.go") {
			ov[filepath.Join(repoDir, g.PkgDir, e.Name())] = ""
		}
	}
	oj, _ := json.Marshal(map[string]any{"Replace": ov})
	of := filepath.Join(dir, "overlay.json")
	os.WriteFile(of, oj, 0644)
	rj, _ := json.Marshal(recs)
	rf := filepath.Join(dir, "rec.json")
	os.WriteFile(rf, rj, 0644)
	mf, err := modfile()
	if err != nil {
		return nil, "", err
	}
	if serialMod != "" {
		m, _ := os.ReadFile(mf)
		sum, _ := os.ReadFile(strings.TrimSuffix(mf, ".mod") + ".sum")
		mf = filepath.Join(dir, "go.mod")
		os.WriteFile(mf, append(m, []byte("\nreplace github.com/tarm/serial => "+serialMod+"\n")...), 0644)
		os.WriteFile(filepath.Join(dir, "go.sum"), sum, 0644)
	}
	argv := []string{"test", "-vet=off", "-count=1", "-modfile=" + mf, "-overlay=" + of, "-run", "TestVerifReplay", "-v", "-timeout", fmt.Sprintf("%ds", int(timeout.Seconds()))}
	if race {
		argv = append(argv, "-race")
	}
	argv = append(argv, "./"+g.PkgDir)
	cmd := exec.Command("go", argv...)
	cmd.Dir = repoDir
	cmd.Env = append(goEnv(), "VERIF_REPLAY="+rf, "VERIF_TMP="+filepath.Join(dir, "tmp"), "GODEBUG=asynctimerchan=0")
	out, rerr := cmd.CombinedOutput()
	log = string(out)
	if f := os.Getenv("GOSYM_NATIVELOG"); f != "" {
		os.WriteFile(f, out, 0644)
	}
	for _, l := range strings.Split(log, "\n") {
		if i := strings.Index(l, "VERIF-RESULT "); i >= 0 {
			var o nativeOut
			if json.Unmarshal([]byte(l[i+len("VERIF-RESULT "):]), &o) == nil {
				outs = append(outs, o)
			}
		}
	}
	return outs, log, rerr
}

func goModCache() string {
	cmd := exec.Command("go", "env", "GOMODCACHE")
	cmd.Env = goEnv()
	b, _ := cmd.Output()
	return strings.TrimSpace(string(b))
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// nativeReplay runs a counterexample on the compiled code and says what happened.
func nativeReplay(g *Goal, v *Violation, tier string) string {
	if v.Kind == "unreached" {
		return "every path was explored, so there is nothing to run; the inputs are those of one path"
	}
	if g.Opts["native"] == "0" {
		return "not run: the compiled code cannot be given this schedule, crash point or fault; see the trace"
	}
	outs, log, err := runNative(g, []map[string]any{v.record(tier, g)}, 60*time.Second, v.Kind == "race")
	if len(outs) == 1 {
		o := outs[0]
		switch {
		case o.Panic != "":
			return "reproduced on the compiled code: " + o.Panic
		case len(o.Failed) > 0:
			return "reproduced on the compiled code: " + strings.Join(o.Failed, "; ")
		case strings.Contains(log, "WARNING: DATA RACE"):
			return "reproduced on the compiled code: data race"
		}
		return "the compiled code did not show it in one run (schedule dependent)"
	}
	for _, k := range []string{"panic:", "fatal error:", "WARNING: DATA RACE", "deadlock"} {
		if i := strings.Index(log, k); i >= 0 {
			l := log[i:]
			if j := strings.IndexByte(l, '\n'); j > 0 {
				l = l[:j]
			}
			return "reproduced on the compiled code: " + l
		}
	}
	return fmt.Sprintf("native run gave no result (%v): %s", err, tail(log, 400))
}

// confirmHang runs the inputs of a path that exceeded the step budget on the compiled code: a violation if
// that does not end either.
func confirmHang(g *Goal, s *Sample, tier string) *Violation {
	v := &Violation{Kind: "nontermination", Msg: "the run does not end", Site: g.Fn, Inputs: s.Inputs, Texts: s.Texts}
	outs, log, _ := runNative(g, []map[string]any{v.record(tier, g)}, 20*time.Second, false)
	if len(outs) == 0 && strings.Contains(log, "panic: test timed out") {
		v.Replay = "reproduced on the compiled code: not finished after 20 s"
		return v
	}
	return nil
}

func nativeSamples(g *Goal, samples []*Sample, tier string) (int, int, *Violation) {
	var recs []map[string]any
	for _, s := range samples {
		v := &Violation{Inputs: s.Inputs, Texts: s.Texts}
		recs = append(recs, v.record(tier, g))
	}
	if g.Opts["timed"] == "1" {
		recs = recs[:1]
	}
	outs, log, err := runNative(g, recs, 120*time.Second, false)
	agree := 0
	for _, o := range outs {
		if o.Panic != "" || len(o.Failed) > 0 {
			msg := o.Panic
			if msg == "" {
				msg = o.Failed[0]
			}
			return len(outs), agree, &Violation{Kind: "native", Msg: msg, Site: g.Fn, Inputs: samples[o.I].Inputs, Texts: samples[o.I].Texts, Replay: "found by running solver-chosen inputs on the compiled code"}
		}
		if o.Skipped {
			continue
		}
		same := map[string]bool{}
		for _, r := range o.Reached {
			same[r] = true
		}
		ok := len(same) == len(samples[o.I].Reach)
		for _, r := range samples[o.I].Reach {
			ok = ok && same[r]
		}
		if ok {
			agree++
		} else if verbose {
			fmt.Println("native run", o.I, "reached", o.Reached, "engine", samples[o.I].Reach, samples[o.I].Inputs)
		}
	}
	if len(outs) < len(recs) {
		if verbose {
			fmt.Println("native runs:", err, tail(log, 2000))
		}
		if i := strings.Index(log, "panic: "); i >= 0 && strings.Contains(log, "goroutine ") && g.Opts["timed"] != "1" {
			l := log[i:]
			if j := strings.IndexByte(l, '\n'); j > 0 {
				l = l[:j]
			}
			k := min(len(outs), len(samples)-1)
			return len(recs), agree, &Violation{Kind: "native", Msg: l, Site: g.Fn, Inputs: samples[k].Inputs, Texts: samples[k].Texts, Replay: "found by running solver-chosen inputs on the compiled code"}
		}
		fmt.Printf("native runs of %s incomplete (%d of %d): %v %s\n", g.Fn, len(outs), len(recs), err, tail(log, 300))
	}
	return len(recs), agree, nil
}

func cmdReplay(args []string) int {
	if len(args) < 1 {
		fmt.Fprintln(os.Stderr, "usage: gosym replay FILE")
		return 2
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	gs, _ := scanGoals()
	for _, g := range gs {
		if g.Fn == v.Goal {
			r := nativeReplay(g, &v, v.Tier)
			fmt.Println(r)
			if strings.HasPrefix(r, "reproduced") {
				return 1
			}
			return 0
		}
	}
	return 2
}
