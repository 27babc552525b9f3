package main

// gov: a deductive verifier for the Go code of /repo.
//
//   gov check  -prop C01 -spec contracts/C01.gov -repo /repo -evidence evidence/C01.json -replay DIR -tier quick
//   gov debug  -spec F [-prop P] [-fn KEY]

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

var verbose bool

type report struct {
	fns    []*FnResult
	lemmas []*Obligation
	vr     *Verifier
	err    string
	secs   float64
}

func runProp(repo, specPath, prop string, only string) (rep *report) {
	t0 := time.Now()
	rep = &report{}
	defer func() {
		if r := recover(); r != nil {
			if os.Getenv("GOV_PANIC") != "" {
				panic(r)
			}
			rep.err = fmt.Sprint(r)
		}
		rep.secs = time.Since(t0).Seconds()
	}()
	vr, err := loadRepo(repo)
	if err != nil {
		rep.err = "cannot load the code: " + err.Error()
		return
	}
	rep.vr = vr
	vr.prop = prop
	vr.spec = newSpecFile()
	loadSpec(vr.spec, specPath)
	for _, k := range sortedKeys(vr.spec.Contracts) {
		if vr.funcs[k] == nil && !vr.spec.Contracts[k].Trusted {
			vr.orphans = append(vr.orphans, vr.spec.Contracts[k])
		}
	}
	initTheory()
	initExterns()
	pend := vr.setupTheory()
	snapshotFresh()
	var mu sync.Mutex
	var wg sync.WaitGroup
	for _, p := range pend {
		rep.lemmas = append(rep.lemmas, p.o)
		wg.Add(1)
		go func(p *pending) {
			defer wg.Done()
			p.o.Res = solve(p.q, 1, hardTO)
			if p.o.Res.status != "unsat" && dumpDir != "" {
				os.WriteFile(fmt.Sprintf("%s/lemma%d.smt2", dumpDir, dumpN.Add(1)), []byte("; "+p.o.Name+"\n"+z3Opts2+z3Sorts+p.q), 0o644)
			}
		}(p)
	}
	done := map[string]bool{}
	fnSem := make(chan struct{}, 6)
	var launch func(k string)
	launch = func(k string) {
		mu.Lock()
		if done[k] {
			mu.Unlock()
			return
		}
		done[k] = true
		mu.Unlock()
		ct := vr.spec.Contracts[k]
		if ct == nil {
			mu.Lock()
			rep.fns = append(rep.fns, &FnResult{Key: k, Unsup: []string{"no contract for root"}, Obls: []*Obligation{{Name: "contract for " + k, Kind: "missing", Fn: k, Goal: tFalse}}})
			mu.Unlock()
			return
		}
		if ct.Trusted {
			return
		}
		if vr.funcs[k] == nil {
			// the function named by the contract is gone: its callers are verified against its replacement inline
			if _, must := ct.Flags["exported"]; must || containsStr(vr.spec.Roots, k) {
				mu.Lock()
				rep.fns = append(rep.fns, &FnResult{Key: k, Unsup: []string{"function is missing"}, Obls: []*Obligation{{Name: "function " + k + " is missing", Kind: "missing", Fn: k, Goal: tFalse}}})
				mu.Unlock()
			}
			return
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			fnSem <- struct{}{}
			r := vr.verifyFunction(k)
			<-fnSem
			if verbose {
				printFn(r)
			}
			mu.Lock()
			rep.fns = append(rep.fns, r)
			mu.Unlock()
			if only == "" {
				for _, u := range r.Used {
					launch(u)
				}
			}
		}()
	}
	if only != "" {
		for _, k := range strings.Split(only, ";") {
			launch(k)
		}
	} else {
		for _, k := range vr.spec.Roots {
			launch(k)
		}
	}
	wg.Wait()
	sort.Slice(rep.fns, func(i, j int) bool { return rep.fns[i].Key < rep.fns[j].Key })
	return
}

func containsStr(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func printFn(r *FnResult) {
	ok, bad := 0, 0
	var sb strings.Builder
	for _, o := range r.Obls {
		if o.Res.status == "unsat" {
			ok++
		} else {
			bad++
			fmt.Fprintf(&sb, "    FAIL %s %s:%d %s [%s %.1fs]\n", o.Kind, shortFile(o.Pos.Filename), o.Pos.Line, o.Name, o.Res.status, o.Res.secs)
		}
	}
	fmt.Fprintf(os.Stderr, "%s: %d ok, %d failed, %d loops, %d/%d invariants, %d rounds, %.1fs\n%s", r.Key, ok, bad, r.Loops, r.Kept, r.Cands, r.Rounds, r.Secs, sb.String())
	if r.Vacuous != "" {
		fmt.Fprintln(os.Stderr, "    VACUOUS:", r.Vacuous)
	}
	if bad > 0 || os.Getenv("GOV_INV") != "" {
		for _, u := range r.UserLost {
			fmt.Fprintln(os.Stderr, "    lost invariant:", u)
		}
	}
	if os.Getenv("GOV_INV") != "" {
		for _, u := range r.UserInv {
			fmt.Fprintln(os.Stderr, "    invariant:", u)
		}
		fmt.Fprintln(os.Stderr, "    used:", r.Used, "inlined:", r.Inlined)
	}
}

type failure struct {
	id     string // function|kind|name
	fn     string
	kind   string
	name   string
	pos    string
	status string
	out    string
}

func (r *report) failures() []failure {
	var out []failure
	if r.err != "" {
		out = append(out, failure{id: "load|error", fn: "-", kind: "error", name: r.err})
	}
	add := func(o *Obligation, fn string) {
		if o.Res.status == "unsat" {
			return
		}
		pos := ""
		if o.Pos.IsValid() {
			pos = fmt.Sprintf("%s:%d", shortFile(o.Pos.Filename), o.Pos.Line)
		}
		out = append(out, failure{id: fn + "|" + o.Kind + "|" + o.Name, fn: fn, kind: o.Kind, name: o.Name, pos: pos, status: o.Res.status, out: o.Res.out})
	}
	for _, o := range r.lemmas {
		add(o, o.Fn)
	}
	for _, f := range r.fns {
		for _, o := range f.Obls {
			add(o, f.Key)
		}
		if f.Vacuous != "" {
			out = append(out, failure{id: f.Key + "|vacuity", fn: f.Key, kind: "vacuity", name: f.Vacuous})
		}
	}
	return out
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gov check|debug ...")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("gov", flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	spec := fs.String("spec", "", "contract file")
	repo := fs.String("repo", "/repo", "source tree")
	fn := fs.String("fn", "", "only these functions (;-separated)")
	evid := fs.String("evidence", "", "evidence file to write")
	replay := fs.String("replay", "", "directory for replay files")
	harness := fs.String("harness", "", "replay harness script")
	known := fs.String("known", "", "known findings file")
	tier := fs.String("tier", "quick", "quick or thorough")
	v := fs.Bool("v", false, "verbose")
	fs.Parse(os.Args[2:])
	verbose = *v
	if *tier == "thorough" {
		hardTO, finalTO, userTO = 60, 20, 10
	}
	if os.Args[1] == "check" {
		proofDeadline = time.Now().Add(330 * time.Second)
		if *tier == "thorough" {
			proofDeadline = time.Now().Add(500 * time.Second)
		}
	}
	switch os.Args[1] {
	case "debug":
		verbose = true
		rep := runProp(*repo, *spec, *prop, *fn)
		for _, o := range rep.lemmas {
			if o.Res.status != "unsat" {
				fmt.Fprintf(os.Stderr, "LEMMA FAIL %s [%s]\n", o.Name, o.Res.status)
			}
		}
		if rep.err != "" {
			fmt.Println("ERROR", rep.err)
		}
		f := rep.failures()
		fmt.Printf("%d failures, %.1fs, %d queries, %.1f solver seconds\n", len(f), rep.secs, solverQueries.Load(), float64(solverSecs.Load())/1e6)
		if len(f) > 0 {
			os.Exit(1)
		}
	case "check":
		os.Exit(check(*prop, *spec, *repo, *evid, *replay, *harness, *known, *tier))
	case "funcs":
		vr, err := loadRepo(*repo)
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		for _, k := range sortedKeys(vr.funcs) {
			fmt.Println(k)
		}
	case "ssa":
		vr, _ := loadRepo(*repo)
		for _, k := range strings.Split(*fn, ";") {
			vr.funcs[k].WriteTo(os.Stdout)
		}
	}
}

func check(prop, spec, repo, evid, replay, harness, known, tier string) int {
	t0 := time.Now()
	rep := runProp(repo, spec, prop, "")
	fails := rep.failures()
	// known findings
	kf := loadKnown(known, prop)
	hit := map[string]bool{}
	var fresh []failure
	for _, f := range fails {
		ok := false
		for _, k := range kf {
			if k.pattern != "" && strings.Contains(f.id, k.pattern) {
				ok = true
				hit[k.text] = true
			}
		}
		if !ok {
			fresh = append(fresh, f)
		}
	}
	for _, k := range kf {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
	}
	// executable evidence: the replay/bounded harness
	hres := runHarness(harness, repo, prop, tier, len(fresh) > 0, replay)
	viol := 0
	code := 0
	if len(fresh) > 0 || hres.failed {
		viol = len(fresh)
		if viol == 0 {
			viol = 1
		}
		code = 1
		os.MkdirAll(replay, 0o755)
		path := filepath.Join(replay, prop+".txt")
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s\n", prop)
		for _, f := range fresh {
			fmt.Fprintf(&sb, "FAILED OBLIGATION: %s [%s] at %s\n  solver: %s %s\n", f.id, f.kind, f.pos, f.status, f.out)
		}
		suffix := ""
		if hres.failed {
			fmt.Fprintf(&sb, "\nFAILING INPUT (replayed against the real code):\n%s\nreplay command: %s\n", hres.out, hres.cmd)
		} else {
			fmt.Fprintf(&sb, "\nno failing input found by the replay search\nharness output:\n%s\n", hres.out)
			suffix = " no-failing-input-found"
		}
		os.WriteFile(path, []byte(sb.String()), 0o644)
		for i, f := range fresh {
			if i >= 12 {
				fmt.Printf("... and %d more failed obligations (see %s)\n", len(fresh)-i, path)
				break
			}
			fmt.Printf("failed obligation: %s at %s [%s]\n", f.id, f.pos, f.status)
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, path, suffix)
	} else {
		fmt.Printf("property %s: all obligations discharged\n", prop)
	}
	writeEvidence(evid, prop, spec, tier, rep, viol, time.Since(t0).Seconds(), hres, kf)
	return code
}

type knownFinding struct{ pattern, text string }

// lines: "finding: property=C07 obligation=<substring of the obligation id> what=<text>"
func loadKnown(path, prop string) []knownFinding {
	var out []knownFinding
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: property="+prop+" ") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: property="+prop+" ")
		k := knownFinding{text: l}
		if strings.HasPrefix(l, "obligation={") {
			j := strings.Index(l, "} ")
			k.pattern = l[len("obligation={"):j]
			k.text = strings.TrimSpace(l[j+2:])
		}
		out = append(out, k)
	}
	return out
}

type harnessResult struct {
	ran    bool
	failed bool
	out    string
	cmd    string
	info   map[string]any
}

// runHarness runs the executable oracle of the property.  It always runs in "bounded" mode where the property has a
// bounded stand-in; after a failed obligation it runs in "search" mode, looking for an input on which the code fails.
func runHarness(script, repo, prop, tier string, search bool, replay string) harnessResult {
	r := harnessResult{}
	if script == "" {
		return r
	}
	mode := "bounded"
	if search {
		mode = "search"
	}
	cmd := exec.Command("bash", script, prop, mode, tier, repo)
	b, err := cmd.CombinedOutput()
	r.ran = true
	r.cmd = strings.Join(cmd.Args, " ")
	out := string(b)
	if len(out) > 20000 {
		out = out[:20000]
	}
	r.out = out
	if err != nil && strings.Contains(out, "COUNTEREXAMPLE") {
		r.failed = true
	}
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "HARNESS-INFO ") {
			json.Unmarshal([]byte(l[len("HARNESS-INFO "):]), &r.info)
		}
	}
	return r
}

func writeEvidence(path, prop, spec, tier string, rep *report, viol int, wall float64, h harnessResult, kf []knownFinding) {
	if path == "" {
		return
	}
	type fnEv struct {
		Function    string   `json:"function"`
		Obligations int      `json:"obligations"`
		Discharged  int      `json:"discharged"`
		Loops       int      `json:"loops"`
		Invariants  int      `json:"loop_invariants_proved"`
		Inlined     []string `json:"inlined,omitempty"`
		Secs        float64  `json:"secs"`
	}
	total, disch := 0, 0
	solvers := map[string]int{}
	kinds := map[string]int{}
	var fns []fnEv
	ext := map[string]bool{}
	inl := map[string]bool{}
	var failed []string
	cnt := func(o *Obligation) bool {
		total++
		kinds[o.Kind]++
		if o.Res.status == "unsat" {
			disch++
			solvers[o.Res.solver]++
			return true
		}
		return false
	}
	for _, o := range rep.lemmas {
		if !cnt(o) {
			failed = append(failed, o.Name)
		}
	}
	for _, f := range rep.fns {
		e := fnEv{Function: f.Key, Loops: f.Loops, Invariants: f.Kept, Inlined: f.Inlined, Secs: f.Secs}
		for _, o := range f.Obls {
			e.Obligations++
			if cnt(o) {
				e.Discharged++
			} else {
				failed = append(failed, f.Key+": "+o.Kind+": "+o.Name)
			}
		}
		fns = append(fns, e)
		for _, x := range f.Externs {
			ext[x] = true
		}
		for _, x := range f.Inlined {
			inl[x] = true
		}
	}
	var trusted []string
	trusted = append(trusted, "gov (the contract verifier in /verif/gov: go/ssa front end, memory model, condition generator)", "golang.org/x/tools/go/ssa v0.52.0", "z3 5.3.2 / z3 4.8.12 / cvc5 1.1.2 (any one accepting an obligation discharges it)")
	for _, k := range sortedKeys(ext) {
		trusted = append(trusted, "external: "+k)
	}
	assumptions := []string{
		"slices, strings and maps hold fewer than 2^47 elements",
		"no data race: each function runs without concurrent writers to the memory it reads (package-level atomics are treated as shared, with their invariant)",
		"memory allocation does not fail and stack overflow is not modelled",
		"values built by the library only: no caller forges a V by unsafe means or re-enters the library from a callback with mutations",
		"int arithmetic is mathematical, justified by an overflow obligation at every operation; sized and unsigned integers wrap exactly",
		"an address of a struct embedded in another object is not used together with the enclosing object inside one function",
	}
	if rep.vr != nil {
		for _, a := range rep.vr.assumedAxioms {
			assumptions = append(assumptions, "axiom (unproved): "+a)
		}
		if rep.vr.spec != nil {
			for _, k := range sortedKeys(rep.vr.spec.Contracts) {
				if c := rep.vr.spec.Contracts[k]; c.Trusted {
					assumptions = append(assumptions, "trusted contract: "+k+": "+c.Flags["trusted"])
				}
			}
		}
	}
	cov := map[string]any{
		"obligations": total, "discharged": disch,
		"checker_cmd":              strings.Join(os.Args, " "),
		"trusted_base":             trusted,
		"functions_under_contract": fns, "functions_inlined": sortedKeys(inl),
		"obligations_by_kind": kinds, "discharged_by": solvers,
		"solver_seconds": float64(solverSecs.Load()) / 1e6, "solver_queries": solverQueries.Load(),
		"contract_file": spec,
	}
	if len(failed) > 0 {
		if len(failed) > 60 {
			failed = failed[:60]
		}
		cov["failed_obligations"] = failed
	}
	if h.ran {
		cov["executable_harness"] = map[string]any{"command": h.cmd, "failed": h.failed, "info": h.info, "note": "bounded, not counted as proved"}
	}
	if len(kf) > 0 {
		var ks []string
		for _, k := range kf {
			ks = append(ks, k.text)
		}
		cov["known_findings"] = ks
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov, "assumptions": assumptions, "wall_s": wall, "violations": viol}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Dir(path), 0o755)
	os.WriteFile(path, append(b, '\n'), 0o644)
}
