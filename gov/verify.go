package main

// Verification of one function: candidate-invariant fixpoint, then the obligations proper.

import (
	"context"
	"fmt"
	"go/types"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

var symMu sync.Mutex // protects the term tables

var baseFresh map[string]int

func snapshotFresh() {
	baseFresh = map[string]int{}
	for k, v := range freshCnt {
		baseFresh[k] = v
	}
}

func resetFresh() {
	freshCnt = map[string]int{}
	for k, v := range baseFresh {
		freshCnt[k] = v
	}
	termRange = map[*Term][2]*big.Int{}
}

func newExec(vr *Verifier, fn *ssa.Function, ct *Contract, cands map[string]*Cand) *Exec {
	if cands == nil {
		cands = map[string]*Cand{}
	}
	return &Exec{vr: vr, fn: fn, ct: ct, cands: cands, heapInit: map[string]*Term{}, heapSorts: map[string]Sort{},
		entryVars: map[string]*Val{}, inlined: map[string]bool{}, used: map[string]bool{}, externs: map[string]bool{}, closures: map[*Term]*Closure{}}
}

type FnResult struct {
	Key      string
	Obls     []*Obligation
	Used     []string
	Inlined  []string
	Externs  []string
	Loops    int
	Cands    int
	Kept     int
	Rounds   int
	Secs     float64
	Unsup    []string
	Vacuous  string
	UserInv  []string // user invariants kept
	UserLost []string
}

// run executes the body symbolically once, collecting obligations.
func (vr *Verifier) runOnce(key string, fn *ssa.Function, ct *Contract, cands map[string]*Cand) *Exec {
	resetFresh()
	ex := vr.runCase(key, fn, ct, cands, 0)
	for c := 1; c < 1<<len(ct.Split); c++ {
		e2 := vr.runCase(key, fn, ct, cands, c)
		ex.obls = append(ex.obls, e2.obls...)
		ex.exits = append(ex.exits, e2.exits...)
		ex.unsup = append(ex.unsup, e2.unsup...)
		ex.candOrder = append(ex.candOrder, e2.candOrder...)
		for _, p := range [][2]map[string]bool{{ex.inlined, e2.inlined}, {ex.used, e2.used}, {ex.externs, e2.externs}} {
			for k := range p[1] {
				p[0][k] = true
			}
		}
		if e2.nloops > ex.nloops {
			ex.nloops = e2.nloops
		}
	}
	return ex
}

// runCase executes the body under one combination of the contract's split conditions.
func (vr *Verifier) runCase(key string, fn *ssa.Function, ct *Contract, cands map[string]*Cand, mask int) (ex *Exec) {
	ex = newExec(vr, fn, ct, cands)
	st := &State{env: map[ssa.Value]*Val{}, heap: map[string]*Term{}, cells: map[*Cell]*Val{}}
	defer func() {
		if r := recover(); r != nil {
			var msg string
			switch e := r.(type) {
			case unsupported:
				msg = e.msg
			case specErr:
				msg = "contract of " + key + ": " + string(e)
			default:
				if os.Getenv("GOV_PANIC") != "" {
					panic(r)
				}
				msg = fmt.Sprintf("internal: %v", r)
			}
			ex.dry = 0
			ex.unsup = append(ex.unsup, msg)
			ex.obls = append(ex.obls, &Obligation{Name: "outside the verified subset: " + msg, Kind: "unsupported", Fn: key, Goal: tFalse, Facts: nil, Pos: vr.prog.Fset.Position(fn.Pos())})
		}
	}()
	st.alloc = constant("alloc0", SInt)
	st.assume(tLe(tInt(0), st.alloc))
	var args []*Val
	for _, p := range fn.Params {
		el := ptrElem(p.Type())
		if el != nil {
			if _, isS := el.Underlying().(*types.Struct); !isS {
				if _, isA := el.Underlying().(*types.Array); !isA {
					c := ex.newCell(p.Name(), el)
					st.cells[c] = ex.freshVal(st, "*"+p.Name(), el)
					args = append(args, &Val{T: p.Type(), P: &Path{kind: 'c', cell: c, root: el, n: len(leaves(el)), T: el}, L: []*Term{tInt(1)}})
					continue
				}
			}
		}
		v := ex.freshVal(st, p.Name(), p.Type())
		for i, l := range leaves(p.Type()) {
			if l.Comp == "" && l.Sort == SInt && l.Arr == 0 {
				noteRange(v.L[i], l.T)
			}
		}
		args = append(args, v)
	}
	if len(ct.Params) != len(args) {
		panic(unsupported{fmt.Sprintf("contract of %s names %d parameters, the function has %d", key, len(ct.Params), len(args))})
	}
	var splits []*Expr
	for i, sp := range ct.Split {
		want := tFalse
		if mask>>i&1 == 1 {
			want = tTrue
		}
		done := false
		for j, n := range ct.Params {
			if sp.Op == "id" && sp.S == n && len(args[j].L) == 1 && args[j].L[0].sort == SBool {
				args[j] = &Val{T: args[j].T, L: []*Term{want}}
				done = true
			}
		}
		if done {
			continue
		}
		if want == tFalse {
			sp = &Expr{Op: "un", S: "!", A: []*Expr{sp}}
		}
		splits = append(splits, sp)
	}
	ex.entry = st // provisional
	ev := ex.contractEval(ct, fn, st, st, args)
	ex.entryVars = ev.vars
	for _, r := range ct.Req {
		if vr.clauseOn(r) {
			st.assume(ex.specBool(ev, r, ct))
		}
	}
	ex.bindWhere(ev, ct, st)
	for _, sp := range splits {
		st.assume(ev.boolT(sp))
	}
	for _, a := range args {
		ex.literalTags(st, a)
	}
	if st.dead && len(ct.Split) > 0 {
		ex.entry = st.clone()
		return ex
	}
	if st.dead {
		panic(unsupported{"precondition is false"})
	}
	ex.entry = st.clone()
	ev.st, ev.old = ex.entry, ex.entry
	if !ct.ModAll {
		ex.entryMods = ev.mods(ct.Mod)
	}
	fr := &Frame{fn: fn, args: args, ct: ct, entry: ex.entry, callID: key}
	outs := ex.execFunc(fr, st)
	for _, o := range outs {
		if o.st.dead {
			continue
		}
		ex.exit(fr, o)
	}
	return ex
}

func (ex *Exec) exit(fr *Frame, o Outcome) {
	s := o.st
	ex.exits = append(ex.exits, s)
	ct := ex.ct
	ev := ex.contractEval(ct, ex.fn, s, ex.entry, fr.args)
	for _, w := range ct.Where {
		ev.vars[w.Name] = ex.entryVars[w.Name]
	}
	ev.entryVars = ex.entryVars
	if o.res != nil && (o.res.Tup == nil || len(o.res.Tup) > 0) {
		bindResults(ev, ct, o.res)
	}
	for _, h := range ct.Hints {
		if !ex.vr.clauseOn(h) {
			continue
		}
		if h.E.S == "reveal" || h.E.S == "old" && h.E.A[0].S == "reveal" {
			s.assume(ev.boolT(h.E))
		}
		for _, a := range ex.vr.spec.Axioms {
			if a.Lemma && a.Name == h.E.S {
				var as []*Val
				for _, x := range h.E.A {
					as = append(as, ev.eval(x))
				}
				r, e, _, _ := ex.vr.lemmaFormula(ex, s, ex.entry, a, as)
				s.assume(tImp(r, e))
			}
		}
	}
	pos := ex.fn.Blocks[0].Instrs[0]
	for _, e := range ct.Ens {
		if !ex.vr.clauseOn(e) {
			continue
		}
		t := ex.specBool(ev, e, ct)
		for _, g := range splitGoal(t) {
			ex.oblige(s, "ens", e.Src, pos, g, e.Tags)
		}
	}
	eff := ex.vr.effects(ex.fn)
	for _, n := range sortedKeys(s.heap) {
		so := s.heap[n].sort
		ex.heapSorts[n] = so
		h0 := ex.heapGet(ex.entry, n, so)
		if s.heap[n] == h0 {
			continue
		}
		if _, ok := eff[n]; !ok {
			ex.oblige(s, "effects", "generator: write to "+n+" not in the computed effect set", pos, tFalse, nil)
		}
		if ct.ModAll {
			continue
		}
		if n == "X:frozen" {
			// only watermarks of named arrays may move
			ex.oblige(s, "frame", "frame: "+n, pos, ex.frameFormula(n, ex.entry, s, ex.entry.alloc, ex.modsFor(n)), nil)
			continue
		}
		if strings.HasPrefix(n, "X:cb") {
			if len(ex.modsFor("X:cbn")) == 0 {
				ex.oblige(s, "frame", "frame: no callback is invoked", pos, tEq(s.heap[n], h0), nil)
			}
			continue
		}
		ex.oblige(s, "frame", "frame: "+n, pos, ex.frameFormula(n, ex.entry, s, ex.entry.alloc, ex.modsFor(n)), nil)
	}
	for c, v := range ex.entry.cells {
		nv := s.cells[c]
		if nv == nil || sameVal(v, nv) || ct.ModAll {
			continue
		}
		allowed := false
		for _, m := range ex.entryMods {
			if m.cell == c {
				allowed = true
			}
		}
		if !allowed {
			for i := range v.L {
				ex.oblige(s, "frame", "frame: *"+c.name, pos, tEq(v.L[i], nv.L[i]), nil)
			}
		}
	}
}

// splitGoal breaks conjunctions (also under implications) into separate goals.
func splitGoal(t *Term) []*Term {
	if t.op == "and" {
		var out []*Term
		for _, a := range t.args {
			out = append(out, splitGoal(a)...)
		}
		return out
	}
	if t.op == "=>" && len(t.args) == 2 {
		var out []*Term
		for _, g := range splitGoal(t.args[1]) {
			out = append(out, tImp(t.args[0], g))
		}
		return out
	}
	return []*Term{t}
}

var (
	quickTO = 2.0
	userTO  = 5.0
	finalTO = 6.0
	hardTO  = 25.0
)

func (vr *Verifier) verifyFunction(key string) *FnResult {
	t0 := time.Now()
	res := &FnResult{Key: key}
	fn := vr.funcs[key]
	ct := vr.spec.Contracts[key]
	cands := map[string]*Cand{}
	var ex *Exec
	maxRounds := 14
	for round := 0; ; round++ {
		symMu.Lock()
		ex = vr.runOnce(key, fn, ct, cands)
		var cobl []*Obligation
		for _, o := range ex.obls {
			if o.Cand != nil && !o.Cand.dropped {
				cobl = append(cobl, o)
			}
		}
		symMu.Unlock()
		res.Rounds = round + 1
		if len(cobl) == 0 {
			break
		}
		tr := time.Now()
		dropped := vr.prune(cobl)
		symMu.Lock()
		if verbose {
			fmt.Fprintf(os.Stderr, "  %s: round %d: %d candidate obligations, %d dropped, %.1fs\n", key, round, len(cobl), len(dropped), time.Since(tr).Seconds())
			for _, c := range dropped {
				if c.user {
					fmt.Fprintf(os.Stderr, "  %s: round %d drops %s [%s]\n", key, round, c.key, c.why)
				}
			}
		}
		symMu.Unlock()
		if len(dropped) == 0 {
			break
		}
		if round >= maxRounds {
			// give up on every candidate that still changes
			for _, c := range cands {
				c.dropped = true
			}
		}
		// candidates whose evaluation failed are dropped inside the run as well
	}
	var final []*Obligation
	for _, o := range ex.obls {
		if o.Cand == nil {
			final = append(final, o)
		} else {
			o.Res = solveResult{status: "unsat", solver: nameOr(o.Res.solver, "z3-5.3.2"), secs: o.Res.secs}
		}
	}
	vr.decide(final)
	res.Obls = ex.obls
	res.Loops = ex.nloops
	for _, c := range cands {
		res.Cands++
		if !c.dropped {
			res.Kept++
			if c.user {
				res.UserInv = append(res.UserInv, c.key)
			}
		} else if c.user {
			res.UserLost = append(res.UserLost, c.key+" ["+c.why+"]")
		}
	}
	sort.Strings(res.UserInv)
	sort.Strings(res.UserLost)
	res.Used = sortedKeys(ex.used)
	res.Inlined = sortedKeys(ex.inlined)
	res.Externs = sortedKeys(ex.externs)
	res.Unsup = ex.unsup
	if len(ex.unsup) == 0 {
		res.Vacuous = vr.vacuity(ex)
	}
	res.Secs = time.Since(t0).Seconds()
	return res
}

// vacuity: the precondition and at least one exit must not be refutable.
func (vr *Verifier) vacuity(ex *Exec) string {
	if _, ok := ex.ct.Flags["noreturn"]; ok {
		return ""
	}
	type q struct{ s string }
	symMu.Lock()
	entry := printQuery(ex.entry.facts.list(), tFalse)
	var exits []string
	for _, s := range ex.exits {
		exits = append(exits, printQuery(s.facts.list(), tFalse))
	}
	symMu.Unlock()
	if solve(entry, 0, 1.0).status == "unsat" {
		return "the precondition is contradictory"
	}
	if len(exits) == 0 {
		return "no exit is reachable"
	}
	// the shortest exit query first
	sort.Slice(exits, func(i, j int) bool { return len(exits[i]) < len(exits[j]) })
	for i, e := range exits {
		if i > 12 {
			break
		}
		if solve(e, 0, 1.0).status != "unsat" {
			return ""
		}
	}
	return "every exit is unreachable under the contract"
}

// ---- batches ----

type batch struct {
	obls []*Obligation
	q    string
}

const batchSize = 10

// few obligations: spread them over the cores
func sizeFor(n int) int {
	return min(batchSize, max(1, n/16))
}

func makeBatches(obls []*Obligation, size int) []*batch {
	groups := map[*Facts][]*Obligation{}
	var order []*Facts
	for _, o := range obls {
		if _, ok := groups[o.Facts]; !ok {
			order = append(order, o.Facts)
		}
		groups[o.Facts] = append(groups[o.Facts], o)
	}
	var out []*batch
	for _, f := range order {
		g := groups[f]
		for len(g) > 0 {
			n := size
			if n > len(g) {
				n = len(g)
			}
			out = append(out, &batch{obls: g[:n]})
			g = g[n:]
		}
	}
	return out
}

// prune decides candidate obligations and returns the candidates refuted or not proved.
func (vr *Verifier) prune(obls []*Obligation) []*Cand {
	bs := makeBatches(obls, sizeFor(len(obls)))
	symMu.Lock()
	for _, b := range bs {
		b.q = printBatch(b.obls)
	}
	symMu.Unlock()
	var wg sync.WaitGroup
	for _, b := range bs {
		wg.Add(1)
		go func(b *batch) {
			defer wg.Done()
			to := quickTO
			for _, o := range b.obls {
				if o.Cand.user {
					to = userTO
				}
			}
			sts := runBatch(b.q, len(b.obls), to)
			for i, o := range b.obls {
				o.Res = sts[i]
			}
		}(b)
	}
	wg.Wait()
	// second chance for user invariants: the portfolio
	var retry []*Obligation
	for _, o := range obls {
		if o.Cand.user && o.Res.status != "unsat" && o.Res.status != "sat" {
			retry = append(retry, o)
		}
	}
	qs := make([]string, len(retry))
	symMu.Lock()
	for i, o := range retry {
		qs[i] = printQuery(o.Facts.list(), o.Goal)
	}
	symMu.Unlock()
	for i, o := range retry {
		wg.Add(1)
		go func(i int, o *Obligation) {
			defer wg.Done()
			o.Res = solve(qs[i], 1, userTO)
		}(i, o)
	}
	wg.Wait()
	var out []*Cand
	seen := map[*Cand]bool{}
	for _, o := range obls {
		if o.Res.status != "unsat" && !seen[o.Cand] {
			seen[o.Cand] = true
			o.Cand.dropped = true
			o.Cand.why = fmt.Sprintf("%s at %s:%d: %s", o.Kind, shortFile(o.Pos.Filename), o.Pos.Line, o.Res.status)
			out = append(out, o.Cand)
			if verbose && o.Cand.user && dumpDir != "" {
				symMu.Lock()
				os.WriteFile(fmt.Sprintf("%s/cand%d.smt2", dumpDir, dumpN.Add(1)), []byte("; "+o.Cand.key+"\n"+z3Opts2+z3Sorts+printQuery(o.Facts.list(), o.Goal)), 0o644)
				symMu.Unlock()
			}
		}
	}
	return out
}

func shortFile(f string) string { return f[strings.LastIndex(f, "/")+1:] }

// decide discharges the obligations: batches first, then the portfolio one by one.
func (vr *Verifier) decide(obls []*Obligation) {
	var todo []*Obligation
	for _, o := range obls {
		if o.Res.status == "" {
			todo = append(todo, o)
		}
	}
	bs := makeBatches(todo, sizeFor(len(todo)))
	symMu.Lock()
	for _, b := range bs {
		b.q = printBatch(b.obls)
	}
	symMu.Unlock()
	var wg sync.WaitGroup
	run := func(bs []*batch, to float64) {
		for _, b := range bs {
			wg.Add(1)
			go func(b *batch) {
				defer wg.Done()
				sts := runBatch(b.q, len(b.obls), to)
				for i, o := range b.obls {
					o.Res = sts[i]
				}
			}(b)
		}
		wg.Wait()
	}
	// where much can be left out, first without it
	symMu.Lock()
	var light []*batch
	for _, b := range bs {
		var goals []*Term
		for _, o := range b.obls {
			goals = append(goals, o.Goal)
		}
		if q := printWeak(weaken{true, 1}, b.obls[0].Facts.list(), goals, true); len(q) < len(b.q)*3/4 {
			light = append(light, &batch{obls: b.obls, q: "(set-option :smt.case_split 3)\n" + q})
		}
	}
	symMu.Unlock()
	if len(light) > 0 {
		run(light, 1)
		var rest []*Obligation
		for _, o := range todo {
			if o.Res.status != "unsat" {
				rest = append(rest, o)
			}
		}
		bs = makeBatches(rest, sizeFor(len(rest)))
		symMu.Lock()
		for _, b := range bs {
			b.q = printBatch(b.obls)
		}
		symMu.Unlock()
	}
	run(bs, 3)
	var hard []*Obligation
	for _, o := range todo {
		if o.Res.status != "unsat" {
			hard = append(hard, o)
		}
	}
	if verbose {
		fmt.Fprintf(os.Stderr, "  %d obligations, %d left for the portfolio\n", len(todo), len(hard))
	}
	qs := make([]string, len(hard))
	weak := make([][]string, len(hard))
	cuts := map[*Facts][]*Term{}
	if len(hard) <= 40 {
		var mu sync.Mutex
		for _, o := range hard {
			mu.Lock()
			_, ok := cuts[o.Facts]
			if !ok {
				cuts[o.Facts] = nil
			}
			mu.Unlock()
			if ok || o.Goal == tFalse {
				continue
			}
			wg.Add(1)
			go func(f *Facts) {
				defer wg.Done()
				c := cutsFor(f.list())
				mu.Lock()
				cuts[f] = c
				mu.Unlock()
			}(o.Facts)
		}
		wg.Wait()
	}
	symMu.Lock()
	for i, o := range hard {
		fs := o.Facts.list()
		fs = append(fs[:len(fs):len(fs)], cuts[o.Facts]...)
		qs[i] = printQuery(fs, o.Goal)
		for _, w := range []weaken{{true, 1}, {true, 2}, {false, 2}} {
			if q := printWeak(w, fs, []*Term{o.Goal}, false); len(q) < len(qs[i])*9/10 {
				weak[i] = append(weak[i], q)
			}
		}
		if dumpDir != "" {
			os.WriteFile(fmt.Sprintf("%s/obl%d.smt2", dumpDir, dumpN.Add(1)), []byte("; "+o.Fn+" "+o.Kind+" "+o.Name+"\n"+z3Opts2+z3Sorts+qs[i]), 0o644)
		}
	}
	symMu.Unlock()
	budget := hardTO
	if len(hard) > 16 {
		budget = finalTO
	}
	for i, o := range hard {
		wg.Add(1)
		go func(i int, o *Obligation) {
			defer wg.Done()
			o.Res = solve(qs[i], 1, budget, weak[i]...)
		}(i, o)
	}
	wg.Wait()
	// a few left: the search depends on chance, try other seeds and settings
	left := 0
	for _, o := range hard {
		if o.Res.status != "unsat" && o.Goal != tFalse {
			left++
		}
	}
	if left == 0 || left > 8 {
		return
	}
	for i, o := range hard {
		if o.Res.status == "unsat" || o.Goal == tFalse {
			continue
		}
		wg.Add(1)
		go func(i int, o *Obligation) {
			defer wg.Done()
			if r := solve(qs[i], 2, budget); r.status == "unsat" {
				r.secs += o.Res.secs
				r.queries += o.Res.queries
				o.Res = r
			}
		}(i, o)
	}
	wg.Wait()
}

// cutsFor finds equalities, each proved from the facts, between a value the contract names (where) and the value a
// callee's contract gives the same name: lemmas that solvers rarely find inside a larger search.
func cutsFor(fs []*Term) []*Term {
	type w struct {
		t *Term
		n int
	}
	groups := map[string][]w{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if len(t.args) == 0 && strings.HasPrefix(t.op, "w_") {
			if i := strings.LastIndexByte(t.op, '!'); i > 0 {
				n, _ := strconv.Atoi(t.op[i+1:])
				k := t.op[:i] + " " + string(t.sort)
				groups[k] = append(groups[k], w{t, n})
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	symMu.Lock()
	for _, f := range fs {
		walk(f)
	}
	symMu.Unlock()
	var keys []string
	for k, g := range groups {
		if len(g) > 1 {
			keys = append(keys, k)
			sort.Slice(g, func(i, j int) bool { return g[i].n < g[j].n })
		}
	}
	sort.Strings(keys)
	var cuts []*Term
	got := map[*Term]bool{}
	tried := 0
	for round := 0; round < 2; round++ {
		found := 0
		for _, k := range keys {
			g := groups[k]
			for j := 1; j < len(g) && tried < 24; j++ {
				if got[g[j].t] {
					continue
				}
				tried++
				symMu.Lock()
				eq := tEq(g[0].t, g[j].t)
				q := printQuery(append(append([]*Term{}, fs...), cuts...), eq)
				symMu.Unlock()
				if round == 1 {
					q = "(set-option :smt.case_split 3)\n" + q
				}
				if solve(q, 0, 5).status == "unsat" {
					cuts = append(cuts, eq)
					got[g[j].t] = true
					found++
				}
			}
		}
		if found == 0 {
			break
		}
	}
	return cuts
}

// printBatch renders the common facts once and each goal as a push/pop check.
func printBatch(obls []*Obligation) string {
	var goals []*Term
	for _, o := range obls {
		goals = append(goals, o.Goal)
	}
	return printMulti(obls[0].Facts.list(), goals)
}

var batchCache = map[string][]solveResult{}

func runBatch(q string, n int, to float64) []solveResult {
	key := fmt.Sprintf("%g|%s", to, q)
	cacheMu.Lock()
	if r, ok := batchCache[key]; ok {
		cacheMu.Unlock()
		return r
	}
	cacheMu.Unlock()
	sem <- struct{}{}
	defer func() { <-sem }()
	t0 := time.Now()
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration((to*float64(n)+2)*float64(time.Second)))
	defer cancel()
	cmd := exec.CommandContext(ctx, "z3-new", "-in", "-memory:3000")
	cmd.Stdin = strings.NewReader(z3Opts2 + fmt.Sprintf("(set-option :timeout %d)\n", int(to*1000)) + z3Sorts + q)
	b, _ := cmd.Output()
	d := time.Since(t0).Seconds()
	solverSecs.Add(int64(d * 1e6))
	solverQueries.Add(int64(n))
	out := make([]solveResult, n)
	k := 0
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "(error") {
			fmt.Fprintln(os.Stderr, "SOLVER ERROR (batch)", l)
			if dumpDir != "" {
				os.WriteFile(fmt.Sprintf("%s/err%d.smt2", dumpDir, dumpN.Add(1)), []byte(z3Opts2+z3Sorts+q), 0o644)
			}
			k = n
			break
		}
		if l == "unsat" || l == "sat" || l == "unknown" || l == "timeout" {
			if k < n {
				out[k] = solveResult{status: l, solver: "z3-5.3.2", secs: d / float64(n), queries: 1}
			}
			k++
		}
	}
	for i := range out {
		if out[i].status == "" {
			out[i] = solveResult{status: "timeout", solver: "z3-5.3.2", secs: d / float64(n)}
		}
	}
	cacheMu.Lock()
	batchCache[key] = out
	cacheMu.Unlock()
	return out
}
