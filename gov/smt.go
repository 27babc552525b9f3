package main

// Printing queries as SMT-LIB and running the installed solvers.

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Axiom struct {
	name  string
	t     *Term
	syms  map[string]bool // symbols of the trigger (any of the sets); nil: always included
	sets  []map[string]bool
	pairs bool // a lemma about pairs of terms
}

var axioms []*Axiom

// exact definitions that only lemma proofs see
var lemmaOnly []*Axiom

func printLemma(facts []*Term, goal *Term) string {
	save := axioms
	axioms = append(append([]*Axiom(nil), axioms...), lemmaOnly...)
	defer func() { axioms = save }()
	return printQuery(facts, goal)
}

func addAxiom(name string, t *Term) { axioms = append(axioms, mkAxiom(name, t)) }

func mkAxiom(name string, t *Term) *Axiom {
	a := &Axiom{name: name, t: t}
	if strings.HasPrefix(name, "lemma-") {
		for _, tr := range t.trigs {
			if len(tr) > 1 {
				a.pairs = true
			}
		}
	}
	if t.op == "forall" && len(t.trigs) > 0 {
		for _, tr := range t.trigs {
			s := map[string]bool{}
			for _, x := range tr {
				symbols(x, map[*Term]bool{}, s)
			}
			a.sets = append(a.sets, s)
		}
	} else {
		s := map[string]bool{}
		symbols(t, map[*Term]bool{}, s)
		a.sets = append(a.sets, s)
	}
	return a
}

// printQuery renders facts and the negated goal.
func printQuery(facts []*Term, goal *Term) string { return printGoals(facts, []*Term{goal}, false) }

// A query may be weakened: fewer facts can only make a goal harder to prove, never wrongly provable.
type weaken struct {
	noLemmas bool // without the lemmas that relate pairs of terms
	maxVars  int  // without facts that quantify over more variables, or over more inside (0: keep all)
}

var weakening weaken

func printWeak(w weaken, facts []*Term, goals []*Term, multi bool) string {
	weakening = w
	defer func() { weakening = weaken{} }()
	var fs []*Term
	for _, f := range facts {
		if w.keep(f) {
			fs = append(fs, f)
		}
	}
	return printGoals(fs, goals, multi)
}

func (w weaken) keep(f *Term) bool {
	if w.maxVars == 0 || f.op != "forall" {
		return true
	}
	return len(f.bound) <= w.maxVars && !hasForall(f.args[0], map[*Term]bool{})
}

func hasForall(t *Term, seen map[*Term]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if t.op == "forall" || t.op == "exists" {
		return true
	}
	for _, a := range t.args {
		if hasForall(a, seen) {
			return true
		}
	}
	return false
}

// printMulti renders facts once and checks each goal between push and pop.
func printMulti(facts []*Term, goals []*Term) string { return printGoals(facts, goals, true) }

func printGoals(facts []*Term, goals []*Term, multi bool) string {
	used := map[string]bool{}
	seen := map[*Term]bool{}
	var all []*Term
	fs := map[*Term]bool{}
	for _, f := range facts {
		if f == tTrue || fs[f] {
			continue
		}
		fs[f] = true
		all = append(all, f)
		symbols(f, seen, used)
	}
	var ngs []*Term
	for _, g := range goals {
		ngs = append(ngs, tNot(g))
		symbols(tNot(g), seen, used)
	}
	inc := map[*Axiom]bool{}
	for changed := true; changed; {
		changed = false
		for _, a := range axioms {
			if inc[a] || weakening.noLemmas && a.pairs {
				continue
			}
			ok := false
			for _, set := range a.sets {
				m := true
				for s := range set {
					if !used[s] {
						m = false
						break
					}
				}
				if m {
					ok = true
					break
				}
			}
			if ok {
				inc[a] = true
				changed = true
				symbols(a.t, seen, used)
			}
		}
	}
	// string literal facts
	var lits []*Term
	for _, s := range strLitOrder {
		t := strLits[s]
		if used[t.op] {
			lits = append(lits, t)
		}
	}
	var extra []*Term
	needSat := used["sat"]
	for _, t := range lits {
		s := strLitOf[t]
		extra = append(extra, tEq(app("slen", SInt, t), tInt(int64(len(s)))))
		if needSat && len(s) <= 48 {
			for i := 0; i < len(s); i++ {
				extra = append(extra, tEq(app("sat", SInt, t, tInt(int64(i))), tInt(int64(s[i]))))
			}
		}
	}
	if len(lits) > 1 {
		extra = append(extra, mk("distinct", SBool, lits...))
	}
	for _, e := range extra {
		symbols(e, seen, used)
	}
	var axs []*Term
	for _, a := range axioms {
		if inc[a] {
			axs = append(axs, a.t)
		}
	}
	var sb strings.Builder
	for _, d := range declOrder {
		if !used[d.name] {
			continue
		}
		sb.WriteString("(declare-fun " + d.name + " (")
		for i, a := range d.args {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(string(a))
		}
		sb.WriteString(") " + string(d.ret) + ")\n")
	}
	// sharing
	cnt := map[*Term]int{}
	var order []*Term
	var visit func(t *Term)
	visit = func(t *Term) {
		cnt[t]++
		if cnt[t] > 1 {
			return
		}
		for _, a := range t.args {
			visit(a)
		}
		for _, tr := range t.trigs {
			for _, x := range tr {
				visit(x)
			}
		}
		order = append(order, t)
	}
	groups := [][]*Term{axs, extra, all, ngs}
	for _, g := range groups {
		for _, t := range g {
			visit(t)
		}
	}
	named := map[*Term]string{}
	k := 0
	for _, t := range order {
		if cnt[t] > 1 && !containsBound(t) && len(t.args) > 0 && t.size > 4 {
			n := fmt.Sprintf("n!%d", k)
			k++
			fmt.Fprintf(&sb, "(define-fun %s () %s ", n, t.sort)
			t.write(&sb, named)
			sb.WriteString(")\n")
			named[t] = n
		}
	}
	for gi, g := range groups {
		for _, t := range g {
			if gi == 3 && multi {
				sb.WriteString("(push)\n")
			}
			sb.WriteString("(assert ")
			t.write(&sb, named)
			sb.WriteString(")\n")
			if gi == 3 && multi {
				sb.WriteString("(check-sat)\n(pop)\n")
			}
		}
	}
	if !multi {
		sb.WriteString("(check-sat)\n")
	}
	return sb.String()
}

func containsBound(t *Term) bool { return t.hasBound }

const z3Opts = "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.case_split 3)\n(set-option :smt.delay_units true)\n(set-option :smt.qi.eager_threshold 100)\n(set-option :smt.arith.solver 2)\n"
const z3Opts2 = "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.qi.eager_threshold 50)\n"
const z3Opts3 = z3Opts2 + "(set-option :smt.case_split 3)\n"
const z3Sorts = "(declare-sort Str 0)\n(declare-sort F64 0)\n"

type solveResult struct {
	status  string // unsat, sat, unknown, timeout
	solver  string
	secs    float64
	out     string
	queries int
}

var solverSecs atomic.Int64 // microseconds
var solverQueries atomic.Int64
var cacheMu sync.Mutex
var solveCache = map[[32]byte]solveResult{}

var sem = make(chan struct{}, 8)

func runSolver(ctx context.Context, name string, args []string, in string, to float64) (string, string, float64) {
	sem <- struct{}{}
	defer func() { <-sem }()
	c, cancel := context.WithTimeout(ctx, time.Duration((to+1)*float64(time.Second)))
	defer cancel()
	t0 := time.Now()
	cmd := exec.CommandContext(c, name, args...)
	cmd.Stdin = strings.NewReader(in)
	var ob bytes.Buffer
	cmd.Stdout = &ob
	cmd.Stderr = &ob
	_ = cmd.Run()
	d := time.Since(t0).Seconds()
	solverSecs.Add(int64(d * 1e6))
	solverQueries.Add(1)
	out := ob.String()
	st := "unknown"
	for _, l := range strings.Split(out, "\n") {
		l = strings.TrimSpace(l)
		if l == "unsat" || l == "sat" || l == "unknown" || l == "timeout" {
			st = l
			break
		}
		if strings.HasPrefix(l, "(error") {
			st = "error"
			break
		}
	}
	if c.Err() != nil {
		st = "timeout"
	}
	return st, out, d
}

var dumpDir = os.Getenv("GOV_DUMP")
var dumpN atomic.Int64

// solve decides validity of facts => goal.  level 0: one quick solver (used when pruning candidates); 1: full portfolio
func solve(q string, level int, to float64, weak ...string) solveResult {
	h := sha256.Sum256([]byte(fmt.Sprintf("%d|%s", level, q)))
	cacheMu.Lock()
	if r, ok := solveCache[h]; ok {
		cacheMu.Unlock()
		return r
	}
	cacheMu.Unlock()
	r := solve1(q, level, to, weak)
	cacheMu.Lock()
	solveCache[h] = r
	cacheMu.Unlock()
	return r
}

// proofDeadline bounds the whole proof: what is left when it passes counts as not discharged
var proofDeadline time.Time

func solve1(q string, level int, to float64, weak []string) solveResult {
	if !proofDeadline.IsZero() && time.Now().After(proofDeadline) {
		return solveResult{"timeout", "-", 0, "time budget of the proof used up", 0}
	}
	type conf struct {
		name string
		args []string
		pre  string
		lab  string
		to   float64
		q    string
	}
	ts := func(f float64) string { return fmt.Sprintf("-T:%d", int(f+0.999)) }
	confs := []conf{{"z3-new", []string{"-in", ts(to)}, z3Opts2, "z3-5.3.2", to, q}}
	if level == 2 {
		confs = []conf{
			{"z3-new", []string{"-in", ts(to)}, z3Opts2 + "(set-option :smt.random_seed 11)\n", "z3-5.3.2/seed11", to, q},
			{"z3-new", []string{"-in", ts(to)}, z3Opts2 + "(set-option :smt.random_seed 23)\n(set-option :smt.relevancy 0)\n", "z3-5.3.2/relevancy0", to, q},
			{"z3-new", []string{"-in", ts(to)}, "(set-option :smt.random_seed 5)\n", "z3-5.3.2/default", to, q},
			{"z3-new", []string{"-in", ts(to)}, z3Opts3 + "(set-option :smt.random_seed 7)\n", "z3-5.3.2/split3-seed7", to, q},
		}
	} else if level >= 1 {
		for i, w := range weak {
			confs = append(confs, conf{"z3-new", []string{"-in", ts(to)}, z3Opts3, fmt.Sprintf("z3-5.3.2/fewer-facts%d", i+1), to, w})
		}
		confs = append(confs,
			conf{"z3-new", []string{"-in", ts(to)}, z3Opts3, "z3-5.3.2/split3", to, q},
			conf{"z3", []string{"-in", ts(to)}, z3Opts2, "z3-4.8.12", to, q},
			conf{"z3-new", []string{"-in", ts(to)}, z3Opts, "z3-5.3.2/arith2", to, q},
			conf{"cvc5", []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", int(to*1000))}, "(set-logic ALL)\n", "cvc5-1.1.2", to, q},
		)
	}
	// the first configuration alone for a moment, then all of them at once
	type ans struct {
		i       int
		st, out string
		d       float64
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := make(chan ans, len(confs))
	run := func(i int) {
		c := confs[i]
		st, out, d := runSolver(ctx, c.name, c.args, c.pre+z3Sorts+c.q, c.to)
		ch <- ans{i, st, out, d}
	}
	go run(0)
	started, got := 1, 0
	var last solveResult
	tot := 0.0
	grace := time.After(1500 * time.Millisecond)
	startAll := func() {
		for ; started < len(confs); started++ {
			go run(started)
		}
	}
	for got < started {
		select {
		case <-grace:
			startAll()
		case a := <-ch:
			got++
			tot += a.d
			if a.st == "error" {
				fmt.Fprintln(os.Stderr, "SOLVER ERROR", confs[a.i].lab, firstLines(a.out, 3))
				if dumpDir != "" {
					os.WriteFile(fmt.Sprintf("%s/err%d.smt2", dumpDir, dumpN.Add(1)), []byte(confs[a.i].pre+z3Sorts+confs[a.i].q), 0o644)
				}
			}
			if a.st == "unsat" {
				return solveResult{"unsat", confs[a.i].lab, tot, "", got}
			}
			if a.i == 0 || last.status == "error" || last.status == "" {
				last = solveResult{a.st, confs[a.i].lab, tot, firstLines(a.out, 4), got}
			}
			last.secs = tot
			startAll()
		}
	}
	return last
}

func firstLines(s string, n int) string {
	ls := strings.Split(s, "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, "\n")
}
