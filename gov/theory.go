package main

// Specification functions, axioms and lemmas.

import (
	"fmt"
	"strings"
)

func (vr *Verifier) specRec() map[string]map[string]bool {
	ment := map[string][]string{}
	for _, n := range vr.spec.FnOrder {
		f := vr.spec.Fns[n]
		if f.Body == nil {
			continue
		}
		set := map[string]bool{}
		collectCalls(f.Body, set)
		for m := range set {
			if _, ok := vr.spec.Fns[m]; ok {
				ment[n] = append(ment[n], m)
			}
		}
	}
	reach := map[string]map[string]bool{}
	for _, n := range vr.spec.FnOrder {
		r := map[string]bool{}
		st := append([]string(nil), ment[n]...)
		for len(st) > 0 {
			x := st[len(st)-1]
			st = st[:len(st)-1]
			if r[x] {
				continue
			}
			r[x] = true
			st = append(st, ment[x]...)
		}
		reach[n] = r
	}
	out := map[string]map[string]bool{}
	for _, n := range vr.spec.FnOrder {
		l := map[string]bool{}
		for m := range reach[n] {
			if reach[m][n] {
				l[m] = true
			}
		}
		out[n] = l
	}
	return out
}

func collectCalls(e *Expr, out map[string]bool) {
	if e == nil {
		return
	}
	if e.Op == "call" || e.Op == "id" {
		out[e.S] = true
	}
	for _, a := range e.A {
		collectCalls(a, out)
	}
}

// setupTheory installs the definitional axioms and collects lemma obligations.
func (vr *Verifier) setupTheory() []*pending {
	ex := newExec(vr, nil, nil, nil)
	rec := vr.specRec()
	limUsed := map[string]bool{}
	for _, n := range vr.spec.FnOrder {
		for m := range rec[n] {
			limUsed[m] = true
		}
	}
	{
		x := boundVar("x", SInt)
		m, h := pow2(64), pow2(63)
		u, w := app("wu64", SInt, x), app("wi64", SInt, x)
		addAxiom("wrap-u64", tForall([]*Term{x}, [][]*Term{{u}}, tAnd(tLe(tInt(0), u), tLt(u, m),
			tImp(tAnd(tLe(tInt(0), x), tLt(x, m)), tEq(u, x)),
			tImp(tAnd(tLe(tNeg(m), x), tLt(x, tInt(0))), tEq(u, tAdd(x, m))),
			tImp(tAnd(tLe(m, x), tLt(x, tAdd(m, m))), tEq(u, tSub(x, m))))))
		addAxiom("wrap-i64", tForall([]*Term{x}, [][]*Term{{w}}, tAnd(tLe(tNeg(h), w), tLt(w, h),
			tImp(tAnd(tLe(tNeg(h), x), tLt(x, h)), tEq(w, x)),
			tImp(tAnd(tLe(tNeg(m), x), tLt(x, tNeg(h))), tEq(w, tAdd(x, m))),
			tImp(tAnd(tLe(h, x), tLt(x, m)), tEq(w, tSub(x, m))))))
		lemmaOnly = append(lemmaOnly, mkAxiom("wrap-u64-def", tForall([]*Term{x}, [][]*Term{{u}}, tEq(u, tMod(x, m)))),
			mkAxiom("wrap-i64-def", tForall([]*Term{x}, [][]*Term{{w}}, tEq(w, tSub(tMod(tAdd(x, h), m), h)))))
	}
	if et := vr.typeByName("Error"); et != nil {
		// the library's error type is a string without Is or Unwrap methods
		tag := vr.typeTag(et)
		p, u, q := boundVar("p", SInt), boundVar("u", SInt), boundVar("q", SInt)
		e := errIs([]*Term{tag, p}, []*Term{u, q})
		addAxiom("errIs-Error", tForall([]*Term{p, u, q}, [][]*Term{{e}}, tEq(e, tAnd(tEq(tag, u), tEq(p, q)))))
	}
	st := &State{alloc: tInt(0), heap: map[string]*Term{}, cells: map[*Cell]*Val{}}
	vr.heapReads(ex)
	for _, n := range vr.spec.FnOrder {
		f := vr.spec.Fns[n]
		if f.Macro {
			continue
		}
		fst := st
		if f.Heap {
			fst = specState("h", boundVar, nil)
			fst.alloc = tInt(0)
		}
		ev := &Eval{ex: ex, st: fst, pure: true, vars: map[string]*Val{}}
		bv, args := ev.binders(f.Params, boundVar)
		for i, p := range f.Params {
			ev.vars[p.Name] = args[i]
		}
		head := ev.specCall(f, args)
		for _, n := range f.Reads {
			bv = append(bv, fst.heap[n])
		}
		if limUsed[n] {
			l := *ev
			l.lim = map[string]bool{n: true}
			lh := l.specCall(f, args)
			addAxiom("lim-"+n, tForall(bv, [][]*Term{{head.t()}}, tEq(head.t(), lh.t())))
		}
		if f.Body == nil {
			continue
		}
		b := *ev
		b.lim = rec[n]
		body := b.eval(f.Body)
		if len(body.L) == 1 && isNilVal(body) {
			body = mathVal(tInt(0))
		}
		if body.t().sort != head.t().sort {
			panic("contract syntax: body of " + n + " has the wrong sort")
		}
		if f.Opaque {
			rv := ev.revealTerm(f, args)
			addAxiom("def-"+n, tForall(bv, [][]*Term{{rv}}, tAnd(rv, tEq(head.t(), body.t()))))
		} else if len(bv) == 0 {
			addAxiom("def-"+n, tEq(head.t(), body.t()))
		} else {
			addAxiom("def-"+n, tForall(bv, [][]*Term{{head.t()}}, tEq(head.t(), body.t())))
		}
	}
	var out []*pending
	for _, a := range vr.spec.Axioms {
		if !a.Lemma {
			if len(a.Tags) > 0 && !hasTag(a.Tags, vr.prop) {
				continue
			}
			ev := &Eval{ex: ex, st: st, pure: true, vars: map[string]*Val{}}
			addAxiom("axiom-"+a.Name, ev.boolT(a.E))
			vr.assumedAxioms = append(vr.assumedAxioms, a.Name+": "+exprStr(a.E))
			continue
		}
		out = append(out, vr.lemma(ex, st, a)...)
	}
	return out
}

func hasTag(ts []string, p string) bool {
	for _, t := range ts {
		if t == p {
			return true
		}
	}
	return false
}

// specState is a state that exists only in specifications: heap entries are made on demand
func specState(pre string, mk func(string, Sort) *Term, made *[]*Term) *State {
	st := &State{heap: map[string]*Term{}, cells: map[*Cell]*Val{}}
	st.hook = func(name string, s Sort) *Term {
		t := mk(pre+":"+name, s)
		if made != nil {
			*made = append(*made, t)
		}
		return t
	}
	st.alloc = mk(pre+":alloc", SInt)
	if made != nil {
		*made = append(*made, st.alloc)
	}
	return st
}

// binders makes one variable per leaf of each parameter
func (ev *Eval) binders(ps []Binder, mk func(string, Sort) *Term) (bv []*Term, args []*Val) {
	for _, p := range ps {
		ss, ty := ev.paramSorts(p.Type)
		v := &Val{T: ty}
		for i, s := range ss {
			nm := p.Name
			if len(ss) > 1 {
				nm = fmt.Sprintf("%s.%d", p.Name, i)
			}
			t := mk(nm, s)
			bv = append(bv, t)
			v.L = append(v.L, t)
		}
		if ty != nil && len(leaves(ty)) == 4 && len(v.L) == 3 {
			v.L = append(v.L, v.L[2]) // the capacity is not visible to specification functions
		}
		args = append(args, v)
	}
	return
}

// heapReads computes which heap entries every heap-dependent function reads (least fixpoint).
func (vr *Verifier) heapReads(ex *Exec) {
	defer func() { vr.readsRound = 0 }()
	for {
		vr.readsRound++
		changed := false
		for _, n := range vr.spec.FnOrder {
			f := vr.spec.Fns[n]
			if !f.Heap || f.Body == nil {
				continue
			}
			if f.ReadSorts == nil {
				f.ReadSorts = map[string]Sort{}
			}
			st := specState("r", boundVar, nil)
			ev := &Eval{ex: ex, st: st, pure: true, vars: map[string]*Val{}}
			_, args := ev.binders(f.Params, boundVar)
			for i, p := range f.Params {
				ev.vars[p.Name] = args[i]
			}
			ev.eval(f.Body)
			for h, t := range st.heap {
				if _, ok := f.ReadSorts[h]; !ok {
					f.ReadSorts[h] = t.sort
					changed = true
				}
			}
			f.Reads = sortedKeys(f.ReadSorts)
		}
		if !changed {
			return
		}
	}
}

func (vr *Verifier) lemmaFormula(ex *Exec, st, old *State, a *SpecAxiom, args []*Val) (req, ens, meas *Term, trigs [][]*Term) {
	ev := &Eval{ex: ex, st: st, old: old, pure: true, vars: map[string]*Val{}}
	if len(args) != len(a.Params) {
		panic("contract syntax: lemma " + a.Name + " used with the wrong number of arguments")
	}
	for i, p := range a.Params {
		_, ty := ev.paramSorts(p.Type)
		ev.vars[p.Name] = &Val{T: ty, L: args[i].L}
	}
	var rs, es []*Term
	for _, r := range a.Req {
		rs = append(rs, ev.boolT(r))
	}
	for _, e := range a.Ens {
		es = append(es, ev.boolT(e))
	}
	if a.Ind != nil {
		meas = ev.intT(a.Ind)
	}
	for _, tr := range a.Trig {
		var ts []*Term
		for _, t := range tr {
			ts = append(ts, ev.eval(t).t())
		}
		trigs = append(trigs, ts)
	}
	return tAnd(rs...), tAnd(es...), meas, trigs
}

func (vr *Verifier) lemma(ex *Exec, _ *State, a *SpecAxiom) []*pending {
	mkc := func(n string, s Sort) *Term { return constant("lem:"+a.Name+":"+n, s) }
	st, ost := specState("h", mkc, nil), specState("o", mkc, nil)
	ev := &Eval{ex: ex, st: st, old: ost, pure: true, vars: map[string]*Val{}}
	_, cs := ev.binders(a.Params, mkc)
	var extra []*Term
	bst, bost := specState("h", boundVar, &extra), specState("o", boundVar, &extra)
	bs, bargs := ev.binders(a.Params, boundVar)
	for i, p := range a.Params {
		ev.vars[p.Name] = cs[i]
	}
	req, _, meas, _ := vr.lemmaFormula(ex, st, ost, a, cs)
	breq, bens, bmeas, btrig := vr.lemmaFormula(ex, bst, bost, a, bargs)
	used := map[*Term]bool{}
	var mark func(t *Term)
	seen := map[*Term]bool{}
	mark = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		used[t] = true
		for _, x := range t.args {
			mark(x)
		}
		for _, tr := range t.trigs {
			for _, x := range tr {
				mark(x)
			}
		}
	}
	mark(breq)
	mark(bens)
	mark(bmeas)
	for _, tr := range btrig {
		for _, x := range tr {
			mark(x)
		}
	}
	for _, x := range extra {
		if used[x] {
			bs = append(bs, x)
		}
	}
	facts := []*Term{req}
	if a.Ind != nil {
		facts = append(facts, tLe(tInt(0), meas))
		if len(btrig) > 0 {
			facts = append(facts, tForall(bs, btrig, tImp(tAnd(tLe(tInt(0), bmeas), tLt(bmeas, meas), breq), bens)))
		}
	}
	for _, u := range a.Uses {
		if u.S == "reveal" {
			facts = append(facts, ev.boolT(u))
			continue
		}
		var src *SpecAxiom
		for _, b := range vr.spec.Axioms {
			if b.Lemma && b.Name == u.S {
				src = b
			}
			if b == a {
				break
			}
		}
		if src == nil {
			panic("contract syntax: lemma " + a.Name + " uses unknown or later lemma " + u.S)
		}
		var as []*Val
		for _, x := range u.A {
			as = append(as, ev.eval(x))
		}
		r, e, m, _ := vr.lemmaFormula(ex, st, ost, src, as)
		if src == a {
			r = tAnd(r, tLe(tInt(0), m), tLt(m, meas))
		}
		facts = append(facts, tImp(r, e))
	}
	var out []*pending
	// one obligation per conclusion; the query is printed now, so that only earlier lemmas are available
	for i := range a.Ens {
		sub := *a
		sub.Ens = a.Ens[i : i+1]
		_, e, _, _ := vr.lemmaFormula(ex, st, ost, &sub, cs)
		o := &Obligation{Name: "lemma " + a.Name + ": " + strings.TrimSpace(exprStr(a.Ens[i])), Kind: "lemma", Fn: "lemma:" + a.Name, Goal: e}
		out = append(out, &pending{o: o, q: printLemma(facts, e)})
	}
	if len(btrig) > 0 {
		addAxiom("lemma-"+a.Name, tForall(bs, btrig, tImp(breq, bens)))
	}
	return out
}

type pending struct {
	o *Obligation
	q string
}

var _ = fmt.Sprint

// revealTerm is a proposition that is true and that makes the definition of an opaque function available for args.
func (ev *Eval) revealTerm(f *SpecFn, args []*Val) *Term {
	t := ev.specCall(f, args).t()
	return app("reveal_"+f.Name, SBool, t.args...)
}
