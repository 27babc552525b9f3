package main

// Loops: discovery of natural loops, havoc sets, candidate invariants (Houdini).

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"runtime"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loopT struct {
	hdr   *ssa.BasicBlock
	body  map[*ssa.BasicBlock]bool
	order []*ssa.BasicBlock
	idx   int
}

type loopInfo struct {
	headers map[*ssa.BasicBlock]*loopT
	order   []*ssa.BasicBlock
	refs    map[string][]dref
}

type dref struct {
	b *ssa.BasicBlock
	i int
	v ssa.Value
}

func (li *loopInfo) isBack(from, to *ssa.BasicBlock) bool {
	l := li.headers[to]
	return l != nil && l.body[from]
}

func (vr *Verifier) loopsOf(fn *ssa.Function) *loopInfo {
	if li, ok := vr.loopCache[fn]; ok {
		return li
	}
	li := &loopInfo{headers: map[*ssa.BasicBlock]*loopT{}, refs: map[string][]dref{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.headers[s]
				if l == nil {
					l = &loopT{hdr: s, body: map[*ssa.BasicBlock]bool{s: true}}
					li.headers[s] = l
				}
				// natural loop body
				st := []*ssa.BasicBlock{b}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					if l.body[x] {
						continue
					}
					l.body[x] = true
					st = append(st, x.Preds...)
				}
			}
		}
	}
	// topological order of the loop-cut graph (reverse postorder)
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		// visit loop exits first so that loop bodies precede them in reverse postorder
		succs := append([]*ssa.BasicBlock(nil), b.Succs...)
		sort.SliceStable(succs, func(i, j int) bool {
			return li.depth(succs[i]) < li.depth(succs[j])
		})
		for _, s := range succs {
			if li.headers[s] != nil && s.Dominates(b) {
				continue
			}
			dfs(s)
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		li.order = append(li.order, post[i])
	}
	k := 0
	for _, b := range li.order {
		if l := li.headers[b]; l != nil {
			l.idx = k
			k++
			for _, x := range li.order {
				if l.body[x] {
					l.order = append(l.order, x)
				}
			}
		}
	}
	for _, b := range fn.Blocks {
		for i, in := range b.Instrs {
			if d, ok := in.(*ssa.DebugRef); ok && !d.IsAddr {
				if id, ok := d.Expr.(*ast.Ident); ok {
					li.refs[id.Name] = append(li.refs[id.Name], dref{b, i, d.X})
				}
			}
		}
	}
	vr.loopCache[fn] = li
	return li
}

func (li *loopInfo) depth(b *ssa.BasicBlock) int {
	d := 0
	for _, l := range li.headers {
		if l.body[b] {
			d++
		}
	}
	return d
}

type loopCtx struct {
	fr    *Frame
	hdr   *ssa.BasicBlock
	st    *State // state at the (havocked) header
	pre   *State
	cands []*candInst
	iter  *Iter
	key   string
	decV  *Term
	dec   func(s *State) *Term
}

type candInst struct {
	c *Cand
	f func(s *State) *Term
}

// havocLoop builds the header state: phis, modified heap maps, cells are arbitrary.
func (ex *Exec) havocLoop(fr *Frame, b *ssa.BasicBlock, s *State, heap map[string]bool, cells map[*Cell]bool, alloc bool) *State {
	h := s.clone()
	if alloc {
		a := freshConst("alloc", SInt)
		h.assume(tLe(s.alloc, a))
		h.alloc = a
	}
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := s.env[p]
		if v.P != nil || v.It != nil {
			panic(unsupported{"loop-carried interior pointer"})
		}
		h.env[p] = ex.freshVal(h, nameOr(p.Comment, p.Name()), p.Type())
		for i, l := range leaves(p.Type()) {
			if l.Comp == "" && l.Sort == SInt && l.Arr == 0 {
				noteRange(h.env[p].L[i], l.T)
			}
		}
	}
	var ns []string
	for n := range heap {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		h.heap[n] = freshConst("L:"+n, ex.heapSorts[n])
	}
	var cs []*Cell
	for c := range cells {
		cs = append(cs, c)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
	for _, c := range cs {
		if c.T == nil {
			nv := &Val{}
			for _, l := range s.cells[c].L {
				nv.L = append(nv.L, freshConst("vis", l.sort))
			}
			if len(nv.L) == 3 {
				h.assume(tLe(tInt(0), nv.L[2]))
			}
			h.cells[c] = nv
			continue
		}
		if ov := s.cells[c]; ov != nil && ov.P != nil {
			panic(unsupported{"loop-carried pointer cell"})
		}
		h.cells[c] = ex.freshVal(h, nameOr(c.name, "cell"), c.T)
	}
	return h
}

func nameOr(a, b string) string {
	if a != "" {
		return a
	}
	return b
}

func (ex *Exec) enterLoop(fr *Frame, b *ssa.BasicBlock, s *State) *loopCtx {
	l := fr.loops.headers[b]
	key := fmt.Sprintf("%s/%s#%d", fr.callID, fr.fn.Name(), l.idx)
	heap := map[string]bool{}
	cells := map[*Cell]bool{}
	alloc := false
	// discover what the body modifies
	for round := 0; round < 8; round++ {
		h := ex.havocLoop(fr, b, s, heap, cells, alloc)
		ex.dry++
		nobl := len(ex.obls)
		changed := false
		chk := func(_ *ssa.BasicBlock, e *State) {
			for n, t := range e.heap {
				if heap[n] {
					continue
				}
				o, ok := h.heap[n]
				if !ok {
					o = ex.initHeap(n, t.sort)
				}
				if o != t {
					heap[n] = true
					changed = true
				}
			}
			for c, v := range e.cells {
				if o, ok := h.cells[c]; ok && !cells[c] && !sameVal(o, v) {
					cells[c] = true
					changed = true
				}
			}
			if e.alloc != h.alloc && !alloc {
				alloc = true
				changed = true
			}
		}
		in := map[*ssa.BasicBlock][]*State{b: {h.clone()}}
		ex.regionB(fr, l.order, in, b, chk, func(*ssa.BasicBlock, *State) {}, func(*State, *Val) {})
		ex.dry--
		ex.obls = ex.obls[:nobl]
		if !changed {
			break
		}
	}
	lc := &loopCtx{fr: fr, hdr: b, pre: s, key: key}
	if ex.dry == 0 {
		ex.nloops++
	}
	// iterator of the range loop, if any
	for _, in := range b.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			lc.iter = ex.val(fr, s, n.Iter).It
		}
	}
	h := ex.havocLoop(fr, b, s, heap, cells, alloc)
	lc.st = h
	ex.makeCands(lc, l, heap, cells)
	for _, ci := range lc.cands {
		t := ex.evalCand(ci, s)
		if t == nil {
			continue
		}
		if ex.dry == 0 {
			ex.obligeCand(s, "inv-init", key+": "+ci.c.text, b.Instrs[0], t, ci.c)
		}
	}
	for _, ci := range lc.cands {
		t := ex.evalCand(ci, h)
		if t == nil {
			continue
		}
		h.assume(t)
	}
	if lc.dec != nil {
		lc.decV = lc.dec(h)
	}
	return lc
}

func (ex *Exec) evalCand(ci *candInst, s *State) (t *Term) {
	if ci.c.dropped {
		return nil
	}
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(specErr); ok {
				ci.c.dropped = true
				ci.c.why = string(e)
				t = nil
				return
			}
			if _, ok := r.(runtime.Error); ok { // refers to a variable that has no value here
				ci.c.dropped = true
				ci.c.why = "a variable has no value here"
				t = nil
				return
			}
			panic(r)
		}
	}()
	return ci.f(s)
}

func (ex *Exec) obligeCand(st *State, kind, name string, in ssa.Instruction, goal *Term, c *Cand) {
	if st.dead || goal == tTrue {
		return
	}
	ex.obls = append(ex.obls, &Obligation{Name: name, Kind: kind, Fn: ex.fn.Name(), Pos: ex.posOf(in), Facts: st.facts, Goal: goal, Cand: c})
}

func (ex *Exec) loopPreserve(fr *Frame, lc *loopCtx, s *State) {
	if ex.dry > 0 {
		return
	}
	for _, ci := range lc.cands {
		t := ex.evalCand(ci, s)
		if t == nil {
			continue
		}
		ex.obligeCand(s, "inv-keep", lc.key+": "+ci.c.text, lc.hdr.Instrs[0], t, ci.c)
	}
	if lc.dec != nil {
		d := lc.dec(s)
		ex.oblige(s, "loop-decreases", lc.key+": loop measure decreases", lc.hdr.Instrs[0], tAnd(tLe(tInt(0), lc.decV), tLt(d, lc.decV)), nil)
	}
}

// loopVar is a program variable visible at a loop header.
type loopVar struct {
	name string
	T    types.Type
	get  func(s *State) *Val
	mod  bool // changes in the loop (phi or cell)
	rank int
}

func (ex *Exec) loopVars(lc *loopCtx) []loopVar {
	var out []loopVar
	seen := map[string]bool{}
	fr, b := lc.fr, lc.hdr
	add := func(v loopVar) {
		if v.name == "" || v.T == nil {
			return
		}
		k := v.name
		if seen[k] {
			return
		}
		seen[k] = true
		out = append(out, v)
	}
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		p2 := p
		add(loopVar{nameOr(p.Comment, p.Name()), p.Type(), func(s *State) *Val { return s.env[p2] }, true, 0})
	}
	// cells in scope
	var allocs []*ssa.Alloc
	for v := range lc.pre.env {
		if a, ok := v.(*ssa.Alloc); ok && lc.pre.env[v].P != nil && lc.pre.env[v].P.kind == 'c' {
			allocs = append(allocs, a)
		}
	}
	sort.Slice(allocs, func(i, j int) bool { return allocs[i].Pos() < allocs[j].Pos() })
	for _, a := range allocs {
		c := lc.pre.env[a].P.cell
		add(loopVar{a.Comment, c.T, func(s *State) *Val { return s.cells[c] }, true, 0})
	}
	// records of this function that live on the heap, by their address
	var heaps []*ssa.Alloc
	for v := range lc.pre.env {
		if a, ok := v.(*ssa.Alloc); ok && a.Heap && lc.pre.env[v].P == nil && len(lc.pre.env[v].L) == 1 {
			heaps = append(heaps, a)
		}
	}
	sort.Slice(heaps, func(i, j int) bool { return heaps[i].Pos() < heaps[j].Pos() })
	for _, a := range heaps {
		v := lc.pre.env[a]
		add(loopVar{"&" + a.Comment, a.Type(), func(*State) *Val { return v }, false, 1})
	}
	ex.scopeVars(fr, b, lc.pre, add)
	// enclosing frames
	for f := fr; f.parent != nil; f = f.parent {
		env := f.callerEnv
		pf := f.parent
		tmp := &State{env: env}
		var al []*ssa.Alloc
		for v := range env {
			if a, ok := v.(*ssa.Alloc); ok && env[v].P != nil && env[v].P.kind == 'c' {
				al = append(al, a)
			}
		}
		sort.Slice(al, func(i, j int) bool { return al[i].Pos() < al[j].Pos() })
		for _, a := range al {
			c := env[a].P.cell
			add(loopVar{a.Comment, c.T, func(s *State) *Val { return s.cells[c] }, true, 1})
		}
		var ph []*ssa.Phi
		for v := range env {
			if p, ok := v.(*ssa.Phi); ok {
				ph = append(ph, p)
			}
		}
		sort.Slice(ph, func(i, j int) bool { return ph[i].Block().Index > ph[j].Block().Index })
		for _, p := range ph {
			v := env[p]
			add(loopVar{nameOr(p.Comment, p.Name()), p.Type(), func(*State) *Val { return v }, false, 1})
		}
		ex.scopeVars(pf, f.callBlock, tmp, add)
	}
	return out
}

func (ex *Exec) scopeVars(fr *Frame, b *ssa.BasicBlock, st *State, add func(loopVar)) {
	for i, fv := range fr.fn.FreeVars {
		bv := fr.binds[i]
		if bv.P != nil && bv.P.kind == 'c' {
			c := bv.P.cell
			add(loopVar{fv.Name(), c.T, func(s *State) *Val { return s.cells[c] }, true, 1})
		} else {
			add(loopVar{fv.Name(), fv.Type(), func(*State) *Val { return bv }, false, 1})
		}
	}
	for i, p := range fr.fn.Params {
		v := fr.args[i]
		add(loopVar{p.Name(), p.Type(), func(*State) *Val { return v }, false, 1})
	}
	for _, name := range sortedKeys(fr.loops.refs) {
		var best *dref
		for k := range fr.loops.refs[name] {
			d := &fr.loops.refs[name][k]
			if b == nil || d.b == b || !d.b.Dominates(b) {
				continue
			}
			if _, ok := st.env[d.v]; !ok {
				if _, isC := d.v.(*ssa.Const); !isC {
					continue
				}
			}
			best = d
		}
		if best != nil {
			var v *Val
			if c, ok := best.v.(*ssa.Const); ok {
				v = ex.constVal(c)
			} else {
				v = st.env[best.v]
			}
			add(loopVar{name, best.v.Type(), func(*State) *Val { return v }, false, 1})
		}
	}
}

func (ex *Exec) cand(key, text string, user bool) *Cand {
	if c, ok := ex.cands[key]; ok {
		return c
	}
	c := &Cand{key: key, text: text, user: user}
	ex.cands[key] = c
	ex.candOrder = append(ex.candOrder, c)
	return c
}

func (ex *Exec) makeCands(lc *loopCtx, l *loopT, heap map[string]bool, cells map[*Cell]bool) {
	vars := ex.loopVars(lc)
	addc := func(text string, user bool, f func(s *State) *Term) {
		c := ex.cand(lc.key+"|"+text, text, user)
		if c.dropped {
			return
		}
		lc.cands = append(lc.cands, &candInst{c, f})
	}
	pre := lc.pre
	// --- frame candidates ---
	for _, n := range sortedKeys(heap) {
		n := n
		so := ex.heapSorts[n]
		if strings.HasPrefix(n, "G:") {
			continue
		}
		if strings.HasPrefix(n, "X:cb") {
			// the record of the calls only grows
			h0, c0 := ex.heapGet(pre, n, so), ex.heapGet(pre, "X:cbn", SInt)
			q := boundVar("q", SInt)
			addc("record of calls "+n, false, func(s *State) *Term {
				h := ex.heapGet(s, n, so)
				if n == "X:cbn" {
					return tLe(h0, h)
				}
				return tForall([]*Term{q}, [][]*Term{{tSel(h, q)}}, tImp(tLt(q, c0), tEq(tSel(h, q), tSel(h0, q))))
			})
			continue
		}
		if n == "X:frozen" {
			// watermarks only grow
			q := boundVar("q", SInt)
			h0 := ex.heapGet(pre, n, so)
			addc("watermarks grow", false, func(s *State) *Term {
				h := ex.heapGet(s, n, so)
				return tForall([]*Term{q}, [][]*Term{{tSel(h, q)}}, tLe(tSel(h0, q), tSel(h, q)))
			})
		}
		if ex.ct != nil && !ex.ct.ModAll {
			addc("function frame of "+n, false, func(s *State) *Term {
				return ex.frameFormula(n, ex.entry, s, ex.entry.alloc, ex.modsFor(n))
			})
		}
		h0 := ex.heapGet(pre, n, so)
		a0 := pre.alloc
		q := boundVar("q", SInt)
		if _, on := ex.ct.Flags["modinv"]; on && !ex.ct.ModAll && len(ex.modsFor(n)) > 0 {
			addc("only what the contract names changes in "+n, false, func(s *State) *Term {
				return ex.frameFormula(n, ex.entry, s, ex.entry.alloc, ex.modsFor(n))
			})
		}
		addc("only fresh objects change in "+n, false, func(s *State) *Term {
			h := ex.heapGet(s, n, so)
			return tForall([]*Term{q}, [][]*Term{{tSel(h, q)}}, tImp(tLe(q, a0), tEq(tSel(h, q), tSel(h0, q))))
		})
	}
	// --- bounds of integer variables ---
	type intv struct {
		name string
		get  func(s *State) *Term
	}
	var ints []intv
	for _, v := range vars {
		if v.rank == 0 && v.mod && v.T != nil {
			v := v
			if isInteger(v.T) {
				ints = append(ints, intv{v.name, func(s *State) *Term { return v.get(s).t() }})
			}
			init := v.get(pre)
			if init == nil || init.P != nil || init.It != nil || len(init.L) == 0 {
				continue
			}
			ls := leaves(v.T)
			if len(ls) != len(init.L) {
				continue
			}
			// unchanged / nilness
			for k := range ls {
				k := k
				if ls[k].Arr > 0 {
					continue
				}
				addc(v.name+ls[k].Path+" unchanged", false, func(s *State) *Term { return tEq(v.get(s).L[k], init.L[k]) })
			}
			if isRefType(v.T) && len(ls) == 1 {
				addc(v.name+" non-nil", false, func(s *State) *Term { return tNe(v.get(s).L[0], tInt(0)) })
			}
			if isInteger(v.T) {
				addc(v.name+" >= initial", false, func(s *State) *Term { return tLe(init.L[0], v.get(s).L[0]) })
				if bt, ok := v.T.Underlying().(*types.Basic); ok && bt.Info()&types.IsUnsigned == 0 {
					addc(v.name+" >= 0", false, func(s *State) *Term { return tLe(tInt(0), v.get(s).L[0]) })
				}
			}
		}
	}
	// bound terms: loop-invariant operands of comparisons in the loop
	type bt struct {
		name string
		get  func(s *State) *Term
	}
	var bts []bt
	seenB := map[string]bool{}
	addB := func(name string, t *Term) {
		k := fmt.Sprint(t.id)
		if seenB[k] {
			return
		}
		seenB[k] = true
		bts = append(bts, bt{name, func(*State) *Term { return t }})
	}
	var probe func(v ssa.Value, d int)
	probe = func(v ssa.Value, d int) {
		if c, ok := v.(*ssa.Const); ok {
			if c.Value != nil && isInteger(c.Type()) && d == 0 {
				addB(c.Name(), ex.constVal(c).t())
			}
			return
		}
		in, ok := v.(ssa.Instruction)
		if ok && !l.body[in.Block()] {
			if x, ok := pre.env[v]; ok && isInteger(v.Type()) {
				addB(v.Name(), x.t())
			}
			return
		}
		if p, ok := v.(*ssa.Parameter); ok && isInteger(p.Type()) {
			addB(p.Name(), ex.val(lc.fr, pre, p).t())
			return
		}
		if c, ok := v.(*ssa.Call); ok {
			if bu, ok := c.Call.Value.(*ssa.Builtin); ok && (bu.Name() == "len" || bu.Name() == "cap") {
				a := c.Call.Args[0]
				if x := ex.tryVal(lc.fr, pre, a); x != nil {
					if ai, ok := a.(ssa.Instruction); ok && l.body[ai.Block()] {
						return
					}
					switch {
					case len(x.L) == 4:
						addB("len("+a.Name()+")", x.L[2])
					case isString(a.Type()):
						addB("len("+a.Name()+")", strLen(x.t()))
					}
				}
			}
			return
		}
		if bo, ok := v.(*ssa.BinOp); ok && d < 3 {
			probe(bo.X, d+1)
			probe(bo.Y, d+1)
		}
	}
	for b := range l.body {
		for _, in := range b.Instrs {
			if bo, ok := in.(*ssa.BinOp); ok {
				switch bo.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
					if isInteger(bo.X.Type()) {
						probe(bo.X, 0)
						probe(bo.Y, 0)
					}
				}
			}
		}
	}
	sort.Slice(bts, func(i, j int) bool { return bts[i].name < bts[j].name })
	if len(bts) > 14 {
		bts = bts[:14]
	}
	for _, v := range ints {
		for _, b := range bts {
			v, b := v, b
			addc(v.name+" <= "+b.name, false, func(s *State) *Term { return tLe(v.get(s), b.get(s)) })
			addc(v.name+" < "+b.name, false, func(s *State) *Term { return tLt(v.get(s), b.get(s)) })
		}
	}
	// --- contract templates ---
	for _, tp := range ex.vr.templates(ex, lc) {
		ex.instTemplate(lc, tp, vars, addc)
	}
	// --- loop measure ---
	if ex.ct != nil {
		if d, ok := ex.ct.Flags["loopdec"]; ok && lc.fr.depth == 0 {
			parts := strings.Split(d, ";")
			if l.idx < len(parts) {
				e := parseExpr(parts[l.idx])
				byName := map[string]loopVar{}
				for _, v := range vars {
					byName[v.name] = v
				}
				lc.dec = func(s *State) *Term {
					return ex.evalLoopExpr(lc, e, s, byName, nil).t()
				}
			}
		}
	}
}

func (ex *Exec) tryVal(fr *Frame, st *State, v ssa.Value) (r *Val) {
	defer func() {
		if e := recover(); e != nil {
			r = nil
		}
	}()
	return ex.val(fr, st, v)
}

func (ex *Exec) evalLoopExpr(lc *loopCtx, e *Expr, s *State, byName map[string]loopVar, bind map[string]loopVar) *Val {
	ev := &Eval{ex: ex, st: s, old: ex.entry, pre: lc.pre, vars: map[string]*Val{}}
	ev.iter = lc.iter
	ev.lookup = func(n string, st *State) *Val {
		if v, ok := bind[n]; ok {
			return v.get(st)
		}
		if v, ok := byName[n]; ok {
			return v.get(st)
		}
		return nil
	}
	// entry parameters by contract name
	for k, v := range ex.entryVars {
		if _, shadow := byName[k]; !shadow {
			ev.vars[k] = v
		}
	}
	ev.entryVars = ex.entryVars
	return ev.eval(e)
}

func (ex *Exec) instTemplate(lc *loopCtx, tp *Clause, vars []loopVar, addc func(string, bool, func(*State) *Term)) {
	byName := map[string]loopVar{}
	for _, v := range vars {
		byName[v.name] = v
	}
	try := func(bind map[string]loopVar, label string) {
		f := func(s *State) *Term { return ex.evalLoopExpr(lc, tp.E, s, byName, bind).t() }
		// probe that it evaluates
		ok := func() (ok bool) {
			defer func() {
				if r := recover(); r != nil {
					if e, is := r.(specErr); is {
						if os.Getenv("GOV_INV") == "2" {
							fmt.Fprintln(os.Stderr, "template does not apply:", label, e)
						}
						ok = false
						return
					}
					panic(r)
				}
			}()
			f(lc.st)
			return true
		}()
		if ok {
			addc(label, true, f)
		}
	}
	if len(tp.Meta) == 0 {
		try(nil, tp.Src)
		return
	}
	// preferred: all metavariables by name
	binds := []map[string]loopVar{{}}
	for _, m := range tp.Meta {
		var opts []loopVar
		if v, ok := byName[m.Name]; ok && ex.vr.typeMatches(v.T, m.Type) && ex.wid == 0 {
			opts = []loopVar{v}
		} else {
			for _, v := range vars {
				if ex.vr.typeMatches(v.T, m.Type) {
					opts = append(opts, v)
				}
			}
		}
		var nx []map[string]loopVar
		for _, b := range binds {
			for _, o := range opts {
				nb := map[string]loopVar{}
				dup := false
				for k, v := range b {
					nb[k] = v
					if v.name == o.name {
						dup = true
					}
				}
				if dup {
					continue
				}
				nb[m.Name] = o
				nx = append(nx, nb)
			}
		}
		binds = nx
		if len(binds) > 60 {
			binds = binds[:60]
		}
	}
	for _, b := range binds {
		lab := tp.Src
		for _, m := range tp.Meta {
			lab += " " + m.Name + "=" + b[m.Name].name
		}
		try(b, lab)
	}
}
