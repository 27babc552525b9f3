package main

// Calls: builtins, devirtualisation, inlining, modular calls through contracts.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (ex *Exec) callTarget(fr *Frame, s *State, cc *ssa.CallCommon) (*Val, []*Val) {
	var args []*Val
	for _, a := range cc.Args {
		args = append(args, ex.val(fr, s, a))
	}
	if cc.IsInvoke() {
		return ex.val(fr, s, cc.Value), args
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return nil, args
	}
	return ex.val(fr, s, cc.Value), args
}

func resultType(sig *types.Signature) types.Type {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

func one(s *State, v *Val) []Outcome { return []Outcome{{s, v}} }

func (ex *Exec) invoke(fr *Frame, s *State, in ssa.Instruction, cc *ssa.CallCommon, fn *Val, args []*Val) []Outcome {
	if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		return one(s, ex.builtin(fr, s, in, b.Name(), cc, args))
	}
	if cc.IsInvoke() {
		return ex.invokeIface(fr, s, in, cc, fn, args)
	}
	if g := cc.StaticCallee(); g != nil {
		var binds []*Val
		if fn != nil && fn.C != nil {
			binds = fn.C.binds
		}
		return ex.callStatic(fr, s, in, g, args, binds, cc)
	}
	return ex.callDynamic(fr, s, in, cc, fn, args)
}

func (ex *Exec) callDynamic(fr *Frame, s *State, in ssa.Instruction, cc *ssa.CallCommon, fn *Val, args []*Val) []Outcome {
	if fn.C != nil {
		return ex.callStatic(fr, s, in, fn.C.fn, args, fn.C.binds, cc)
	}
	id := fn.t()
	if n, ok := id.lit(); ok {
		if n.Sign() == 0 {
			ex.oblige(s, "nil-func", "call of nil function", in, tFalse, nil)
			s.dead = true
			return one(s, nil)
		}
		if g := ex.vr.fnByID[n.Int64()]; g != nil {
			return ex.callStatic(fr, s, in, g, args, nil, cc)
		}
		if c := ex.closures[id]; c != nil {
			return ex.callStatic(fr, s, in, c.fn, args, c.binds, cc)
		}
	}
	if id.op == "ite" {
		c := id.args[0]
		s2 := s.clone()
		s.assume(c)
		s2.assume(tNot(c))
		f1, f2 := *fn, *fn
		f1.L = []*Term{id.args[1]}
		f2.L = []*Term{id.args[2]}
		var outs []Outcome
		if !s.dead {
			outs = append(outs, ex.callDynamic(fr, s, in, cc, &f1, args)...)
		}
		if !s2.dead {
			outs = append(outs, ex.callDynamic(fr, s2, in, cc, &f2, args)...)
		}
		return outs
	}
	ex.require(s, "nil-func", "call of nil function", in, tNe(id, tInt(0)))
	cands := ex.vr.addrTaken[sigKey(cc.Signature())]
	internal := false
	for _, g := range cands {
		if g.Object() == nil || !g.Object().Exported() {
			internal = true
		}
	}
	if internal {
		var alts []*Term
		for _, g := range cands {
			alts = append(alts, tEq(id, ex.vr.funcID(g)))
		}
		ex.require(s, "func-table", "called function value is one of the functions of this signature", in, tOr(alts...))
		var outs []Outcome
		for i, g := range cands {
			x := s
			if i < len(cands)-1 {
				x = s.clone()
			}
			x.assume(alts[i])
			if x.dead {
				continue
			}
			outs = append(outs, ex.callStatic(fr, x, in, g, args, nil, cc)...)
		}
		return outs
	}
	return one(s, ex.userCallback(fr, s, in, cc, args))
}

// userCallback: a function supplied by the user of the library; it is assumed not to touch library memory.
// The call is recorded in a ghost trace.
func (ex *Exec) userCallback(fr *Frame, s *State, in ssa.Instruction, cc *ssa.CallCommon, args []*Val) *Val {
	if nt, ok := cc.Value.Type().(*types.Named); ok && containsStr(ex.vr.spec.PureFns, nt.Obj().Name()) {
		ex.externs["user callback of type "+nt.Obj().Name()+": assumed to be a function of its arguments, with no effect on the library"] = true
		rt := resultType(cc.Signature())
		ls := []*Term{ex.val(fr, s, cc.Value).t()}
		for _, a := range args {
			ls = append(ls, a.L...)
		}
		return &Val{T: rt, L: []*Term{app("pcb_"+nt.Obj().Name(), SBool, ls...)}}
	}
	ex.externs["user callback "+types.TypeString(cc.Value.Type().Underlying(), nil)+": assumed not to modify the values it is given or to re-enter the library"] = true
	n := ex.heapGet(s, "X:cbn", SInt)
	k := 0
	for _, a := range args {
		if a.P != nil {
			panic(unsupported{"interior pointer passed to callback"})
		}
		for _, t := range a.L {
			nm := cbName(k, t.sort)
			h := ex.heapGet(s, nm, SArr(SInt, t.sort))
			s.heap[nm] = tStore(h, n, t)
			k++
		}
	}
	rt := resultType(cc.Signature())
	var r *Val
	if rt != nil {
		r = ex.freshVal(s, "cbres", rt)
		for i, t := range r.L {
			nm := fmt.Sprintf("X:cbr%d:%s", i, t.sort)
			h := ex.heapGet(s, nm, SArr(SInt, t.sort))
			s.heap[nm] = tStore(h, n, t)
		}
	}
	s.heap["X:cbn"] = tAdd(n, tInt(1))
	s.alloc = ex.grow(s)
	return r
}

func cbName(k int, so Sort) string { return fmt.Sprintf("X:cba%d:%s", k, so) }

func (ex *Exec) grow(s *State) *Term {
	a := freshConst("alloc", SInt)
	s.assume(tLe(s.alloc, a))
	return a
}

func (ex *Exec) invokeIface(fr *Frame, s *State, in ssa.Instruction, cc *ssa.CallCommon, recv *Val, args []*Val) []Outcome {
	tag, pay := recv.L[0], recv.L[1]
	callOn := func(s *State, ct types.Type) []Outcome {
		m := ex.vr.prog.LookupMethod(ct, cc.Method.Pkg(), cc.Method.Name())
		if m == nil {
			panic(unsupported{"method lookup " + ct.String() + "." + cc.Method.Name()})
		}
		r := ex.unbox(s, pay, ct)
		ex.assumeLoaded(s, r)
		return ex.callStatic(fr, s, in, m, append([]*Val{r}, args...), nil, cc)
	}
	if n, ok := tag.lit(); ok {
		if n.Sign() == 0 {
			ex.oblige(s, "nil-iface", "method call on nil interface", in, tFalse, nil)
			s.dead = true
			return one(s, nil)
		}
		if ct := ex.vr.tagType[n.Int64()]; ct != nil {
			return callOn(s, ct)
		}
	}
	if tag.op == "ite" {
		c := tag.args[0]
		s2 := s.clone()
		s.assume(c)
		s2.assume(tNot(c))
		var outs []Outcome
		pick := func(k int) *Val {
			p := pay
			if p.op == "ite" && p.args[0] == c {
				p = p.args[k]
			}
			return &Val{T: recv.T, L: []*Term{tag.args[k], p}}
		}
		if !s.dead {
			outs = append(outs, ex.invokeIface(fr, s, in, cc, pick(1), args)...)
		}
		if !s2.dead {
			outs = append(outs, ex.invokeIface(fr, s2, in, cc, pick(2), args)...)
		}
		return outs
	}
	if ex.vr.closedIface(cc.Value.Type()) {
		ex.require(s, "nil-iface", "method call on nil interface", in, tNe(tag, tInt(0)))
		ts := ex.vr.implTypes(cc.Value.Type())
		var alts []*Term
		for _, t := range ts {
			alts = append(alts, tEq(tag, ex.vr.typeTag(t)))
		}
		s.assume(tOr(alts...))
		var outs []Outcome
		for i, t := range ts {
			x := s
			if i < len(ts)-1 {
				x = s.clone()
			}
			x.assume(alts[i])
			if x.dead || hasFactNear(x.facts, tNot(alts[i])) {
				continue
			}
			outs = append(outs, callOn(x, t)...)
		}
		return outs
	}
	// open interface: foreign implementation
	key := types.TypeString(cc.Value.Type(), nil) + "." + cc.Method.Name()
	ex.require(s, "nil-iface", "method call on nil interface", in, tNe(tag, tInt(0)))
	if m, ok := externIface[key]; ok {
		return one(s, m(ex, s, in, recv, args))
	}
	ex.externs["interface method "+shortPkg(key)+": arbitrary result, assumed not to modify library memory"] = true
	s.alloc = ex.grow(s)
	rt := resultType(cc.Signature())
	if rt == nil {
		return one(s, nil)
	}
	return one(s, ex.freshVal(s, cc.Method.Name(), rt))
}

func (ex *Exec) callStatic(fr *Frame, s *State, in ssa.Instruction, g *ssa.Function, args, binds []*Val, cc *ssa.CallCommon) []Outcome {
	// thunks and wrappers: forward to the wrapped method
	if m, ok := externModels[g.String()]; ok {
		ex.externs[externNote(g.String())] = true
		return one(s, m(ex, fr, s, in, args))
	}
	key := keyOf(g)
	if m, ok := moduleModels[key]; ok {
		return one(s, m(ex, fr, s, in, args))
	}
	ct := ex.vr.spec.Contracts[key]
	if ct == nil {
		ct = ex.dynContract(g, args)
	}
	if ct != nil && len(binds) == 0 {
		clos := false
		for _, a := range args {
			if a.C != nil && len(a.C.binds) > 0 {
				clos = true
			}
		}
		if _, inl := ct.Flags["inline"]; inl {
			clos = true
		}
		if !clos {
			return one(s, ex.callContract(fr, s, in, g, ct, args))
		}
	}
	if !ex.vr.inModule(g) || len(g.Blocks) == 0 {
		if pureExtern(g.String()) {
			ex.externs[externNote(g.String())] = true
			rt := resultType(g.Signature)
			if rt == nil {
				return one(s, nil)
			}
			s.alloc = ex.grow(s)
			return one(s, ex.freshVal(s, g.Name(), rt))
		}
		panic(unsupported{"call of external function " + g.String()})
	}
	return ex.inline(fr, s, in, g, args, binds)
}

// dynContract: contracts for external functions keyed by the dynamic type of an interface argument, e.g. sort.Sort@*sortObjectV
func (ex *Exec) dynContract(g *ssa.Function, args []*Val) *Contract {
	if len(args) > 0 && len(args[0].L) == 2 {
		if n, ok := args[0].L[0].lit(); ok {
			if t := ex.vr.tagType[n.Int64()]; t != nil {
				return ex.vr.spec.Contracts[shortPkg(g.String())+"@"+shortPkg(types.TypeString(t, nil))]
			}
		}
	}
	return nil
}

func callSite(in ssa.Instruction) string {
	b := in.Block()
	if b == nil {
		return "?"
	}
	for i, x := range b.Instrs {
		if x == in {
			return fmt.Sprintf("%d.%d", b.Index, i)
		}
	}
	return "?"
}

func (ex *Exec) inline(fr *Frame, s *State, in ssa.Instruction, g *ssa.Function, args, binds []*Val) []Outcome {
	for f := fr; f != nil; f = f.parent {
		if f.fn == g {
			panic(unsupported{"recursive function without a contract: " + keyOf(g)})
		}
	}
	ex.inlined[keyOf(g)] = true
	nf := &Frame{fn: g, args: args, binds: binds, parent: fr, depth: fr.depth + 1, ct: ex.vr.spec.Contracts[keyOf(g)],
		callID: fr.callID + "/" + g.Name() + "@" + callSite(in), callerEnv: s.env, callBlock: in.Block()}
	env := s.env
	outs := ex.execFunc(nf, s)
	outs = ex.mergeOutcomes(nf, outs)
	for i := range outs {
		e := make(map[ssa.Value]*Val, len(env)+4)
		for k, v := range env {
			e[k] = v
		}
		outs[i].st.env = e
	}
	return outs
}

// ---- contracts ----

func (ex *Exec) contractEval(ct *Contract, g *ssa.Function, st, old *State, args []*Val) *Eval {
	ev := &Eval{ex: ex, st: st, old: old, vars: map[string]*Val{}}
	if len(ct.Params) != len(args) {
		panic(unsupported{fmt.Sprintf("contract of %s names %d parameters, the function has %d", ct.Key, len(ct.Params), len(args))})
	}
	for i, p := range ct.Params {
		if p != "_" {
			ev.vars[p] = args[i]
		}
	}
	return ev
}

// bindWhere names the contract's entry values; composite terms get a constant of their own, so that triggers see an atom.
func (ex *Exec) bindWhere(ev *Eval, ct *Contract, s *State) {
	for _, w := range ct.Where {
		v := ev.eval(w.E)
		n := &Val{T: v.T, Tup: v.Tup, P: v.P}
		for _, l := range v.L {
			if len(l.args) > 0 {
				c := freshConst("w_"+w.Name, l.sort)
				s.assume(tEq(c, l))
				l = c
			}
			n.L = append(n.L, l)
		}
		ev.vars[w.Name] = n
	}
}

func bindResults(ev *Eval, ct *Contract, res *Val) {
	rs := res.tup()
	if len(ct.Results) != 0 && len(ct.Results) != len(rs) {
		panic(unsupported{fmt.Sprintf("contract of %s names %d results, the function has %d", ct.Key, len(ct.Results), len(rs))})
	}
	for i, n := range ct.Results {
		if n != "_" {
			ev.vars[n] = rs[i]
		}
	}
	if len(rs) == 1 {
		ev.vars["result"] = rs[0]
	}
}

func (ex *Exec) callContract(fr *Frame, s *State, in ssa.Instruction, g *ssa.Function, ct *Contract, args []*Val) *Val {
	ex.used[ct.Key] = true
	old := s.clone()
	ev := ex.contractEval(ct, g, s, old, args)
	for _, r := range ct.Req {
		if !ex.vr.clauseOn(r) {
			continue
		}
		t := ex.specBool(ev, r, ct)
		ex.require(s, "pre", "precondition of "+ct.Key+": "+r.Src, in, t)
	}
	if s.dead {
		return nil
	}
	ex.bindWhere(ev, ct, s)
	where := ev.vars
	// termination of recursion
	if ex.ct != nil && ex.ct.Dec != nil && ct.Dec != nil && ex.vr.scc[g] == ex.vr.scc[ex.fn] && ex.vr.scc[g] != 0 {
		d1 := ev.intT(ct.Dec)
		e0 := &Eval{ex: ex, st: ex.entry, old: ex.entry, vars: ex.entryVars}
		d0 := e0.intT(ex.ct.Dec)
		ex.oblige(s, "decreases", "recursive call of "+ct.Key+" decreases the measure", in, tAnd(tLe(tInt(0), d0), tLt(d1, d0)), nil)
	}
	var mods []modEntry
	if !ct.ModAll {
		mods = ev.mods(ct.Mod)
	}
	ex.havocEffects(s, old, ex.vr.effects(g), mods, ct.ModAll)
	for _, m := range mods {
		if m.cell != nil {
			cv := s.cells[m.cell]
			nv := &Val{T: cv.T, L: append([]*Term(nil), cv.L...)}
			if m.path.off == 0 && m.path.n == len(cv.L) && len(m.path.aidx) == 0 {
				nv = ex.freshVal(s, nameOr(m.cell.name, "cell"), cv.T)
			} else {
				ls := leaves(m.cell.T)
				for i := m.path.off; i < m.path.off+m.path.n; i++ {
					nv.L[i] = freshConst(nameOr(m.cell.name, "cell"), ls[i].Sort)
				}
				ex.assumeVal(s, nv)
			}
			s.cells[m.cell] = nv
		}
	}
	rt := resultType(g.Signature)
	var res *Val
	s.alloc = ex.grow(s)
	if rt != nil {
		res = ex.freshVal(s, "r_"+g.Name(), rt)
		for _, r := range res.tup() {
			ls := leaves(r.T)
			for i, l := range ls {
				if l.Comp == "" && l.Sort == SInt && l.Arr == 0 {
					noteRange(r.L[i], l.T)
				}
			}
		}
	}
	ev2 := ex.contractEval(ct, g, s, old, args)
	for _, w := range ct.Where {
		ev2.vars[w.Name] = where[w.Name]
	}
	ev2.entryVars = ev2.vars
	nv := map[string]*Val{}
	for k, v := range ev2.vars {
		nv[k] = v
	}
	ev2.vars = nv
	if res != nil {
		bindResults(ev2, ct, res)
	}
	for _, e := range ct.Ens {
		if !ex.vr.clauseOn(e) {
			continue
		}
		t := ex.specBool(ev2, e, ct)
		// use "result == literal" eagerly
		if t.op == "=" && res != nil && len(res.tup()) == 1 && len(res.L) == 1 {
			if t.args[0] == res.L[0] && !occurs(res.L[0], t.args[1]) {
				res.L[0] = t.args[1]
				ev2.vars["result"] = res
				continue
			}
		}
		s.assume(t)
	}
	ex.literalTags(s, res)
	return res
}

// literalTags replaces interface tags the facts equate to a literal.
func (ex *Exec) literalTags(s *State, res *Val) {
	if res == nil {
		return
	}
	for _, r := range res.tup() {
		if len(r.L) == 2 {
			if _, ok := r.T.Underlying().(*types.Interface); ok {
				f := s.facts
				for i := 0; i < 60 && f != nil; i++ {
					if f.t.op == "=" {
						a, b := f.t.args[0], f.t.args[1]
						if _, ok := a.lit(); ok {
							a, b = b, a
						}
						if _, ok := b.lit(); ok && a == r.L[0] {
							r.L = []*Term{b, r.L[1]}
							break
						}
					}
					f = f.parent
				}
			}
		}
	}
}

func occurs(x, t *Term) bool {
	if x == t {
		return true
	}
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == x {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func (ex *Exec) specBool(ev *Eval, c *Clause, ct *Contract) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(specErr); ok {
				panic(unsupported{fmt.Sprintf("contract of %s: %s (in %q)", ct.Key, string(e), c.Src)})
			}
			panic(r)
		}
	}()
	return ev.boolT(c.E)
}

func (ex *Exec) havocEffects(s, old *State, eff map[string]Sort, mods []modEntry, all bool) {
	names := map[string]Sort{}
	for n, so := range eff {
		names[n] = so
	}
	byName := map[string][]modEntry{}
	for _, m := range mods {
		if m.name != "" {
			if _, ok := names[m.name]; !ok {
				// the contract allows it but the code cannot do it: still havoc (sound)
				names[m.name] = ex.heapSorts[m.name]
			}
			byName[m.name] = append(byName[m.name], m)
		}
	}
	for _, n := range sortedKeys(names) {
		so := names[n]
		ex.heapSorts[n] = so
		if strings.HasPrefix(n, "G:") {
			if len(byName[n]) > 0 || all {
				ex.heapGet(s, n, so)
				s.heap[n] = freshConst(n, so)
			}
			continue
		}
		o := ex.heapGet(old, n, so)
		ex.heapGet(s, n, so)
		nh := freshConst(n, so)
		s.heap[n] = nh
		if n == "X:frozen" {
			q := boundVar("q", SInt)
			s.assume(tForall([]*Term{q}, [][]*Term{{tSel(nh, q)}}, tLe(tSel(o, q), tSel(nh, q))))
		}
		if strings.HasPrefix(n, "X:cb") {
			if !strings.HasPrefix(string(so), "(Array") {
				if len(byName["X:cbn"]) == 0 && !all {
					s.heap[n] = o
				}
			} else if len(byName["X:cbn"]) == 0 && !all {
				s.heap[n] = o
			}
			continue
		}
		if !all {
			s.assume(ex.frameFormula(n, old, s, old.alloc, byName[n]))
		}
	}
}

// ---- builtins ----

func (ex *Exec) builtin(fr *Frame, s *State, in ssa.Instruction, name string, cc *ssa.CallCommon, args []*Val) *Val {
	intv := func(t *Term) *Val {
		noteRange(t, types.Typ[types.Int])
		return &Val{T: types.Typ[types.Int], L: []*Term{t}}
	}
	switch name {
	case "len":
		a := args[0]
		switch u := cc.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			return intv(a.L[2])
		case *types.Basic:
			n := strLen(a.t())
			s.assume(tAnd(tLe(tInt(0), n), tLe(n, tBig(MaxLen))))
			return intv(n)
		case *types.Map:
			ex.nilMapFact(s, cc.Args[0].Type(), a.t())
			n := card(ex.mapDom(s, cc.Args[0].Type(), a.t()))
			s.assume(tAnd(tLe(tInt(0), n), tLe(n, tBig(MaxLen))))
			return intv(n)
		case *types.Array:
			return intv(tInt(u.Len()))
		case *types.Pointer:
			return intv(tInt(u.Elem().Underlying().(*types.Array).Len()))
		}
	case "cap":
		return intv(args[0].L[3])
	case "append":
		st := cc.Args[0].Type()
		el := st.Underlying().(*types.Slice).Elem()
		a, b := args[0], args[1]
		if isString(cc.Args[1].Type()) {
			str := b.t()
			n := strLen(str)
			return ex.appendSlice(fr, s, in, st, a, n, func(l Leaf, i *Term, h *Term) *Term { return strAt(str, i) }, nil)
		}
		if cc.Args[1].Type().Underlying() == types.Typ[types.UntypedNil] || len(b.L) < 4 {
			return a
		}
		// single-element append: the variadic slice is a fresh one-element array
		if n, ok := b.L[2].lit(); ok && n.IsInt64() && n.Int64() == 0 {
			return a
		}
		if n, ok := b.L[2].lit(); ok && n.IsInt64() && n.Int64() == 1 && !isObjElem(el) {
			pv := ex.elemPtr(types.NewPointer(el), el, b.L[0], b.L[1])
			v := ex.load(s, ex.pathOf(s, pv))
			return ex.appendSlice(fr, s, in, st, a, tInt(1), nil, v.L)
		}
		if isObjElem(el) {
			panic(unsupported{"append to a slice of " + el.String()})
		}
		rows := map[string]*Term{}
		for _, l := range leaves(el) {
			h := ex.heapGet(s, "E:"+typeName(el)+l.Path, SArr(SInt, SArr(SInt, l.Sort)))
			rows[l.Path] = tSel(h, b.L[0])
		}
		off := b.L[1]
		return ex.appendSlice(fr, s, in, st, a, b.L[2], func(l Leaf, i *Term, h *Term) *Term { return tSel(rows[l.Path], tAdd(off, i)) }, nil)
	case "copy":
		return intv(ex.copySlice(s, in, cc, args))
	case "delete":
		ex.mapDelete(s, cc.Args[0].Type(), args[0].t(), args[1].t())
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			c := tLe(r.t(), a.t())
			if name == "max" {
				c = tLe(a.t(), r.t())
			}
			r = &Val{T: r.T, L: []*Term{tIte(c, r.t(), a.t())}}
		}
		return r
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		ex.require(s, "nil-deref", "nil receiver in method wrapper", in, tNe(args[0].L[0], tInt(0)))
		return args[0]
	case "recover":
		return &Val{T: cc.Signature().Results().At(0).Type(), L: []*Term{tInt(0), tInt(0)}}
	}
	panic(unsupported{"builtin " + name})
}

func (ex *Exec) copySlice(s *State, in ssa.Instruction, cc *ssa.CallCommon, args []*Val) *Term {
	d, b := args[0], args[1]
	el := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
	if isObjElem(el) {
		panic(unsupported{"copy of " + el.String()})
	}
	var sl *Term
	isStr := isString(cc.Args[1].Type())
	if isStr {
		sl = strLen(b.t())
	} else {
		sl = b.L[2]
	}
	n := tIte(tLe(d.L[2], sl), d.L[2], sl)
	if isByte(el) {
		h := ex.heapGet(s, "X:frozen", SArr(SInt, SInt))
		ex.require(s, "frozen", "copy does not overwrite bytes that a string aliases", in, tImp(tLt(tInt(0), n), tLe(tSel(h, d.L[0]), d.L[1])))
	}
	q := boundVar("q", SInt)
	for _, l := range leaves(el) {
		name := "E:" + typeName(el) + l.Path
		h := ex.heapGet(s, name, SArr(SInt, SArr(SInt, l.Sort)))
		row := tSel(h, d.L[0])
		var src *Term
		if isStr {
			src = strAt(b.t(), tSub(q, d.L[1]))
		} else {
			src = tSel(tSel(h, b.L[0]), tAdd(b.L[1], tSub(q, d.L[1])))
		}
		nr := freshConst("row", SArr(SInt, l.Sort))
		in := tAnd(tLe(d.L[1], q), tLt(q, tAdd(d.L[1], n)))
		s.assume(tForall([]*Term{q}, [][]*Term{{tSel(nr, q)}}, tEq(tSel(nr, q), tIte(in, src, tSel(row, q)))))
		s.heap[name] = tStore(h, d.L[0], nr)
	}
	return n
}

var _ = sort.Strings
