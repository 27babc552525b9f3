package main

// Symbolic execution of SSA function bodies, producing proof obligations.

import (
	"fmt"
	gconst "go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Exec struct {
	vr        *Verifier
	fn        *ssa.Function // function under verification
	ct        *Contract
	obls      []*Obligation
	cands     map[string]*Cand
	candOrder []*Cand
	dry       int
	heapInit  map[string]*Term
	heapSorts map[string]Sort
	entry     *State
	entryVars map[string]*Val
	nid       int
	inlined   map[string]bool
	used      map[string]bool // contracts used
	externs   map[string]bool
	steps     int
	wid       int // wide enumeration of loop metavariables
	cbTrace   int
	closures  map[*Term]*Closure
	nloops    int
	exits     []*State
	unsup     []string
	entryMods []modEntry
}

type unsupported struct{ msg string }

func (ex *Exec) posOf(i ssa.Instruction) token.Position {
	if i == nil {
		return token.Position{}
	}
	p := i.Pos()
	if !p.IsValid() {
		if i.Block() != nil {
			for _, x := range i.Block().Instrs {
				if x.Pos().IsValid() {
					p = x.Pos()
					break
				}
			}
		}
	}
	if !p.IsValid() && i.Parent() != nil {
		p = i.Parent().Pos()
	}
	return ex.vr.prog.Fset.Position(p)
}

func (ex *Exec) oblige(st *State, kind, name string, in ssa.Instruction, goal *Term, tags []string) {
	if ex.dry > 0 || st.dead {
		return
	}
	if goal == tTrue {
		ex.vr.trivial++
		// still counts as an obligation discharged by the generator's simplifier
		ex.obls = append(ex.obls, &Obligation{Name: name, Kind: kind, Fn: ex.fn.Name(), Pos: ex.posOf(in), Goal: goal, Tags: tags, Res: solveResult{status: "unsat", solver: "simplifier"}})
		return
	}
	o := &Obligation{Name: name, Kind: kind, Fn: ex.fn.Name(), Pos: ex.posOf(in), Facts: st.facts, Goal: goal, Tags: tags}
	ex.obls = append(ex.obls, o)
}

// require: obligation followed by assumption
func (ex *Exec) require(st *State, kind, name string, in ssa.Instruction, goal *Term) {
	if hasFactNear(st.facts, goal) {
		return
	}
	ex.oblige(st, kind, name, in, goal, nil)
	st.assume(goal)
}

func hasFactNear(f *Facts, t *Term) bool {
	for i := 0; i < 400 && f != nil; i++ {
		if f.t == t {
			return true
		}
		f = f.parent
	}
	return false
}

func (ex *Exec) unsupported(st *State, in ssa.Instruction, msg string) {
	if ex.dry == 0 {
		ex.unsup = append(ex.unsup, fmt.Sprintf("%s: %s", ex.posOf(in), msg))
	}
	ex.oblige(st, "unsupported", "unsupported: "+msg, in, tFalse, nil)
}

func (ex *Exec) newCell(name string, t types.Type) *Cell {
	ex.nid++
	return &Cell{name: name, T: t, id: ex.nid}
}

// ---- values ----

func (ex *Exec) val(fr *Frame, st *State, v ssa.Value) *Val {
	switch v := v.(type) {
	case *ssa.Const:
		return ex.constVal(v)
	case *ssa.Function:
		return ex.funcVal(v)
	case *ssa.Global:
		el := ptrElem(v.Type())
		return &Val{T: v.Type(), P: &Path{kind: 'g', name: globalName(v), root: el, n: len(leaves(el)), T: el}, L: []*Term{tInt(1)}}
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == v {
				return fr.binds[i]
			}
		}
	case *ssa.Parameter:
		for i, p := range fr.fn.Params {
			if p == v {
				return fr.args[i]
			}
		}
	case *ssa.Builtin:
		return &Val{T: v.Type()}
	}
	if r, ok := st.env[v]; ok {
		return r
	}
	panic(fmt.Sprintf("no value for %s = %s in %s", v.Name(), v, fr.fn))
}

func globalName(g *ssa.Global) string {
	return shortPkg(g.Pkg.Pkg.Path()+".") + g.Name()
}

func (ex *Exec) funcVal(f *ssa.Function) *Val {
	id := ex.vr.funcID(f)
	return &Val{T: f.Type(), L: []*Term{id}, C: &Closure{fn: f, id: id}}
}

func (ex *Exec) constVal(c *ssa.Const) *Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return &Val{T: t, L: []*Term{tBool(gconst.BoolVal(c.Value))}}
		case u.Info()&types.IsString != 0:
			return &Val{T: t, L: []*Term{tStrLit(gconst.StringVal(c.Value))}}
		case u.Info()&types.IsInteger != 0:
			n, _ := new(big.Int).SetString(gconst.ToInt(c.Value).ExactString(), 10)
			return &Val{T: t, L: []*Term{tBig(n)}}
		case u.Info()&types.IsFloat != 0:
			return &Val{T: t, L: []*Term{ex.floatConst(c.Value)}}
		}
	}
	panic("const " + c.String())
}

func (ex *Exec) floatConst(v gconst.Value) *Term {
	f, _ := gconst.Float64Val(v)
	if f == 0 {
		return constant1("f64_zero")
	}
	s := fmt.Sprintf("%v", f)
	return app("f64_lit", SF64, tStrLit(s))
}

func constant1(n string) *Term { return constantS(n, SF64) }
func constantS(n string, s Sort) *Term {
	declare(n, s)
	return mk(n, s)
}

func wrapInt(x *Term, t types.Type) *Term {
	lo, hi, ok := intRange(t)
	if !ok {
		return x
	}
	if n, ok := x.lit(); ok {
		m := new(big.Int).Sub(hi, lo)
		m.Add(m, big.NewInt(1))
		r := new(big.Int).Sub(n, lo)
		r.Mod(r, m)
		return tBig(r.Add(r, lo))
	}
	if a, b, ok := bounds(x, 0); ok && a.Cmp(lo) >= 0 && b.Cmp(hi) <= 0 {
		return x
	}
	m := new(big.Int).Sub(hi, lo)
	m.Add(m, big.NewInt(1))
	if m.BitLen() == 65 {
		// 64-bit wrap-around: exact on the ranges around the type, fully defined when lemmas are proved
		if lo.Sign() == 0 {
			return app("wu64", SInt, x)
		}
		return app("wi64", SInt, x)
	}
	if lo.Sign() == 0 {
		return tMod(x, tBig(m))
	}
	// signed: exact two's complement
	in := tAnd(tLe(tBig(lo), x), tLe(x, tBig(hi)))
	return tIte(in, x, tAdd(tMod(tSub(x, tBig(lo)), tBig(m)), tBig(lo)))
}

// bounds computes a conservative syntactic interval of a term.
func bounds(t *Term, d int) (lo, hi *big.Int, ok bool) {
	if d > 12 {
		return
	}
	if n, isl := t.lit(); isl {
		return n, n, true
	}
	switch t.op {
	case "wu64":
		return big.NewInt(0), new(big.Int).SetUint64(1<<64 - 1), true
	case "wi64":
		return big.NewInt(-1 << 63), big.NewInt(1<<63 - 1), true
	case "mod":
		if n, isl := t.args[1].lit(); isl && n.Sign() > 0 {
			return big.NewInt(0), new(big.Int).Sub(n, big.NewInt(1)), true
		}
	case "div":
		if n, isl := t.args[1].lit(); isl && n.Sign() > 0 {
			if a, b, ok := bounds(t.args[0], d+1); ok {
				return new(big.Int).Div(a, n), new(big.Int).Div(b, n), true
			}
		}
	case "+":
		l, h := big.NewInt(0), big.NewInt(0)
		for _, a := range t.args {
			x, y, ok := bounds(a, d+1)
			if !ok {
				return nil, nil, false
			}
			l = new(big.Int).Add(l, x)
			h = new(big.Int).Add(h, y)
		}
		return l, h, true
	case "-":
		if len(t.args) == 2 {
			a, b, ok1 := bounds(t.args[0], d+1)
			c, e, ok2 := bounds(t.args[1], d+1)
			if ok1 && ok2 {
				return new(big.Int).Sub(a, e), new(big.Int).Sub(b, c), true
			}
		}
	case "*":
		if n, isl := t.args[1].lit(); isl {
			if a, b, ok := bounds(t.args[0], d+1); ok {
				x, y := new(big.Int).Mul(a, n), new(big.Int).Mul(b, n)
				if x.Cmp(y) > 0 {
					x, y = y, x
				}
				return x, y, true
			}
		}
	case "ite":
		a, b, ok1 := bounds(t.args[1], d+1)
		c, e, ok2 := bounds(t.args[2], d+1)
		if ok1 && ok2 {
			if c.Cmp(a) < 0 {
				a = c
			}
			if e.Cmp(b) > 0 {
				b = e
			}
			return a, b, true
		}
	case "sat":
		return big.NewInt(0), big.NewInt(255), true
	}
	if r, ok := termRange[t]; ok {
		return r[0], r[1], true
	}
	return
}

// termRange records type ranges of opaque terms
var termRange = map[*Term][2]*big.Int{}

func noteRange(t *Term, ty types.Type) {
	if _, ok := t.lit(); ok {
		return
	}
	if lo, hi, ok := intRange(ty); ok {
		if r, ok := termRange[t]; ok && r[0].Cmp(lo) >= 0 && r[1].Cmp(hi) <= 0 {
			return
		}
		termRange[t] = [2]*big.Int{lo, hi}
	}
}

// ---- running ----

func (ex *Exec) assumeLoaded(st *State, v *Val) {
	ls := leaves(v.T)
	for i, l := range ls {
		if l.Arr == 0 && l.Comp == "" && l.Sort == SInt {
			noteRange(v.L[i], l.T)
		}
	}
	ex.assumeVal(st, v)
}

// execFunc runs fn from st and returns its outcomes.
func (ex *Exec) execFunc(fr *Frame, st *State) []Outcome {
	if len(fr.fn.Blocks) == 0 {
		panic("no body: " + fr.fn.String())
	}
	if fr.depth > 14 {
		panic(unsupported{"inlining depth exceeded at " + fr.fn.String()})
	}
	li := ex.vr.loopsOf(fr.fn)
	fr.loops = li
	in := map[*ssa.BasicBlock][]*State{}
	st.env = map[ssa.Value]*Val{}
	svDefers := st.defers
	st.defers = nil
	in[fr.fn.Blocks[0]] = []*State{st}
	var outs []Outcome
	ex.region(fr, li.order, in, nil, func(s *State, res *Val) {
		s.defers = svDefers
		outs = append(outs, Outcome{s, res})
	})
	return outs
}

// region executes the blocks of order (a topological order of the loop-cut CFG) starting from the states in in.
// back (if non-nil) receives states arriving at header hdr through a back edge.
func (ex *Exec) region(fr *Frame, order []*ssa.BasicBlock, in map[*ssa.BasicBlock][]*State, hdr *ssa.BasicBlock, ret func(*State, *Val)) {
	ex.regionB(fr, order, in, hdr, nil, nil, ret)
}

func (ex *Exec) regionB(fr *Frame, order []*ssa.BasicBlock, in map[*ssa.BasicBlock][]*State, skipHdr *ssa.BasicBlock, back func(*ssa.BasicBlock, *State), leave func(*ssa.BasicBlock, *State), ret func(*State, *Val)) {
	inSet := map[*ssa.BasicBlock]bool{}
	for _, b := range order {
		inSet[b] = true
	}
	headerCtx := map[*ssa.BasicBlock]*loopCtx{}
	go1 := func(from, to *ssa.BasicBlock, s *State) {
		if s.dead {
			return
		}
		s = ex.phis(fr, from, to, s)
		if fr.loops.isBack(from, to) {
			if to == skipHdr && back != nil {
				back(to, s)
				return
			}
			if lc := headerCtx[to]; lc != nil {
				ex.loopPreserve(fr, lc, s)
			}
			return
		}
		if !inSet[to] {
			if leave != nil {
				leave(to, s)
			}
			return
		}
		in[to] = append(in[to], s)
	}
	for _, b := range order {
		states := in[b]
		if len(states) == 0 {
			continue
		}
		delete(in, b)
		isHdr := fr.loops.headers[b] != nil && b != skipHdr
		force := isHdr
		for _, x := range b.Instrs {
			if _, ok := x.(*ssa.Range); ok {
				force = true // one iterator for all
			}
		}
		states = ex.mergeStates(fr, b, states, force)
		if isHdr && len(states) > 1 {
			panic(unsupported{"states that cannot be merged before a loop"})
		}
		for _, s := range states {
			if isHdr {
				lc := ex.enterLoop(fr, b, s)
				headerCtx[b] = lc
				s = lc.st
			}
			ex.block(fr, b, s, go1, ret)
		}
	}
}

func (ex *Exec) phis(fr *Frame, from, to *ssa.BasicBlock, s *State) *State {
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
		}
	}
	var vals []*Val
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, ex.val(fr, s, p.Edges[idx]))
	}
	for i, p := range phis {
		v := vals[i]
		if v.T == nil || !types.Identical(v.T, p.Type()) {
			nv := *v
			nv.T = p.Type()
			v = &nv
		}
		s.env[p] = v
	}
	return s
}

// block executes instructions of b from state s.
func (ex *Exec) block(fr *Frame, b *ssa.BasicBlock, s *State, edge func(from, to *ssa.BasicBlock, s *State), ret func(*State, *Val)) {
	ex.instrs(fr, b, 0, s, edge, ret)
}

func (ex *Exec) instrs(fr *Frame, b *ssa.BasicBlock, i int, s *State, edge func(from, to *ssa.BasicBlock, s *State), ret func(*State, *Val)) {
	for ; i < len(b.Instrs); i++ {
		if s.dead {
			return
		}
		ex.steps++
		if ex.steps > 3000000 {
			panic(unsupported{"symbolic execution budget exceeded"})
		}
		in := b.Instrs[i]
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			edge(b, b.Succs[0], s)
			return
		case *ssa.If:
			c := ex.val(fr, s, in.Cond).t()
			if c == tTrue || hasFactNear(s.facts, c) {
				edge(b, b.Succs[0], s)
				return
			}
			if c == tFalse || hasFactNear(s.facts, tNot(c)) {
				edge(b, b.Succs[1], s)
				return
			}
			s2 := s.clone()
			s.assume(c)
			s2.assume(tNot(c))
			edge(b, b.Succs[0], s)
			edge(b, b.Succs[1], s2)
			return
		case *ssa.Return:
			var res *Val
			if len(in.Results) == 1 {
				res = ex.val(fr, s, in.Results[0])
			} else {
				res = &Val{Tup: []*Val{}}
				for _, r := range in.Results {
					res.Tup = append(res.Tup, ex.val(fr, s, r))
				}
			}
			ret(s, res)
			return
		case *ssa.Panic:
			ex.oblige(s, "panic", "panic unreachable", in, tFalse, nil)
			return
		case *ssa.RunDefers:
			// run deferred calls in LIFO order; they may fork
			ds := s.defers
			s.defers = nil
			states := []*State{s}
			for k := len(ds) - 1; k >= 0; k-- {
				var nx []*State
				for _, x := range states {
					for _, o := range ex.invoke(fr, x, in, ds[k].call, ds[k].fn, ds[k].args) {
						nx = append(nx, o.st)
					}
				}
				states = nx
			}
			for _, x := range states {
				ex.instrs(fr, b, i+1, x, edge, ret)
			}
			return
		case *ssa.Defer:
			d := &deferred{call: &in.Call}
			d.fn, d.args = ex.callTarget(fr, s, &in.Call)
			s.defers = append(s.defers, d)
			continue
		case *ssa.Call:
			fnv, args := ex.callTarget(fr, s, &in.Call)
			outs := ex.invoke(fr, s, in, &in.Call, fnv, args)
			outs = ex.mergeOutcomes(fr, outs)
			for k := range outs {
				o := outs[k]
				if o.st.dead {
					continue
				}
				if o.res != nil {
					o.st.env[in] = o.res
				}
				if k == len(outs)-1 {
					s = o.st
				} else {
					ex.instrs(fr, b, i+1, o.st, edge, ret)
				}
			}
			if len(outs) == 0 || outs[len(outs)-1].st.dead {
				return
			}
			continue
		}
		ex.instr(fr, s, in)
	}
}

func setv(s *State, v ssa.Value, t types.Type, L ...*Term) {
	s.env[v] = &Val{T: t, L: L}
}

func (ex *Exec) nilCheck(fr *Frame, s *State, in ssa.Instruction, p *Path) {
	if p.kind == 'o' {
		ex.require(s, "nil-deref", "nil pointer dereference of "+typeName(p.root), in, tNe(p.ref, tInt(0)))
	}
}

func (ex *Exec) instr(fr *Frame, s *State, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Alloc:
		s.env[in] = ex.alloc(fr, s, in)
	case *ssa.FieldAddr:
		x := ex.val(fr, s, in.X)
		p := ex.pathOf(s, x)
		ex.nilCheck(fr, s, in, p)
		st := ptrElem(in.X.Type()).Underlying().(*types.Struct)
		off, n := fieldRange(st, in.Field)
		np := *p
		np.off, np.n, np.T = p.off+off, n, st.Field(in.Field).Type()
		s.env[in] = &Val{T: in.Type(), P: &np, L: []*Term{tInt(1)}}
	case *ssa.Field:
		x := ex.val(fr, s, in.X)
		st := in.X.Type().Underlying().(*types.Struct)
		off, n := fieldRange(st, in.Field)
		s.env[in] = &Val{T: in.Type(), L: x.L[off : off+n]}
	case *ssa.IndexAddr:
		s.env[in] = ex.indexAddr(fr, s, in)
	case *ssa.Index:
		x := ex.val(fr, s, in.X)
		i := ex.val(fr, s, in.Index).t()
		switch u := in.X.Type().Underlying().(type) {
		case *types.Array:
			ex.require(s, "index", "index in range of array", in, tAnd(tLe(tInt(0), i), tLt(i, tInt(u.Len()))))
			v := &Val{T: in.Type()}
			for _, l := range x.L {
				v.L = append(v.L, tSel(l, i))
			}
			ex.assumeLoaded(s, v)
			s.env[in] = v
		default: // string
			ex.require(s, "index", "index in range of string", in, tAnd(tLe(tInt(0), i), tLt(i, strLen(x.t()))))
			setv(s, in, in.Type(), strAt(x.t(), i))
		}
	case *ssa.Lookup:
		ex.lookup(fr, s, in)
	case *ssa.UnOp:
		ex.unop(fr, s, in)
	case *ssa.BinOp:
		x, y := ex.val(fr, s, in.X), ex.val(fr, s, in.Y)
		s.env[in] = ex.binop(fr, s, in, in.Op, x, y, in.Type())
	case *ssa.Store:
		a := ex.val(fr, s, in.Addr)
		v := ex.val(fr, s, in.Val)
		p := ex.pathOf(s, a)
		ex.nilCheck(fr, s, in, p)
		ex.storeCheck(fr, s, in, p)
		ex.storeVal(s, p, v)
	case *ssa.MakeSlice:
		n := ex.val(fr, s, in.Len).t()
		c := ex.val(fr, s, in.Cap).t()
		ex.require(s, "make", "make slice length in range", in, tAnd(tLe(tInt(0), n), tLe(n, c), tLe(c, tBig(MaxLen))))
		el := in.Type().Underlying().(*types.Slice).Elem()
		a := ex.newArr(s, el, c)
		setv(s, in, in.Type(), a, tInt(0), n, c)
	case *ssa.MakeMap:
		r := ex.newRef(s)
		mt := in.Type().Underlying().(*types.Map)
		dn, ds := mapDomName(mt)
		h := ex.heapGet(s, dn, ds)
		s.assume(tEq(tSel(h, r), zeroSort(arrElem(ds))))
		setv(s, in, in.Type(), r)
	case *ssa.MapUpdate:
		m := ex.val(fr, s, in.Map)
		k := ex.val(fr, s, in.Key)
		v := ex.val(fr, s, in.Value)
		ex.require(s, "nil-map", "write to nil map", in, tNe(m.t(), tInt(0)))
		ex.mapStore(s, in.Map.Type(), m.t(), k.t(), v)
	case *ssa.Slice:
		s.env[in] = ex.slice(fr, s, in)
	case *ssa.Extract:
		t := ex.val(fr, s, in.Tuple)
		s.env[in] = t.Tup[in.Index]
	case *ssa.TypeAssert:
		ex.typeAssert(fr, s, in)
	case *ssa.ChangeType:
		v := *ex.val(fr, s, in.X)
		v.T = in.Type()
		s.env[in] = &v
	case *ssa.ChangeInterface:
		v := *ex.val(fr, s, in.X)
		v.T = in.Type()
		s.env[in] = &v
	case *ssa.MakeInterface:
		x := ex.val(fr, s, in.X)
		s.env[in] = ex.makeIface(s, x, in.X.Type(), in.Type())
	case *ssa.Convert:
		s.env[in] = ex.convert(fr, s, in)
	case *ssa.MakeClosure:
		f := in.Fn.(*ssa.Function)
		c := &Closure{fn: f}
		for _, b := range in.Bindings {
			c.binds = append(c.binds, ex.val(fr, s, b))
		}
		ex.nid++
		c.id = tInt(int64(1000000 + ex.nid))
		ex.closures[c.id] = c
		s.env[in] = &Val{T: in.Type(), L: []*Term{c.id}, C: c}
	case *ssa.Range:
		ex.rangeInit(fr, s, in)
	case *ssa.Next:
		ex.rangeNext(fr, s, in)
	default:
		ex.unsupported(s, in, fmt.Sprintf("instruction %T", in))
		if v, ok := in.(ssa.Value); ok {
			s.env[v] = ex.freshVal(s, "unsup", v.Type())
		}
	}
}

func (ex *Exec) newRef(s *State) *Term {
	r := tAdd(s.alloc, tInt(1))
	s.alloc = r
	return r
}

// newArr allocates a zeroed backing array of n elements.
func (ex *Exec) newArr(s *State, el types.Type, n *Term) *Term {
	r := tAdd(s.alloc, tInt(1))
	if isObjElem(el) {
		s.alloc = freshConst("alloc", SInt)
		s.assume(tEq(s.alloc, tAdd(r, tAdd(n, tInt(1)))))
		// every element object is zero
		q := boundVar("q", SInt)
		for _, l := range leaves(el) {
			h := ex.heapGet(s, "F:"+typeName(el)+l.Path, SArr(SInt, l.Sort))
			s.assume(tForall([]*Term{q}, [][]*Term{{tSel(h, q)}}, tImp(tAnd(tLt(r, q), tLe(q, s.alloc)), tEq(tSel(h, q), zeroLeaf(l)))))
		}
		return r
	}
	s.alloc = r
	for _, l := range leaves(el) {
		h := ex.heapGet(s, "E:"+typeName(el)+l.Path, SArr(SInt, SArr(SInt, l.Sort)))
		s.assume(tEq(tSel(h, r), mk(fmt.Sprintf("(as const %s)", SArr(SInt, l.Sort)), SArr(SInt, l.Sort), zeroLeaf(l))))
	}
	ex.freshFrozen(s, r)
	return r
}

func (ex *Exec) freshFrozen(s *State, r *Term) {
	h := ex.heapGet(s, "X:frozen", SArr(SInt, SInt))
	s.assume(tEq(tSel(h, r), tInt(0)))
}

func (ex *Exec) alloc(fr *Frame, s *State, in *ssa.Alloc) *Val {
	el := ptrElem(in.Type())
	if at, ok := el.Underlying().(*types.Array); ok {
		if at.Len() <= 4096 {
			r := ex.newArr(s, at.Elem(), tInt(at.Len()))
			return &Val{T: in.Type(), P: &Path{kind: 'A', ref: r, root: el, n: len(leaves(el)), T: el}, L: []*Term{r}}
		}
	}
	_, isStruct := el.Underlying().(*types.Struct)
	if isStruct && in.Heap {
		r := ex.newRef(s)
		for _, l := range leaves(el) {
			h := ex.heapGet(s, "F:"+typeName(el)+l.Path, SArr(SInt, l.Sort))
			s.assume(tEq(tSel(h, r), zeroLeaf(l)))
		}
		return &Val{T: in.Type(), L: []*Term{r}}
	}
	c := ex.newCell(in.Comment, el)
	s.cells[c] = zeroVal(el)
	return &Val{T: in.Type(), P: &Path{kind: 'c', cell: c, root: el, n: len(leaves(el)), T: el}, L: []*Term{tInt(1)}}
}

func (ex *Exec) indexAddr(fr *Frame, s *State, in *ssa.IndexAddr) *Val {
	x := ex.val(fr, s, in.X)
	i := ex.val(fr, s, in.Index).t()
	switch u := in.X.Type().Underlying().(type) {
	case *types.Slice:
		ex.require(s, "index", "index in range of "+typeName(in.X.Type()), in, tAnd(tLe(tInt(0), i), tLt(i, x.L[2])))
		return ex.elemPtr(in.Type(), u.Elem(), x.L[0], tAdd(x.L[1], i))
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		ex.require(s, "index", "index in range of array", in, tAnd(tLe(tInt(0), i), tLt(i, tInt(at.Len()))))
		p := ex.pathOf(s, x)
		if p.kind == 'A' {
			return ex.elemPtr(in.Type(), at.Elem(), p.ref, i)
		}
		ex.nilCheck(fr, s, in, p)
		np := *p
		np.aidx = append(append([]*Term(nil), p.aidx...), i)
		np.T = at.Elem()
		return &Val{T: in.Type(), P: &np, L: []*Term{tInt(1)}}
	}
	panic("indexAddr " + in.X.Type().String())
}

func (ex *Exec) elemPtr(pt, el types.Type, arr, abs *Term) *Val {
	if isObjElem(el) {
		return &Val{T: pt, L: []*Term{tAdd(tAdd(arr, abs), tInt(1))}}
	}
	return &Val{T: pt, P: &Path{kind: 'e', ref: arr, idx: abs, root: el, n: len(leaves(el)), T: el}, L: []*Term{tInt(1)}}
}

// storeCheck: writes to bytes shared with an immutable string are violations
func (ex *Exec) storeCheck(fr *Frame, s *State, in ssa.Instruction, p *Path) {
	if p.kind == 'e' && isByte(p.root) {
		ex.frozenCheck(s, in, p.ref, p.idx)
	}
}

func (ex *Exec) frozenCheck(s *State, in ssa.Instruction, arr, idx *Term) {
	h := ex.heapGet(s, "X:frozen", SArr(SInt, SInt))
	ex.require(s, "frozen", "no write to bytes that a string aliases", in, tLe(tSel(h, arr), idx))
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (ex *Exec) storeVal(s *State, p *Path, v *Val) {
	if p.kind == 'c' && p.off == 0 && p.n == len(leaves(p.root)) && len(p.aidx) == 0 {
		s.cells[p.cell] = v
		return
	}
	if v.P != nil && len(v.L) != p.n {
		panic(unsupported{"store of interior pointer"})
	}
	if v.P != nil {
		panic(unsupported{"interior pointer stored to the heap"})
	}
	ex.store(s, p, v)
}

func (ex *Exec) unop(fr *Frame, s *State, in *ssa.UnOp) {
	x := ex.val(fr, s, in.X)
	switch in.Op {
	case token.MUL:
		p := ex.pathOf(s, x)
		ex.nilCheck(fr, s, in, p)
		v := ex.load(s, p)
		if p.kind != 'c' {
			if p.kind == 'g' {
				if k := ex.vr.globalConst(p.name); k != nil {
					ex.vr.assumeGlobal(ex, s, p.name, v)
				}
			}
			ex.assumeLoaded(s, v)
		}
		if v.T == nil || !types.Identical(v.T, in.Type()) {
			nv := *v
			nv.T = in.Type()
			v = &nv
		}
		s.env[in] = v
	case token.NOT:
		setv(s, in, in.Type(), tNot(x.t()))
	case token.SUB:
		if isFloat(in.Type()) {
			setv(s, in, in.Type(), app("fneg", SF64, x.t()))
			return
		}
		setv(s, in, in.Type(), wrapInt(tNeg(x.t()), in.Type()))
	case token.XOR:
		r := tSub(tNeg(x.t()), tInt(1))
		if lo, hi, ok := intRange(in.Type()); ok && lo.Sign() == 0 {
			r = tSub(tBig(hi), x.t())
		}
		setv(s, in, in.Type(), r)
	default:
		ex.unsupported(s, in, "unary "+in.Op.String())
		s.env[in] = ex.freshVal(s, "un", in.Type())
	}
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (ex *Exec) binop(fr *Frame, s *State, in ssa.Instruction, op token.Token, x, y *Val, rt types.Type) *Val {
	b := func(t *Term) *Val { return &Val{T: rt, L: []*Term{t}} }
	xt := x.T
	switch op {
	case token.EQL, token.NEQ:
		e := ex.goEq(s, x, y)
		if op == token.NEQ {
			e = tNot(e)
		}
		return b(e)
	}
	if isString(xt) {
		switch op {
		case token.ADD:
			r := app("scat", SStr, x.t(), y.t())
			s.assume(tLe(app("slen", SInt, r), tBig(MaxLen)))
			return b(r)
		case token.LSS:
			return b(app("slt", SBool, x.t(), y.t()))
		case token.GTR:
			return b(app("slt", SBool, y.t(), x.t()))
		case token.LEQ:
			return b(tOr(app("slt", SBool, x.t(), y.t()), tEq(x.t(), y.t())))
		case token.GEQ:
			return b(tOr(app("slt", SBool, y.t(), x.t()), tEq(x.t(), y.t())))
		}
	}
	if isFloat(xt) {
		switch op {
		case token.LSS:
			return b(app("flt", SBool, x.t(), y.t()))
		case token.GTR:
			return b(app("flt", SBool, y.t(), x.t()))
		case token.LEQ:
			return b(app("fle", SBool, x.t(), y.t()))
		case token.GEQ:
			return b(app("fle", SBool, y.t(), x.t()))
		case token.ADD, token.SUB, token.MUL, token.QUO:
			return b(app("f"+map[token.Token]string{token.ADD: "add", token.SUB: "sub", token.MUL: "mul", token.QUO: "div"}[op], SF64, x.t(), y.t()))
		}
	}
	a, c := x.t(), y.t()
	if isInteger(xt) {
		noteRange(a, xt)
		noteRange(c, y.T)
	}
	arith := func(r *Term) *Val {
		bt, _ := rt.Underlying().(*types.Basic)
		if bt != nil {
			bits, uns := intBits(bt)
			if bits == 64 && !uns {
				if _, isl := r.lit(); !isl {
					// int arithmetic must not overflow (mathematical integers justified by this obligation)
					lo, hi, _ := intRange(rt)
					if l, h, ok := bounds(r, 0); !(ok && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0) {
						if ex.vr.exactInt(fr) {
							return b(wrapInt(r, rt))
						}
						ex.require(s, "overflow", "int arithmetic does not overflow", in, tAnd(tLe(tBig(lo), r), tLe(r, tBig(hi))))
					}
				}
				return b(r)
			}
		}
		r = wrapInt(r, rt)
		noteRange(r, rt)
		return b(r)
	}
	switch op {
	case token.ADD:
		return arith(tAdd(a, c))
	case token.SUB:
		return arith(tSub(a, c))
	case token.MUL:
		return arith(tMul(a, c))
	case token.LSS:
		return b(tLt(a, c))
	case token.LEQ:
		return b(tLe(a, c))
	case token.GTR:
		return b(tGt(a, c))
	case token.GEQ:
		return b(tGe(a, c))
	case token.QUO, token.REM:
		ex.require(s, "div-zero", "division by zero", in, tNe(c, tInt(0)))
		lo, _, _ := intRange(xt)
		nonneg := lo != nil && lo.Sign() >= 0
		if l, _, ok := bounds(a, 0); ok && l.Sign() >= 0 {
			if l2, _, ok := bounds(c, 0); ok && l2.Sign() >= 0 {
				nonneg = true
			}
		}
		if nonneg {
			if op == token.QUO {
				return b(tDiv(a, c))
			}
			return b(tMod(a, c))
		}
		// truncated division
		abs := func(t *Term) *Term { return tIte(tLt(t, tInt(0)), tNeg(t), t) }
		q := tDiv(abs(a), abs(c))
		sq := tIte(tEq(tLt(a, tInt(0)), tLt(c, tInt(0))), q, tNeg(q))
		if op == token.QUO {
			return b(wrapInt(sq, rt))
		}
		return b(tSub(a, tMul(c, sq)))
	case token.SHL:
		if n, ok := c.lit(); ok && n.Sign() >= 0 && n.Cmp(big.NewInt(64)) < 0 {
			r := wrapInt(tMul(a, pow2(uint(n.Uint64()))), rt)
			noteRange(r, rt)
			return b(r)
		}
	case token.SHR:
		if n, ok := c.lit(); ok && n.Sign() >= 0 && n.Cmp(big.NewInt(64)) < 0 {
			return b(tDiv(a, pow2(uint(n.Uint64()))))
		}
	case token.OR, token.XOR, token.AND_NOT:
		x, y := a, c
		if _, ok := x.lit(); ok && op != token.AND_NOT {
			x, y = y, x
		}
		uns := false
		if lo, _, ok := intRange(rt); ok && lo.Sign() == 0 {
			uns = true
		}
		if n, ok := y.lit(); ok && n.Sign() >= 0 && uns {
			// x & n, one run of bits
			m := tInt(0)
			runs := 0
			for i := 0; i < n.BitLen(); {
				j := i
				for j < n.BitLen() && n.Bit(j) == 1 {
					j++
				}
				if j == i {
					i++
					continue
				}
				m = tAdd(m, tMul(tMod(tDivPow(x, uint(i)), pow2(uint(j-i))), pow2(uint(i))))
				runs++
				i = j
			}
			if runs <= 4 {
				r := tSub(x, m)
				if op == token.OR {
					r = tAdd(r, y)
				} else if op == token.XOR {
					r = tAdd(r, tSub(y, m))
				}
				noteRange(r, rt)
				return b(r)
			}
		}
	case token.AND:
		if _, ok := a.lit(); ok {
			a, c = c, a
		}
		if n, ok := c.lit(); ok && n.Sign() >= 0 {
			// split the mask into contiguous runs of ones
			var sum *Term = tInt(0)
			bl := n.BitLen()
			runs := 0
			for i := 0; i < bl; {
				if n.Bit(i) == 0 {
					i++
					continue
				}
				j := i
				for j < bl && n.Bit(j) == 1 {
					j++
				}
				seg := tMul(tMod(tDivPow(a, uint(i)), pow2(uint(j-i))), pow2(uint(i)))
				sum = tAdd(sum, seg)
				runs++
				i = j
			}
			if runs <= 4 {
				noteRange(sum, rt)
				return b(sum)
			}
		}
	}
	if op == token.OR || op == token.XOR || op == token.AND || op == token.AND_NOT || op == token.SHL || op == token.SHR {
		if isBool(rt) {
			if op == token.OR {
				return b(tOr(a, c))
			}
			if op == token.AND {
				return b(tAnd(a, c))
			}
		}
		r := app("bit_"+op.String(), SInt, a, c)
		r = app("bit_"+map[token.Token]string{token.OR: "or", token.XOR: "xor", token.AND: "and", token.AND_NOT: "andnot", token.SHL: "shl", token.SHR: "shr"}[op]+typeName(rt), SInt, a, c)
		v := b(r)
		ex.assumeLoaded(s, v)
		if op == token.OR {
			if lo, _, ok := intRange(rt); ok && lo.Sign() == 0 {
				s.assume(tAnd(tLe(a, r), tLe(c, r), tLe(r, tAdd(a, c))))
			}
		}
		return v
	}
	ex.unsupported(s, in, "binary "+op.String()+" on "+xt.String())
	return ex.freshVal(s, "bin", rt)
}

func tDivPow(a *Term, k uint) *Term {
	if k == 0 {
		return a
	}
	return tDiv(a, pow2(k))
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// goEq is Go's == on values.
func (ex *Exec) goEq(s *State, x, y *Val) *Term {
	if x.P != nil || y.P != nil {
		// interior pointers: nil comparison or identity of paths
		if x.P != nil && y.P != nil {
			if x.P.kind == y.P.kind && x.P.cell == y.P.cell && x.P.ref == y.P.ref && x.P.idx == y.P.idx && x.P.off == y.P.off && x.P.name == y.P.name {
				return tTrue
			}
			return freshConst("ptreq", SBool)
		}
		return tFalse // non-nil against nil
	}
	t := x.T
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.UntypedNil {
		t = y.T
	}
	if _, ok := t.Underlying().(*types.Slice); ok {
		// only comparison with nil
		a := x.L[0]
		if len(x.L) == 4 && len(y.L) == 4 {
			if y.L[0] != tInt(0) {
				a = y.L[0]
			}
		}
		return tEq(a, tInt(0))
	}
	if isFloat(t) {
		return app("feq", SBool, x.t(), y.t())
	}
	if isString(t) {
		e := tEq(x.t(), y.t())
		if !isStrLit(x.t()) && !isStrLit(y.t()) || true {
			if e != tTrue && e != tFalse {
				s.assume(strDiffFact(x.t(), y.t()))
			}
		}
		return e
	}
	if len(x.L) != len(y.L) {
		panic(fmt.Sprintf("goEq %s %s", x.T, y.T))
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		// nil comparison: tag only
		if y.L[0] == tInt(0) {
			return tEq(x.L[0], tInt(0))
		}
		if x.L[0] == tInt(0) {
			return tEq(y.L[0], tInt(0))
		}
	}
	var cs []*Term
	ls := leaves(t)
	for i := range x.L {
		if ls[i].Sort == SF64 {
			cs = append(cs, app("feq", SBool, x.L[i], y.L[i]))
			continue
		}
		cs = append(cs, tEq(x.L[i], y.L[i]))
	}
	return tAnd(cs...)
}

// ---- maps ----

func keySort(mt *types.Map) Sort {
	l := leaves(mt.Key())
	if len(l) != 1 {
		panic(unsupported{"map key type " + mt.Key().String()})
	}
	return l[0].Sort
}

func mapBase(mt *types.Map) string {
	return "M:" + typeName(mt.Key()) + ":" + typeName(mt.Elem())
}
func mapDomName(mt *types.Map) (string, Sort) {
	return mapBase(mt) + "#dom", SArr(SInt, SArr(keySort(mt), SBool))
}

func (ex *Exec) mapDom(s *State, t types.Type, m *Term) *Term {
	mt := t.Underlying().(*types.Map)
	n, so := mapDomName(mt)
	return tSel(ex.heapGet(s, n, so), m)
}

func (ex *Exec) mapVal(s *State, t types.Type, m, k *Term) *Val {
	mt := t.Underlying().(*types.Map)
	v := &Val{T: mt.Elem()}
	for _, l := range leaves(mt.Elem()) {
		h := ex.heapGet(s, mapBase(mt)+l.Path, SArr(SInt, SArr(keySort(mt), l.Sort)))
		v.L = append(v.L, tSel(tSel(h, m), k))
	}
	return v
}

func (ex *Exec) mapStore(s *State, t types.Type, m, k *Term, v *Val) {
	mt := t.Underlying().(*types.Map)
	n, so := mapDomName(mt)
	h := ex.heapGet(s, n, so)
	d := tSel(h, m)
	nd := tStore(d, k, tTrue)
	if keySort(mt) == SStr {
		s.assume(tEq(card(nd), tAdd(card(d), tIte(tSel(d, k), tInt(0), tInt(1)))))
	}
	s.heap[n] = tStore(h, m, nd)
	for i, l := range leaves(mt.Elem()) {
		nm := mapBase(mt) + l.Path
		h := ex.heapGet(s, nm, SArr(SInt, SArr(keySort(mt), l.Sort)))
		s.heap[nm] = tStore(h, m, tStore(tSel(h, m), k, v.L[i]))
	}
}

func (ex *Exec) mapDelete(s *State, t types.Type, m, k *Term) {
	mt := t.Underlying().(*types.Map)
	n, so := mapDomName(mt)
	h := ex.heapGet(s, n, so)
	d := tSel(h, m)
	nd := tStore(d, k, tFalse)
	if keySort(mt) == SStr {
		s.assume(tEq(card(nd), tSub(card(d), tIte(tSel(d, k), tInt(1), tInt(0)))))
	}
	s.heap[n] = tStore(h, m, nd)
}

func (ex *Exec) nilMapFact(s *State, t types.Type, m *Term) {
	if _, ok := m.lit(); ok {
		if m == tInt(0) {
			d := ex.mapDom(s, t, m)
			s.assume(tEq(d, zeroSort(d.sort)))
		}
		return
	}
	d := ex.mapDom(s, t, m)
	s.assume(tImp(tEq(m, tInt(0)), tEq(d, zeroSort(d.sort))))
}

func (ex *Exec) lookup(fr *Frame, s *State, in *ssa.Lookup) {
	x := ex.val(fr, s, in.X)
	k := ex.val(fr, s, in.Index)
	if isString(in.X.Type()) {
		i := k.t()
		ex.require(s, "index", "index in range of string", in, tAnd(tLe(tInt(0), i), tLt(i, strLen(x.t()))))
		v := &Val{T: in.Type(), L: []*Term{strAt(x.t(), i)}}
		ex.assumeLoaded(s, v)
		s.env[in] = v
		return
	}
	ex.nilMapFact(s, in.X.Type(), x.t())
	d := tSel(ex.mapDom(s, in.X.Type(), x.t()), k.t())
	v := ex.mapVal(s, in.X.Type(), x.t(), k.t())
	ex.assumeLoadedIf(s, d, v)
	z := zeroVal(v.T)
	r := &Val{T: v.T}
	for i := range v.L {
		r.L = append(r.L, tIte(d, v.L[i], z.L[i]))
	}
	if in.CommaOk {
		s.env[in] = &Val{T: in.Type(), Tup: []*Val{r, {T: types.Typ[types.Bool], L: []*Term{d}}}}
	} else {
		s.env[in] = r
	}
}

func (ex *Exec) assumeLoadedIf(s *State, c *Term, v *Val) {
	t := &State{alloc: s.alloc}
	ex.assumeLoaded(t, v)
	for _, f := range t.facts.list() {
		s.assume(tImp(c, f))
	}
}

// ---- slices ----

func (ex *Exec) slice(fr *Frame, s *State, in *ssa.Slice) *Val {
	x := ex.val(fr, s, in.X)
	get := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return ex.val(fr, s, v).t()
	}
	if isString(in.X.Type()) {
		lo := get(in.Low, tInt(0))
		hi := get(in.High, strLen(x.t()))
		ex.require(s, "slice", "string slice bounds", in, tAnd(tLe(tInt(0), lo), tLe(lo, hi), tLe(hi, strLen(x.t()))))
		return &Val{T: in.Type(), L: []*Term{app("ssub", SStr, x.t(), lo, hi)}}
	}
	if _, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		p := ex.pathOf(s, x)
		at := ptrElem(in.X.Type()).Underlying().(*types.Array)
		if p.kind != 'A' {
			panic(unsupported{"slice of array in place"})
		}
		n := tInt(at.Len())
		lo := get(in.Low, tInt(0))
		hi := get(in.High, n)
		ex.require(s, "slice", "slice bounds", in, tAnd(tLe(tInt(0), lo), tLe(lo, hi), tLe(hi, n)))
		return &Val{T: in.Type(), L: []*Term{p.ref, lo, tSub(hi, lo), tSub(n, lo)}}
	}
	lo := get(in.Low, tInt(0))
	hi := get(in.High, x.L[2])
	mx := get(in.Max, x.L[3])
	ex.require(s, "slice", "slice bounds", in, tAnd(tLe(tInt(0), lo), tLe(lo, hi), tLe(hi, mx), tLe(mx, x.L[3])))
	return &Val{T: in.Type(), L: []*Term{x.L[0], tAdd(x.L[1], lo), tSub(hi, lo), tSub(mx, lo)}}
}

// appendOne / append model
func (ex *Exec) appendSlice(fr *Frame, s *State, in ssa.Instruction, st types.Type, a *Val, n *Term, src func(l Leaf, i *Term, row0 *Term) *Term, single []*Term) *Val {
	el := st.Underlying().(*types.Slice).Elem()
	if isObjElem(el) {
		panic(unsupported{"append to slice of " + el.String()})
	}
	arr, off, ln, cp := a.L[0], a.L[1], a.L[2], a.L[3]
	nl := tAdd(ln, n)
	inpl := tLe(nl, cp)
	r := ex.newRef(s)
	ra := tIte(inpl, arr, r)
	ro := tIte(inpl, off, tInt(0))
	nc := freshConst("cap", SInt)
	s.assume(tAnd(tLe(nl, nc), tLe(nc, tBig(MaxLen))))
	s.assume(tImp(inpl, tEq(nc, cp)))
	if isByte(el) {
		h := ex.heapGet(s, "X:frozen", SArr(SInt, SInt))
		s.assume(tEq(tSel(h, r), tInt(0)))
		ex.require(s, "frozen", "append does not overwrite bytes that a string aliases", in, tImp(tAnd(inpl, tLt(tInt(0), n)), tLe(tSel(h, arr), tAdd(off, ln))))
	}
	for _, l := range leaves(el) {
		name := "E:" + typeName(el) + l.Path
		h := ex.heapGet(s, name, SArr(SInt, SArr(SInt, l.Sort)))
		row := tSel(h, arr)
		nr := freshConst("row", SArr(SInt, l.Sort))
		q := boundVar("q", SInt)
		if single != nil {
			v := single[leafIndex(el, l.Path)]
			// new array: copy of the old elements
			s.assume(tForall([]*Term{q}, [][]*Term{{tSel(nr, q)}}, tImp(tAnd(tLe(tInt(0), q), tLt(q, ln)), tEq(tSel(nr, q), tSel(row, tAdd(off, q))))))
			s.heap[name] = tStore(h, ra, tIte(inpl, tStore(row, tAdd(off, ln), v), tStore(nr, ln, v)))
			continue
		}
		// general: the new row agrees with old prefix, then src, then (in place) the rest
		s.assume(tForall([]*Term{q}, [][]*Term{{tSel(nr, q)}}, tAnd(
			tImp(tAnd(tLe(ro, q), tLt(q, tAdd(ro, ln))), tEq(tSel(nr, q), tSel(row, tAdd(off, tSub(q, ro))))),
			tImp(tAnd(tLe(tAdd(ro, ln), q), tLt(q, tAdd(ro, nl))), tEq(tSel(nr, q), src(l, tSub(q, tAdd(ro, ln)), h))),
			tImp(tAnd(inpl, tOr(tLt(q, tAdd(off, ln)), tLe(tAdd(off, nl), q))), tEq(tSel(nr, q), tSel(row, q))))))
		s.heap[name] = tStore(h, ra, nr)
	}
	// appending nothing to a nil slice yields nil; keep arr when n == 0
	ra2 := ra
	return &Val{T: st, L: []*Term{ra2, ro, nl, nc}}
}

func leafIndex(t types.Type, path string) int {
	for i, l := range leaves(t) {
		if l.Path == path {
			return i
		}
	}
	panic("leafIndex " + path)
}

// ---- interfaces ----

func (ex *Exec) makeIface(s *State, x *Val, ct, it types.Type) *Val {
	tag := ex.vr.typeTag(ct)
	var pay *Term
	ls := leaves(ct)
	switch {
	case x.P != nil:
		// interior pointer boxed: opaque non-nil payload
		pay = freshConst("ptrbox", SInt)
	case len(ls) == 1 && ls[0].Sort == SInt:
		pay = x.t()
	case len(ls) == 1 && ls[0].Sort == SBool:
		pay = tIte(x.t(), tInt(1), tInt(0))
	case len(ls) == 1 && ls[0].Sort == SStr:
		pay = app("sbox", SInt, x.t())
	case len(ls) == 1 && ls[0].Sort == SF64:
		pay = app("fbox", SInt, x.t())
	case len(ls) == 0:
		pay = tInt(0)
	default:
		pay = app("box:"+typeName(ct), SInt, x.L...)
		for i, l := range ls {
			s.assume(tEq(app("unbox:"+typeName(ct)+l.Path, l.Sort, pay), x.L[i]))
		}
	}
	// what reflection sees of a basic value
	if b, ok := ct.Underlying().(*types.Basic); ok && x.P == nil {
		if k := kindOf(ct); k > 0 {
			s.assume(tEq(app("rkind", SInt, tag), tInt(k)))
		}
		switch {
		case b.Info()&types.IsString != 0:
			s.assume(tEq(app("rstr", SStr, tag, pay), x.t()))
		case b.Info()&types.IsUnsigned != 0:
			s.assume(tEq(app("ruint", SInt, tag, pay), x.t()))
		case b.Info()&types.IsInteger != 0:
			s.assume(tEq(app("rint", SInt, tag, pay), x.t()))
		}
	}
	return &Val{T: it, L: []*Term{tag, pay}}
}

func (ex *Exec) unbox(s *State, pay *Term, ct types.Type) *Val {
	ls := leaves(ct)
	v := &Val{T: ct}
	switch {
	case len(ls) == 1 && ls[0].Sort == SInt:
		v.L = []*Term{pay}
	case len(ls) == 1 && ls[0].Sort == SBool:
		v.L = []*Term{tEq(pay, tInt(1))}
	case len(ls) == 1 && ls[0].Sort == SStr:
		v.L = []*Term{app("sunbox", SStr, pay)}
	case len(ls) == 1 && ls[0].Sort == SF64:
		v.L = []*Term{app("funbox", SF64, pay)}
	default:
		for _, l := range ls {
			v.L = append(v.L, app("unbox:"+typeName(ct)+l.Path, l.Sort, pay))
		}
	}
	return v
}

func (ex *Exec) typeAssert(fr *Frame, s *State, in *ssa.TypeAssert) {
	x := ex.val(fr, s, in.X)
	at := in.AssertedType
	var ok *Term
	var v *Val
	if it, isI := at.Underlying().(*types.Interface); isI {
		ok = ex.implements(s, x.L[0], at, it)
		v = &Val{T: at, L: []*Term{tIte(ok, x.L[0], tInt(0)), tIte(ok, x.L[1], tInt(0))}}
	} else {
		ok = tEq(x.L[0], ex.vr.typeTag(at))
		u := ex.unbox(s, x.L[1], at)
		ex.assumeLoadedIf(s, ok, u)
		z := zeroVal(at)
		v = &Val{T: at}
		for i := range u.L {
			v.L = append(v.L, tIte(ok, u.L[i], z.L[i]))
		}
	}
	if in.CommaOk {
		s.env[in] = &Val{T: in.Type(), Tup: []*Val{v, {T: types.Typ[types.Bool], L: []*Term{ok}}}}
		return
	}
	ex.require(s, "type-assert", "type assertion to "+typeName(at), in, ok)
	s.env[in] = v
}

func (ex *Exec) implements(s *State, tag *Term, at types.Type, it *types.Interface) *Term {
	if it.NumMethods() == 0 {
		return tNe(tag, tInt(0))
	}
	if n, ok := tag.lit(); ok {
		if n.Sign() == 0 {
			return tFalse
		}
		ct := ex.vr.tagType[n.Int64()]
		if ct != nil {
			return tBool(types.Implements(ct, it))
		}
	}
	r := app("impl:"+typeName(at), SBool, tag)
	s.assume(tImp(r, tNe(tag, tInt(0))))
	return r
}

// ---- conversions ----

func (ex *Exec) convert(fr *Frame, s *State, in *ssa.Convert) *Val {
	x := ex.val(fr, s, in.X)
	from, to := in.X.Type().Underlying(), in.Type().Underlying()
	mkv := func(t *Term) *Val { return &Val{T: in.Type(), L: []*Term{t}} }
	switch {
	case isInteger(from) && isInteger(to):
		noteRange(x.t(), from)
		r := wrapInt(x.t(), to)
		noteRange(r, to)
		return mkv(r)
	case isInteger(from) && isFloat(to):
		return mkv(app("f64_of_int", SF64, x.t()))
	case isFloat(from) && isInteger(to):
		b := to.(*types.Basic)
		bits, uns := intBits(b)
		if bits == 64 && uns {
			return mkv(app("f64_to_u64", SInt, x.t()))
		}
		if bits == 64 {
			return mkv(app("f64_to_i64", SInt, x.t()))
		}
		v := mkv(app("f64_to_"+b.Name(), SInt, x.t()))
		ex.assumeLoaded(s, v)
		return v
	case isFloat(from) && isFloat(to):
		if from.(*types.Basic).Kind() == to.(*types.Basic).Kind() {
			return mkv(x.t())
		}
		if to.(*types.Basic).Kind() == types.Float32 {
			return mkv(app("f64_to_f32", SF64, x.t()))
		}
		return mkv(app("f32_to_f64", SF64, x.t()))
	case isString(from) && isString(to):
		return &Val{T: in.Type(), L: x.L}
	case isInteger(from) && isString(to):
		r := app("srune", SStr, x.t())
		return mkv(r)
	case isString(to):
		if sl, ok := from.(*types.Slice); ok && isByte(sl.Elem()) {
			h := ex.heapGet(s, "E:byte", SArr(SInt, rowSort))
			h = ex.byteHeap(s)
			return mkv(bts(tSel(h, x.L[0]), x.L[1], x.L[2]))
		}
	case isString(from):
		if sl, ok := to.(*types.Slice); ok && isByte(sl.Elem()) {
			return ex.strToBytes(s, x.t(), in.Type())
		}
	}
	ex.unsupported(s, in, fmt.Sprintf("conversion %s -> %s", in.X.Type(), in.Type()))
	return ex.freshVal(s, "conv", in.Type())
}

var byteName = ""

func (ex *Exec) byteHeap(s *State) *Term {
	return ex.heapGet(s, byteHeapName(), SArr(SInt, rowSort))
}

func byteHeapName() string { return "E:" + typeName(types.Typ[types.Byte]) }

func (ex *Exec) strToBytes(s *State, str *Term, t types.Type) *Val {
	r := ex.newRef(s)
	ex.freshFrozen(s, r)
	h := ex.byteHeap(s)
	s.assume(tEq(tSel(h, r), app("srow", rowSort, str)))
	n := strLen(str)
	if _, ok := n.lit(); !ok {
		s.assume(tLe(tInt(0), n))
	}
	c := freshConst("cap", SInt)
	s.assume(tAnd(tLe(n, c), tLe(c, tBig(MaxLen))))
	return &Val{T: t, L: []*Term{r, tInt(0), n, c}}
}

// ---- range ----

func (ex *Exec) rangeInit(fr *Frame, s *State, in *ssa.Range) {
	x := ex.val(fr, s, in.X)
	it := &Iter{m: x}
	if isString(in.X.Type()) {
		it.cell = ex.newCell("c_pos", types.Typ[types.Int])
		s.cells[it.cell] = &Val{T: types.Typ[types.Int], L: []*Term{tInt(0)}}
	} else {
		it.isMap = true
		ex.nilMapFact(s, in.X.Type(), x.t())
		it.d0 = ex.mapDom(s, in.X.Type(), x.t())
		it.cell = ex.newCell("c_visited", nil)
		s.cells[it.cell] = &Val{L: []*Term{zeroSort(it.d0.sort)}}
		if keySort(in.X.Type().Underlying().(*types.Map)) == SStr {
			// the keys in the order in which they come, and how many came
			c := s.cells[it.cell]
			c.L = append(c.L, freshConst("seq", SArr(SInt, SStr)), tInt(0))
		}
	}
	s.env[in] = &Val{T: in.Type(), It: it}
}

func (ex *Exec) rangeNext(fr *Frame, s *State, in *ssa.Next) {
	it := ex.val(fr, s, in.Iter).It
	tt := in.Type().(*types.Tuple)
	if !it.isMap {
		str := it.m.t()
		pos := s.cells[it.cell].t()
		s.assume(tAnd(tLe(tInt(0), pos), tLe(pos, strLen(str))))
		ok := tLt(pos, strLen(str))
		r := app("runeat", SInt, str, pos)
		w := app("runew", SInt, str, pos)
		s.assume(tImp(ok, tAnd(tLe(tInt(1), w), tLe(w, tInt(4)), tLe(tAdd(pos, w), strLen(str)))))
		s.assume(tImp(ok, tAnd(tLe(tInt(0), r), tLe(r, tInt(0x10FFFF)))))
		noteRange(r, types.Typ[types.Int32])
		s.cells[it.cell] = &Val{T: types.Typ[types.Int], L: []*Term{tIte(ok, tAdd(pos, w), pos)}}
		s.env[in] = &Val{T: tt, Tup: []*Val{
			{T: types.Typ[types.Bool], L: []*Term{ok}},
			{T: tt.At(1).Type(), L: []*Term{pos}},
			{T: tt.At(2).Type(), L: []*Term{r}}}}
		return
	}
	mt := it.m.T.Underlying().(*types.Map)
	dom := ex.mapDom(s, it.m.T, it.m.t())
	vis := s.cells[it.cell].L[0]
	ok := freshConst("ok", SBool)
	kv := ex.freshVal(s, "key", mt.Key())
	k := kv.t()
	s.assume(tImp(ok, tAnd(tSel(dom, k), tNot(tSel(vis, k)))))
	nv := tStore(vis, k, tTrue)
	same := tEq(it.d0, dom)
	if it.d0 == dom {
		same = tTrue
	}
	q := boundVar("q", kv.L[0].sort)
	if same != tTrue {
		s.assume(tImp(tNot(ok), tForall([]*Term{q}, [][]*Term{{tSel(dom, q)}}, tImp(tAnd(tSel(dom, q), tSel(it.d0, q)), tSel(vis, q)))))
	}
	s.assume(tImp(tAnd(tNot(ok), same), tEq(vis, it.d0)))
	s.assume(tImp(same, tForall([]*Term{q}, [][]*Term{{tSel(vis, q)}}, tImp(tSel(vis, q), tSel(it.d0, q)))))
	if keySort(mt) == SStr {
		s.assume(tImp(ok, tEq(card(nv), tAdd(card(vis), tInt(1)))))
		s.assume(tImp(tAnd(ok, same), tLe(card(nv), card(it.d0))))
		s.assume(tImp(same, tLe(card(vis), card(it.d0))))
	}
	nc := &Val{L: []*Term{tIte(ok, nv, vis)}}
	if oc := s.cells[it.cell]; len(oc.L) == 3 {
		s.assume(tLe(tInt(0), oc.L[2]))
		nc.L = append(nc.L, tIte(ok, tStore(oc.L[1], oc.L[2], k), oc.L[1]), tIte(ok, tAdd(oc.L[2], tInt(1)), oc.L[2]))
	}
	s.cells[it.cell] = nc
	v := ex.mapVal(s, it.m.T, it.m.t(), k)
	ex.assumeLoadedIf(s, ok, v)
	res := &Val{T: tt, Tup: []*Val{{T: types.Typ[types.Bool], L: []*Term{ok}}, kv, v}}
	// unused key/value components have invalid type in the tuple
	s.env[in] = res
}

// ---- merging ----

func lca(a, b *Facts) *Facts {
	for a != b {
		if a == nil || b == nil {
			return nil
		}
		if a.n > b.n {
			a = a.parent
		} else if b.n > a.n {
			b = b.parent
		} else {
			a, b = a.parent, b.parent
		}
	}
	return a
}

func since(f, base *Facts) []*Term {
	var out []*Term
	for g := f; g != base && g != nil; g = g.parent {
		out = append(out, g.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func heapMergeable(ex *Exec, a, b *State) bool {
	for k, v := range a.heap {
		w, ok := b.heap[k]
		if !ok {
			w = ex.initHeap(k, v.sort)
		}
		if w != v && !strings.HasPrefix(k, "G:") {
			return false
		}
	}
	for k, w := range b.heap {
		if _, ok := a.heap[k]; !ok && w != ex.initHeap(k, w.sort) && !strings.HasPrefix(k, "G:") {
			return false
		}
	}
	return true
}

func sameVal(a, b *Val) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil || a.C != b.C || len(a.L) != len(b.L) || len(a.Tup) != len(b.Tup) || a.It != b.It {
		return false
	}
	if (a.P == nil) != (b.P == nil) {
		return false
	}
	if a.P != nil && !samePath(a.P, b.P) {
		return false
	}
	for i := range a.L {
		if a.L[i] != b.L[i] {
			return false
		}
	}
	for i := range a.Tup {
		if !sameVal(a.Tup[i], b.Tup[i]) {
			return false
		}
	}
	return true
}

func samePath(a, b *Path) bool {
	if a.kind != b.kind || a.cell != b.cell || a.ref != b.ref || a.idx != b.idx || a.off != b.off || a.n != b.n || a.name != b.name || len(a.aidx) != len(b.aidx) {
		return false
	}
	for i := range a.aidx {
		if a.aidx[i] != b.aidx[i] {
			return false
		}
	}
	return true
}

func mergeVal(br *Term, a, b *Val) (*Val, bool) {
	if sameVal(a, b) {
		return a, true
	}
	if a == nil || b == nil || a.It != nil || b.It != nil || len(a.L) != len(b.L) || len(a.Tup) != len(b.Tup) {
		return nil, false
	}
	if a.P != nil || b.P != nil {
		return nil, false
	}
	if a.C != nil && len(a.C.binds) > 0 || b.C != nil && len(b.C.binds) > 0 {
		return nil, false
	}
	r := &Val{T: a.T}
	for i := range a.L {
		if a.L[i].sort != b.L[i].sort {
			return nil, false
		}
		r.L = append(r.L, tIte(br, a.L[i], b.L[i]))
	}
	for i := range a.Tup {
		m, ok := mergeVal(br, a.Tup[i], b.Tup[i])
		if !ok {
			return nil, false
		}
		r.Tup = append(r.Tup, m)
	}
	return r, true
}

// merge joins two states; live restricts the environment (nil: keep common entries).
func (ex *Exec) merge(a, b *State, ra, rb *Val) (*State, *Val, bool) {
	base := lca(a.facts, b.facts)
	ea, eb := since(a.facts, base), since(b.facts, base)
	var br *Term
	if len(ea) > 0 && len(eb) > 0 && tNot(ea[0]) == eb[0] {
		br = ea[0]
	} else {
		// drop facts common to both
		sb := map[*Term]bool{}
		for _, t := range eb {
			sb[t] = true
		}
		br = freshConst("path", SBool)
	}
	n := &State{alloc: tIte(br, a.alloc, b.alloc), env: map[ssa.Value]*Val{}, heap: map[string]*Term{}, cells: map[*Cell]*Val{}}
	f := base
	sb := map[*Term]bool{}
	for _, t := range eb {
		sb[t] = true
	}
	sa := map[*Term]bool{}
	for _, t := range ea {
		sa[t] = true
		if sb[t] {
			f = f.add(t)
		} else {
			f = f.add(tImp(br, t))
		}
	}
	for _, t := range eb {
		if !sa[t] {
			f = f.add(tImp(tNot(br), t))
		}
	}
	n.facts = f
	for k, v := range a.env {
		if w, ok := b.env[k]; ok {
			m, ok := mergeVal(br, v, w)
			if ok {
				n.env[k] = m
			} else if isPhiLike(k) {
				return nil, nil, false
			}
		}
	}
	for k, v := range a.heap {
		w, ok := b.heap[k]
		if !ok {
			w = ex.initHeap(k, v.sort)
		}
		n.heap[k] = tIte(br, v, w)
	}
	for k, w := range b.heap {
		if _, ok := a.heap[k]; !ok {
			n.heap[k] = tIte(br, ex.initHeap(k, w.sort), w)
		}
	}
	for k, v := range a.cells {
		if w, ok := b.cells[k]; ok {
			m, ok := mergeVal(br, v, w)
			if !ok {
				return nil, nil, false
			}
			n.cells[k] = m
		} else {
			n.cells[k] = v
		}
	}
	for k, w := range b.cells {
		if _, ok := a.cells[k]; !ok {
			n.cells[k] = w
		}
	}
	if len(a.defers) != len(b.defers) {
		return nil, nil, false
	}
	for i := range a.defers {
		if a.defers[i] != b.defers[i] {
			return nil, nil, false
		}
	}
	n.defers = a.defers
	var r *Val
	if ra != nil {
		m, ok := mergeVal(br, ra, rb)
		if !ok {
			return nil, nil, false
		}
		r = m
	}
	return n, r, true
}

func isPhiLike(v ssa.Value) bool {
	// a value both sides define that cannot be merged (interior pointers, closures): keep the states apart
	return true
}

const maxStates = 24

func (ex *Exec) mergeStates(fr *Frame, b *ssa.BasicBlock, states []*State, force bool) []*State {
	if len(states) <= 1 {
		return states
	}
	// restrict env to values still relevant: those defined in dominators of b, and phis of b
	out := []*State{states[0]}
	force = force || len(states) > maxStates
	for _, s := range states[1:] {
		done := false
		for i, o := range out {
			if !force && !(sameHeapMerge(ex, o, s)) {
				continue
			}
			ex.restrict(b, o)
			ex.restrict(b, s)
			if m, _, ok := ex.merge(o, s, nil, nil); ok {
				out[i] = m
				done = true
				break
			}
		}
		if !done {
			out = append(out, s)
		}
	}
	return out
}

func sameHeapMerge(ex *Exec, a, b *State) bool {
	return heapMergeable(ex, a, b)
}

func (ex *Exec) restrict(b *ssa.BasicBlock, s *State) {
	for v := range s.env {
		in, ok := v.(ssa.Instruction)
		if !ok {
			continue
		}
		if in.Block() == b {
			continue
		}
		if !in.Block().Dominates(b) {
			delete(s.env, v)
		}
	}
}

func (ex *Exec) mergeOutcomes(fr *Frame, outs []Outcome) []Outcome {
	var live []Outcome
	for _, o := range outs {
		if !o.st.dead {
			live = append(live, o)
		}
	}
	if len(live) <= 1 {
		return live
	}
	res := []Outcome{live[0]}
	force := len(live) > maxStates
	for _, o := range live[1:] {
		done := false
		for i, r := range res {
			if !force && !heapMergeable(ex, r.st, o.st) {
				continue
			}
			if m, v, ok := ex.merge(r.st, o.st, r.res, o.res); ok {
				if r.res == nil {
					v = nil
				}
				res[i] = Outcome{m, v}
				done = true
				break
			}
		}
		if !done {
			res = append(res, o)
		}
	}
	return res
}

var _ = sort.Strings
