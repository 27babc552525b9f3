package main

// Evaluation of contract expressions to terms in a symbolic state.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

type specErr string

func (e specErr) Error() string { return string(e) }

type Eval struct {
	ex        *Exec
	st        *State
	old       *State
	pre       *State
	vars      map[string]*Val
	entryVars map[string]*Val
	lookup    func(string, *State) *Val
	iter      *Iter
	depth     int
	pure      bool // no state available (axioms)
	lim       map[string]bool
}

func (ev *Eval) fail(f string, a ...any) *Val { panic(specErr(fmt.Sprintf(f, a...))) }

func mathVal(t *Term) *Val { return &Val{L: []*Term{t}} }

func (ev *Eval) boolT(e *Expr) *Term {
	v := ev.eval(e)
	if len(v.L) != 1 || v.L[0].sort != SBool {
		ev.fail("boolean expected: %s", exprStr(e))
	}
	return v.L[0]
}
func (ev *Eval) intT(e *Expr) *Term {
	v := ev.eval(e)
	if len(v.L) != 1 || v.L[0].sort != SInt {
		ev.fail("integer expected: %s", exprStr(e))
	}
	return v.L[0]
}

func exprStr(e *Expr) string {
	if e == nil {
		return ""
	}
	switch e.Op {
	case "id", "num", "meta":
		return e.S
	case "str":
		return fmt.Sprintf("%q", e.S)
	case "un":
		return e.S + exprStr(e.A[0])
	case "bin":
		return "(" + exprStr(e.A[0]) + " " + e.S + " " + exprStr(e.A[1]) + ")"
	case "sel":
		return exprStr(e.A[0]) + "." + e.S
	case "idx":
		return exprStr(e.A[0]) + "[" + exprStr(e.A[1]) + "]"
	case "slice":
		return exprStr(e.A[0]) + "[" + exprStr(e.A[1]) + ":" + exprStr(e.A[2]) + "]"
	case "call":
		var as []string
		for _, a := range e.A {
			as = append(as, exprStr(a))
		}
		return e.S + "(" + strings.Join(as, ", ") + ")"
	case "forall", "exists":
		var bs []string
		for _, b := range e.Vars {
			bs = append(bs, b.Name+" "+b.Type)
		}
		return e.Op + " " + strings.Join(bs, ", ") + " :: " + exprStr(e.A[0])
	case "let":
		return "let " + e.S + " = " + exprStr(e.A[0]) + "; " + exprStr(e.A[1])
	}
	return e.Op
}

func (ev *Eval) name(n string) *Val {
	if v, ok := ev.vars[n]; ok {
		return ev.deref(v)
	}
	if ev.lookup != nil {
		if v := ev.lookup(n, ev.st); v != nil {
			return v
		}
	}
	switch n {
	case "true":
		return mathVal(tTrue)
	case "false":
		return mathVal(tFalse)
	case "nil":
		return &Val{T: types.Typ[types.UntypedNil], L: []*Term{tInt(0)}}
	case "alloc":
		return mathVal(ev.st.alloc)
	case "maxlen":
		return mathVal(tBig(MaxLen))
	}
	if f, ok := ev.ex.vr.spec.Fns[n]; ok && len(f.Params) == 0 {
		return ev.specCall(f, nil)
	}
	// package-level constants and variables
	if v := ev.ex.vr.pkgObject(ev, n); v != nil {
		return v
	}
	return ev.fail("unknown name %q", n)
}

// pointer-to-scalar parameters are written *p in contracts
func (ev *Eval) deref(v *Val) *Val { return v }

func (ev *Eval) eval(e *Expr) *Val {
	switch e.Op {
	case "num":
		n, ok := new(big.Int).SetString(e.S, 0)
		if !ok {
			ev.fail("bad number %s", e.S)
		}
		return mathVal(tBig(n))
	case "str":
		return mathVal(tStrLit(e.S))
	case "id":
		return ev.name(e.S)
	case "un":
		switch e.S {
		case "!":
			return mathVal(tNot(ev.boolT(e.A[0])))
		case "-":
			return mathVal(tNeg(ev.intT(e.A[0])))
		case "*":
			v := ev.eval(e.A[0])
			if v.T == nil || ptrElem(v.T) == nil {
				ev.fail("dereference of non-pointer %s", exprStr(e.A[0]))
			}
			return ev.ex.load(ev.st, ev.ex.pathOf(ev.st, v))
		}
	case "let":
		v := ev.eval(e.A[0])
		n := *ev
		n.vars = map[string]*Val{}
		for k, x := range ev.vars {
			n.vars[k] = x
		}
		n.vars[e.S] = v
		n.shadow(e.S)
		return n.eval(e.A[1])
	case "forall", "exists":
		n := *ev
		n.vars = map[string]*Val{}
		for k, x := range ev.vars {
			n.vars[k] = x
		}
		var bv []*Term
		var rng []*Term
		for _, b := range e.Vars {
			s, ty := ev.specSort(b.Type)
			t := boundVar(b.Name, s)
			bv = append(bv, t)
			n.vars[b.Name] = &Val{T: ty, L: []*Term{t}}
			n.shadow(b.Name)
		}
		body := n.boolT(e.A[0])
		var trigs [][]*Term
		for _, tr := range e.Trigs {
			var ts []*Term
			for _, x := range tr {
				v := n.eval(x)
				ts = append(ts, v.L[0])
			}
			trigs = append(trigs, ts)
		}
		_ = rng
		if e.Op == "exists" {
			return mathVal(tExists(bv, body))
		}
		return mathVal(tForall(bv, trigs, body))
	case "bin":
		return ev.bin(e)
	case "sel":
		return ev.sel(e)
	case "idx":
		return ev.index(e)
	case "slice":
		return ev.sliceExpr(e)
	case "call":
		return ev.call(e)
	case "meta":
		if v, ok := ev.vars[e.S]; ok {
			return v
		}
	}
	return ev.fail("cannot evaluate %s", exprStr(e))
}

func (ev *Eval) specSort(t string) (Sort, types.Type) {
	switch t {
	case "int", "":
		return SInt, nil
	case "ref":
		return SInt, nil
	case "bool":
		return SBool, nil
	case "str", "string":
		return SStr, nil
	case "f64":
		return SF64, nil
	case "real":
		return Sort("Real"), nil
	case "row":
		return rowSort, nil
	case "set":
		return domSort, nil
	case "srow":
		return SArr(SInt, SStr), nil
	case "brow":
		return SArr(SInt, SBool), nil
	case "introw":
		return rowSort, nil
	case "strmap":
		return SArr(SStr, SInt), nil
	}
	if ty := ev.ex.vr.typeByName(t); ty != nil {
		ls := leaves(ty)
		if len(ls) == 1 {
			return ls[0].Sort, ty
		}
	}
	panic(specErr("unknown spec sort " + t))
}

// paramSorts: sorts of the leaves a parameter of this type is passed as (slices without their capacity)
func (ev *Eval) paramSorts(t string) ([]Sort, types.Type) {
	if ty := ev.ex.vr.typeByName(t); ty != nil {
		ls := leaves(ty)
		if len(ls) > 1 {
			if _, ok := ty.Underlying().(*types.Slice); ok {
				ls = ls[:3]
			}
			var out []Sort
			for _, l := range ls {
				out = append(out, l.Sort)
			}
			return out, ty
		}
	}
	s, ty := ev.specSort(t)
	return []Sort{s}, ty
}

// isNilVal: the literal nil
func isNilVal(v *Val) bool {
	if v.T == nil {
		return false
	}
	b, ok := v.T.(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}

func (ev *Eval) bin(e *Expr) *Val {
	switch e.S {
	case "&&":
		return mathVal(tAnd(ev.boolT(e.A[0]), ev.boolT(e.A[1])))
	case "||":
		return mathVal(tOr(ev.boolT(e.A[0]), ev.boolT(e.A[1])))
	case "==>":
		a := ev.boolT(e.A[0])
		if a == tFalse {
			return mathVal(tTrue)
		}
		return mathVal(tImp(a, ev.boolT(e.A[1])))
	case "<==>":
		return mathVal(tEq(ev.boolT(e.A[0]), ev.boolT(e.A[1])))
	case "==", "!=":
		a, b := ev.eval(e.A[0]), ev.eval(e.A[1])
		t := ev.eq(a, b, e)
		if e.S == "!=" {
			t = tNot(t)
		}
		return mathVal(t)
	}
	av, bv := ev.eval(e.A[0]), ev.eval(e.A[1])
	if len(av.L) == 1 && av.L[0].sort == SStr && e.S == "+" {
		return mathVal(app("scat", SStr, av.t(), bv.t()))
	}
	if len(av.L) == 1 && av.L[0].sort == SStr && e.S == "<" {
		return mathVal(app("slt", SBool, av.t(), bv.t()))
	}
	if len(av.L) == 1 && len(bv.L) == 1 && av.L[0].sort == "Real" && bv.L[0].sort == "Real" {
		switch e.S {
		case "<":
			return mathVal(tLt(av.L[0], bv.L[0]))
		case "<=":
			return mathVal(tLe(av.L[0], bv.L[0]))
		case ">":
			return mathVal(tGt(av.L[0], bv.L[0]))
		case ">=":
			return mathVal(tGe(av.L[0], bv.L[0]))
		}
	}
	if len(av.L) != 1 || len(bv.L) != 1 || av.L[0].sort != SInt || bv.L[0].sort != SInt {
		ev.fail("integer operands expected in %s", exprStr(e))
	}
	a, b := av.L[0], bv.L[0]
	switch e.S {
	case "+":
		return mathVal(tAdd(a, b))
	case "-":
		return mathVal(tSub(a, b))
	case "*":
		return mathVal(tMul(a, b))
	case "/":
		return mathVal(tDiv(a, b))
	case "%":
		return mathVal(tMod(a, b))
	case "<":
		return mathVal(tLt(a, b))
	case "<=":
		return mathVal(tLe(a, b))
	case ">":
		return mathVal(tGt(a, b))
	case ">=":
		return mathVal(tGe(a, b))
	}
	return ev.fail("operator %s", e.S)
}

func (ev *Eval) eq(a, b *Val, e *Expr) *Term {
	if isNilVal(a) {
		a, b = b, a
	}
	if isNilVal(b) {
		if a.P != nil {
			return tFalse
		}
		if len(a.L) == 0 {
			ev.fail("nil comparison")
		}
		return tEq(a.L[0], tInt(0)) // pointer, slice (arr), interface (tag), map
	}
	if a.P != nil || b.P != nil {
		if a.P != nil && b.P != nil && samePath(a.P, b.P) {
			return tTrue
		}
		ev.fail("comparison of interior pointers")
	}
	a, b = ev.coerceIface(a, b), ev.coerceIface(b, a)
	if len(a.L) != len(b.L) {
		ev.fail("comparison of different shapes in %s", exprStr(e))
	}
	var cs []*Term
	for i := range a.L {
		if a.L[i].sort != b.L[i].sort {
			ev.fail("comparison of different sorts in %s", exprStr(e))
		}
		cs = append(cs, tEq(a.L[i], b.L[i]))
	}
	return tAnd(cs...)
}

// coerceIface boxes a when b is an interface value
func (ev *Eval) coerceIface(a, b *Val) *Val {
	if a.T != nil && b.T != nil && types.IsInterface(b.T) && !types.IsInterface(a.T) && len(a.L) == 1 {
		return ev.ex.makeIface(ev.st, a, a.T, b.T)
	}
	return a
}

func (ev *Eval) sel(e *Expr) *Val {
	if e.A[0].Op == "id" {
		if _, ok := ev.vars[e.A[0].S]; !ok && (ev.lookup == nil || ev.lookup(e.A[0].S, ev.st) == nil) {
			// a global struct such as internal.predict
			if v := ev.ex.vr.pkgObject(ev, e.A[0].S); v == nil {
				if f, ok := ev.ex.vr.spec.Fns[e.A[0].S]; !ok || len(f.Params) != 0 {
					ev.fail("unknown name %q", e.A[0].S)
				}
			}
		}
	}
	p := ev.path(e)
	if p != nil {
		return ev.ex.load(ev.st, p)
	}
	v := ev.eval(e.A[0])
	if v.Tup != nil {
		ev.fail("selector on tuple")
	}
	st, ok := under(v.T).(*types.Struct)
	if !ok {
		return ev.fail("selector %s on non-struct %v", e.S, v.T)
	}
	i := fieldIdx(st, e.S)
	if i < 0 {
		return ev.fail("no field %s in %s", e.S, v.T)
	}
	off, n := fieldRange(st, i)
	return &Val{T: st.Field(i).Type(), L: v.L[off : off+n]}
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func fieldIdx(st *types.Struct, n string) int {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == n {
			return i
		}
	}
	return -1
}

// path resolves an expression denoting a memory location, or returns nil.
func (ev *Eval) path(e *Expr) *Path {
	switch e.Op {
	case "un":
		if e.S == "*" {
			v := ev.eval(e.A[0])
			return ev.ex.pathOf(ev.st, v)
		}
	case "sel":
		var bp *Path
		if b := ev.path(e.A[0]); b != nil {
			if pe := ptrElem(b.T); pe != nil {
				v := ev.ex.load(ev.st, b)
				bp = ev.ex.pathOf(ev.st, v)
			} else {
				bp = b
			}
		} else {
			v := ev.eval(e.A[0])
			if v.T == nil || ptrElem(v.T) == nil {
				return nil
			}
			bp = ev.ex.pathOf(ev.st, v)
		}
		st, ok := under(bp.T).(*types.Struct)
		if !ok {
			return nil
		}
		i := fieldIdx(st, e.S)
		if i < 0 {
			ev.fail("no field %s in %s", e.S, bp.T)
		}
		off, n := fieldRange(st, i)
		np := *bp
		np.off, np.n, np.T = bp.off+off, n, st.Field(i).Type()
		return &np
	case "id":
		if _, ok := ev.vars[e.S]; ok {
			return nil
		}
		if ev.lookup != nil && ev.lookup(e.S, ev.st) != nil {
			return nil
		}
		return ev.ex.vr.globalPath(e.S)
	}
	return nil
}

func (ev *Eval) index(e *Expr) *Val {
	x := ev.eval(e.A[0])
	i := ev.eval(e.A[1])
	if x.T == nil {
		t := x.t()
		if t.sort == SStr {
			return mathVal(strAt(t, i.t()))
		}
		return mathVal(tSel(t, i.t()))
	}
	switch u := x.T.Underlying().(type) {
	case *types.Slice:
		pv := ev.ex.elemPtr(types.NewPointer(u.Elem()), u.Elem(), x.L[0], tAdd(x.L[1], i.t()))
		return ev.ex.load(ev.st, ev.ex.pathOf(ev.st, pv))
	case *types.Map:
		return ev.ex.mapVal(ev.st, x.T, x.t(), i.t())
	case *types.Array:
		v := &Val{T: u.Elem()}
		for _, l := range x.L {
			v.L = append(v.L, tSel(l, i.t()))
		}
		return v
	case *types.Basic:
		if isString(x.T) {
			return mathVal(strAt(x.t(), i.t()))
		}
	}
	return ev.fail("cannot index %s", x.T)
}

func (ev *Eval) sliceExpr(e *Expr) *Val {
	x := ev.eval(e.A[0])
	lo := tInt(0)
	if e.A[1] != nil {
		lo = ev.intT(e.A[1])
	}
	if len(x.L) == 4 {
		hi := x.L[2]
		if e.A[2] != nil {
			hi = ev.intT(e.A[2])
		}
		return &Val{T: x.T, L: []*Term{x.L[0], tAdd(x.L[1], lo), tSub(hi, lo), tSub(x.L[3], lo)}}
	}
	if x.t().sort == SStr {
		hi := strLen(x.t())
		if e.A[2] != nil {
			hi = ev.intT(e.A[2])
		}
		return mathVal(app("ssub", SStr, x.t(), lo, hi))
	}
	return ev.fail("cannot slice")
}

func (ev *Eval) specCall(f *SpecFn, args []*Val) *Val {
	if len(args) != len(f.Params) {
		ev.fail("spec function %s: %d arguments for %d parameters", f.Name, len(args), len(f.Params))
	}
	if f.Macro {
		if ev.depth > 40 {
			ev.fail("macro recursion in %s", f.Name)
		}
		n := *ev
		n.depth++
		n.vars = map[string]*Val{}
		n.lookup = nil
		n.entryVars = nil // the parameters of the macro, also under old()
		for i, p := range f.Params {
			v := args[i]
			if v.T == nil && p.Type != "" {
				if ty := ev.ex.vr.typeByName(p.Type); ty != nil && len(leaves(ty)) == len(v.L) {
					v = &Val{T: ty, L: v.L}
				}
			}
			n.vars[p.Name] = v
		}
		return n.eval(f.Body)
	}
	var ts []*Term
	for i, a := range args {
		ss, _ := ev.paramSorts(f.Params[i].Type)
		if len(a.L) == len(ss) && isNilVal(a) && ss[0] == SInt {
			a = mathVal(tInt(0))
		}
		if len(a.L) != len(ss) && !(len(a.L) == 4 && len(ss) == 3) {
			ev.fail("spec function %s: argument %d has the wrong shape (want %v)", f.Name, i, ss)
		}
		for k, s := range ss {
			if a.L[k].sort != s {
				ev.fail("spec function %s: argument %d has the wrong sort (want %s)", f.Name, i, s)
			}
			ts = append(ts, a.L[k])
		}
	}
	if f.Heap {
		for _, n := range f.Reads {
			ts = append(ts, ev.ex.heapGet(ev.st, n, f.ReadSorts[n]))
		}
	}
	s, ty := ev.specSort(f.Ret)
	nm := f.Name
	if f.Heap && ev.ex.vr.readsRound > 0 {
		nm = fmt.Sprintf("%s@r%d.%d", nm, ev.ex.vr.readsRound, len(ts))
	}
	if ev.lim[nm] {
		nm += "@l"
	}
	return &Val{T: ty, L: []*Term{app(nm, s, ts...)}}
}

// shadow: the name is bound inside the expression, old() does not rebind it to an entry value.
func (ev *Eval) shadow(name string) {
	if _, ok := ev.entryVars[name]; !ok {
		return
	}
	m := map[string]*Val{}
	for k, v := range ev.entryVars {
		if k != name {
			m[k] = v
		}
	}
	ev.entryVars = m
}

func (ev *Eval) inOld() *Eval {
	n := *ev
	if ev.old == nil {
		ev.fail("old() has no meaning here")
	}
	n.st = ev.old
	if n.entryVars != nil {
		nv := map[string]*Val{}
		for k, v := range ev.vars {
			nv[k] = v
		}
		for k, v := range n.entryVars {
			nv[k] = v
		}
		n.vars = nv
		n.lookup = nil
	}
	return &n
}

func (ev *Eval) call(e *Expr) *Val {
	switch e.S {
	case "old":
		return ev.inOld().eval(e.A[0])
	case "pre":
		n := *ev
		n.st = ev.pre
		if n.st == nil {
			ev.fail("pre() outside a loop invariant")
		}
		return n.eval(e.A[0])
	case "ite":
		c := ev.boolT(e.A[0])
		a, b := ev.eval(e.A[1]), ev.eval(e.A[2])
		if isNilVal(b) && !isNilVal(a) {
			b = &Val{T: a.T, L: zerosLike(a)}
		}
		if isNilVal(a) && !isNilVal(b) {
			a = &Val{T: b.T, L: zerosLike(b)}
		}
		if len(a.L) != len(b.L) {
			ev.fail("ite shapes")
		}
		r := &Val{T: a.T}
		if a.T == nil {
			r.T = b.T
		}
		for i := range a.L {
			r.L = append(r.L, tIte(c, a.L[i], b.L[i]))
		}
		return r
	case "len":
		v := ev.eval(e.A[0])
		if len(v.L) == 4 {
			return mathVal(v.L[2])
		}
		if v.T != nil {
			switch u := v.T.Underlying().(type) {
			case *types.Map:
				return mathVal(card(ev.ex.mapDom(ev.st, v.T, v.t())))
			case *types.Array:
				return mathVal(tInt(u.Len()))
			}
		}
		if v.t().sort == SStr {
			return mathVal(strLen(v.t()))
		}
		ev.fail("len of %v", v.T)
	case "cap":
		return mathVal(ev.eval(e.A[0]).L[3])
	case "off":
		return mathVal(ev.eval(e.A[0]).L[1])
	case "arr":
		return mathVal(ev.eval(e.A[0]).L[0])
	case "row":
		v := ev.eval(e.A[0])
		sl, ok := under(v.T).(*types.Slice)
		if !ok {
			ev.fail("row of non-slice")
		}
		ls := leaves(sl.Elem())
		if len(ls) != 1 {
			ev.fail("row of slice with structured elements")
		}
		h := ev.ex.heapGet(ev.st, "E:"+typeName(sl.Elem())+ls[0].Path, SArr(SInt, SArr(SInt, ls[0].Sort)))
		return mathVal(tSel(h, v.L[0]))
	case "rowk":
		// rowk(slice, k): the k-th leaf of the elements
		v := ev.eval(e.A[0])
		sl, ok := under(v.T).(*types.Slice)
		if !ok {
			ev.fail("rowk of non-slice")
		}
		kn, _ := ev.intT(e.A[1]).lit()
		k := int(kn.Int64())
		ls := leaves(sl.Elem())
		n, so := leafName("E", sl.Elem(), ls[k])
		return mathVal(tSel(ev.ex.heapGet(ev.st, n, so), v.L[0]))
	case "mkany":
		return &Val{T: types.NewInterfaceType(nil, nil), L: []*Term{ev.intT(e.A[0]), ev.intT(e.A[1])}}
	case "frozenAt":
		v := ev.eval(e.A[0])
		return mathVal(tSel(ev.ex.heapGet(ev.st, "X:frozen", SArr(SInt, SInt)), v.L[0]))
	case "has":
		m := ev.eval(e.A[0])
		k := ev.eval(e.A[1])
		return mathVal(tSel(ev.ex.mapDom(ev.st, m.T, m.t()), k.t()))
	case "dom":
		m := ev.eval(e.A[0])
		return mathVal(ev.ex.mapDom(ev.st, m.T, m.t()))
	case "card":
		return mathVal(card(ev.eval(e.A[0]).t()))
	case "fresh":
		v := ev.eval(e.A[0])
		return mathVal(tAnd(tLt(ev.old.alloc, v.L[0]), tLe(v.L[0], ev.st.alloc)))
	case "allocated":
		v := ev.eval(e.A[0])
		return mathVal(tLe(v.L[0], ev.st.alloc))
	case "str":
		v := ev.eval(e.A[0])
		if len(v.L) != 4 {
			ev.fail("str of non-slice")
		}
		return mathVal(bts(tSel(ev.ex.byteHeap(ev.st), v.L[0]), v.L[1], v.L[2]))
	case "bts":
		return mathVal(bts(ev.eval(e.A[0]).t(), ev.intT(e.A[1]), ev.intT(e.A[2])))
	case "istype":
		v := ev.eval(e.A[0])
		ty := ev.ex.vr.typeByName(e.A[1].S)
		if ty == nil {
			ev.fail("unknown type %s", e.A[1].S)
		}
		return mathVal(tEq(v.L[0], ev.ex.vr.typeTag(ty)))
	case "asref":
		// payload of an interface / pointer value as a typed pointer
		v := ev.eval(e.A[0])
		ty := ev.ex.vr.typeByName(e.A[1].S)
		if ty == nil {
			ev.fail("unknown type %s", e.A[1].S)
		}
		return &Val{T: ty, L: []*Term{v.L[len(v.L)-1]}}
	case "unbox":
		// the value of type T that an interface value holds
		v := ev.eval(e.A[0])
		ty := ev.ex.vr.typeByName(e.A[1].S)
		if ty == nil {
			ev.fail("unknown type %s", e.A[1].S)
		}
		return ev.ex.unbox(ev.st, v.L[1], ty)
	case "tag":
		return mathVal(ev.eval(e.A[0]).L[0])
	case "payload":
		return mathVal(ev.eval(e.A[0]).L[1])
	case "ref":
		v := ev.eval(e.A[0])
		return mathVal(v.L[0])
	case "isfn":
		v := ev.eval(e.A[0])
		f := ev.ex.vr.funcs[e.A[1].S]
		if f == nil {
			ev.fail("unknown function %s", e.A[1].S)
		}
		return mathVal(tEq(v.L[0], ev.ex.vr.funcID(f)))
	case "errIs":
		a, b := ev.eval(e.A[0]), ev.eval(e.A[1])
		b = ev.coerceIface(b, a)
		return mathVal(errIs(a.L, b.L))
	case "visited":
		if ev.iter == nil || !ev.iter.isMap {
			ev.fail("visited outside a map range loop")
		}
		return mathVal(tSel(ev.st.cells[ev.iter.cell].L[0], ev.eval(e.A[0]).t()))
	case "visitedSet":
		if ev.iter == nil || !ev.iter.isMap {
			ev.fail("visited outside a map range loop")
		}
		return mathVal(ev.st.cells[ev.iter.cell].L[0])
	case "iterseq", "itercnt":
		if ev.iter == nil || !ev.iter.isMap || len(ev.st.cells[ev.iter.cell].L) != 3 {
			ev.fail("%s outside a range loop over a map with string keys", e.S)
		}
		if e.S == "iterseq" {
			return mathVal(ev.st.cells[ev.iter.cell].L[1])
		}
		return mathVal(ev.st.cells[ev.iter.cell].L[2])
	case "itermap":
		if ev.iter == nil || !ev.iter.isMap {
			ev.fail("itermap outside a map range loop")
		}
		return ev.iter.m
	case "iterpos":
		if ev.iter == nil || ev.iter.isMap {
			ev.fail("iterpos outside a string range loop")
		}
		return mathVal(ev.st.cells[ev.iter.cell].t())
	case "iterstr":
		if ev.iter == nil || ev.iter.isMap {
			ev.fail("iterstr outside a string range loop")
		}
		return mathVal(ev.iter.m.t())
	case "store":
		a, i, x := ev.eval(e.A[0]).t(), ev.eval(e.A[1]).t(), ev.eval(e.A[2]).t()
		return mathVal(tStore(a, i, x))
	case "emptyset":
		return mathVal(zeroSort(domSort))
	case "ghost":
		// ghost(name): an integer ghost variable
		n := "X:" + e.A[0].S
		return mathVal(ev.ex.heapGet(ev.st, n, SInt))
	case "cbarg", "cbres":
		// cbarg(k, sort): leaf k of the arguments of the calls to functions of the caller, by number of the call; cbres: of the results
		so := map[string]Sort{"srow": SStr, "introw": SInt, "brow": SBool}[e.A[1].S]
		kn, _ := ev.intT(e.A[0]).lit()
		n := cbName(int(kn.Int64()), so)
		if e.S == "cbres" {
			n = fmt.Sprintf("X:cbr%d:%s", kn.Int64(), so)
		}
		return mathVal(ev.ex.heapGet(ev.st, n, SArr(SInt, so)))
	case "heapint":
		// heapint("X:name", ref): integer ghost field
		n := e.A[0].S
		if len(e.A) == 1 { // the whole map
			return mathVal(ev.ex.heapGet(ev.st, n, SArr(SInt, SInt)))
		}
		return mathVal(tSel(ev.ex.heapGet(ev.st, n, SArr(SInt, SInt)), ev.eval(e.A[1]).L[0]))
	case "asV":
		v := ev.eval(e.A[0])
		return &Val{T: types.NewPointer(ev.ex.vr.typeByName("V")), L: []*Term{v.L[len(v.L)-1]}}
	case "min":
		a, b := ev.intT(e.A[0]), ev.intT(e.A[1])
		return mathVal(tIte(tLe(a, b), a, b))
	case "max":
		a, b := ev.intT(e.A[0]), ev.intT(e.A[1])
		return mathVal(tIte(tLe(a, b), b, a))
	case "f2i":
		return mathVal(app("f64_to_i64", SInt, ev.eval(e.A[0]).t()))
	case "f2u":
		return mathVal(app("f64_to_u64", SInt, ev.eval(e.A[0]).t()))
	case "i2f":
		return mathVal(app("f64_of_int", SF64, ev.intT(e.A[0])))
	case "feq":
		return mathVal(app("feq", SBool, ev.eval(e.A[0]).t(), ev.eval(e.A[1]).t()))
	case "flt":
		return mathVal(app("flt", SBool, ev.eval(e.A[0]).t(), ev.eval(e.A[1]).t()))
	case "fneg":
		return mathVal(app("fneg", SF64, ev.eval(e.A[0]).t()))
	case "isNaN":
		return mathVal(app("fisnan", SBool, ev.eval(e.A[0]).t()))
	case "isInf":
		return mathVal(app("fisinf", SBool, ev.eval(e.A[0]).t()))
	case "raw":
		// raw("fname", "sort", args...): an uninterpreted background function
		s, _ := ev.specSort(e.A[1].S)
		var ts []*Term
		for _, a := range e.A[2:] {
			ts = append(ts, ev.eval(a).L...)
		}
		return mathVal(app(e.A[0].S, s, ts...))
	case "wrap":
		// wrap(x, "uint64")
		ty := ev.ex.vr.typeByName(e.A[1].S)
		return mathVal(wrapInt(ev.intT(e.A[0]), ty))
	case "eqrange":
		// eqrange(r1, r2, lo, hi): rows agree on [lo,hi)
		a, b := ev.eval(e.A[0]).t(), ev.eval(e.A[1]).t()
		lo, hi := ev.intT(e.A[2]), ev.intT(e.A[3])
		if a == b {
			return mathVal(tTrue)
		}
		q := boundVar("q", SInt)
		trigs := [][]*Term{{tSel(a, q)}}
		if len(e.A) > 4 {
			trigs = append(trigs, []*Term{tSel(b, q)})
		}
		return mathVal(tForall([]*Term{q}, trigs, tImp(tAnd(tLe(lo, q), tLt(q, hi)), tEq(tSel(a, q), tSel(b, q)))))
	case "reveal":
		// reveal(f(args)): true; the definition of f holds for these arguments
		f := ev.ex.vr.spec.Fns[e.A[0].S]
		if f == nil || !f.Opaque {
			ev.fail("reveal: no opaque function %s", e.A[0].S)
		}
		var as []*Val
		for _, x := range e.A[0].A {
			as = append(as, ev.eval(x))
		}
		return mathVal(ev.revealTerm(f, as))
	case "lim":
		// lim(f(args)): the same value, without unfolding its definition
		n := *ev
		n.lim = map[string]bool{e.A[0].S: true}
		return n.eval(e.A[0])
	case "samefor":
		// samefor(f): every heap entry the heap-dependent function f reads is as in the old state
		f := ev.ex.vr.spec.Fns[e.A[0].S]
		if f == nil || !f.Heap {
			ev.fail("samefor: no heap-dependent function %s", e.A[0].S)
		}
		var cs []*Term
		for _, n := range f.Reads {
			cs = append(cs, tEq(ev.ex.heapGet(ev.st, n, f.ReadSorts[n]), ev.ex.heapGet(ev.old, n, f.ReadSorts[n])))
		}
		return mathVal(tAnd(cs...))
	case "unchanged":
		// unchanged(T): no allocated-before object of type T changed
		var cs []*Term
		for _, a := range e.A {
			for _, n := range ev.ex.vr.heapNamesOf(ev.ex, a.S) {
				so := ev.ex.heapSorts[n]
				if so == "" {
					continue
				}
				cs = append(cs, ev.ex.frameFormula(n, ev.old, ev.st, ev.old.alloc, nil))
			}
		}
		return mathVal(tAnd(cs...))
	}
	if f, ok := ev.ex.vr.spec.Fns[e.S]; ok {
		var args []*Val
		for _, a := range e.A {
			args = append(args, ev.eval(a))
		}
		return ev.specCall(f, args)
	}
	return ev.fail("unknown spec function %s", e.S)
}

func zerosLike(v *Val) []*Term {
	var out []*Term
	for _, t := range v.L {
		out = append(out, zeroSort(t.sort))
	}
	return out
}

func errIs(a, b []*Term) *Term {
	return app("errIs", SBool, a[0], a[1], b[0], b[1])
}
