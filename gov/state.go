package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type Val struct {
	T   types.Type
	L   []*Term
	P   *Path
	C   *Closure
	Tup []*Val
	It  *Iter
}

type Closure struct {
	fn    *ssa.Function
	binds []*Val
	recv  *Val // bound method
	id    *Term
}

type Cell struct {
	name string
	T    types.Type
	id   int
}

type Iter struct {
	isMap bool
	m     *Val  // map value or string value
	d0    *Term // domain at range start
	cell  *Cell // ghost: visited set or position
}

type Path struct {
	kind byte // 'c','o','e','g','A'
	cell *Cell
	ref  *Term
	idx  *Term
	root types.Type
	off  int
	n    int
	aidx []*Term // indices into fixed-size arrays inside the root
	T    types.Type
	name string // global
}

type Facts struct {
	parent *Facts
	t      *Term
	n      int
}

func (f *Facts) add(t *Term) *Facts {
	if t == tTrue {
		return f
	}
	if t.op == "and" {
		for _, a := range t.args {
			f = f.add(a)
		}
		return f
	}
	// cheap duplicate check over the last facts
	g := f
	for i := 0; i < 60 && g != nil; i++ {
		if g.t == t {
			return f
		}
		g = g.parent
	}
	n := 1
	if f != nil {
		n = f.n + 1
	}
	return &Facts{f, t, n}
}

func (f *Facts) list() []*Term {
	if f == nil {
		return nil
	}
	out := make([]*Term, f.n)
	for g := f; g != nil; g = g.parent {
		out[g.n-1] = g.t
	}
	return out
}

type State struct {
	facts  *Facts
	env    map[ssa.Value]*Val
	heap   map[string]*Term
	cells  map[*Cell]*Val
	alloc  *Term
	defers []*deferred
	dead   bool
	hook   func(name string, s Sort) *Term // heap entries of a specification-only state
}

type deferred struct {
	call *ssa.CallCommon
	fn   *Val
	args []*Val
}

func (s *State) clone() *State {
	n := *s
	n.env = make(map[ssa.Value]*Val, len(s.env)+8)
	for k, v := range s.env {
		n.env[k] = v
	}
	n.heap = make(map[string]*Term, len(s.heap)+4)
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.cells = make(map[*Cell]*Val, len(s.cells)+4)
	for k, v := range s.cells {
		n.cells[k] = v
	}
	n.defers = append([]*deferred(nil), s.defers...)
	return &n
}

func (s *State) assume(t *Term) {
	if t == tFalse {
		s.dead = true
	}
	s.facts = s.facts.add(t)
}

type Obligation struct {
	Name  string
	Kind  string
	Fn    string
	Pos   token.Position
	Facts *Facts
	Goal  *Term
	Cand  *Cand
	Tags  []string
	Res   solveResult
	Src   string
}

// Cand is a candidate loop invariant instance.
type Cand struct {
	key     string
	text    string
	dropped bool
	user    bool
	why     string
}

type Frame struct {
	fn        *ssa.Function
	args      []*Val
	binds     []*Val
	parent    *Frame
	depth     int
	entry     *State
	ct        *Contract
	loops     *loopInfo
	callID    string
	callerEnv map[ssa.Value]*Val
	callBlock *ssa.BasicBlock
}

type Outcome struct {
	st  *State
	res *Val
}

// ---- heap names ----

func (ex *Exec) heapGet(st *State, name string, s Sort) *Term {
	if t, ok := st.heap[name]; ok {
		if t.sort != s {
			panic(fmt.Sprintf("heap sort mismatch %s: %s vs %s", name, t.sort, s))
		}
		return t
	}
	if st.hook != nil {
		t := st.hook(name, s)
		st.heap[name] = t
		return t
	}
	// lazily created: the initial value of the map is a constant shared by all states of this run
	t := ex.initHeap(name, s)
	st.heap[name] = t
	return t
}

func (ex *Exec) initHeap(name string, s Sort) *Term {
	ex.heapSorts[name] = s
	if t, ok := ex.heapInit[name]; ok {
		return t
	}
	t := constant("H0:"+name, s)
	ex.heapInit[name] = t
	return t
}

// leafNames returns heap name and sort for each leaf of path p.
func (ex *Exec) leafNames(p *Path) ([]string, []Sort) {
	ls := leaves(p.root)
	var ns []string
	var ss []Sort
	for i := p.off; i < p.off+p.n; i++ {
		l := ls[i]
		switch p.kind {
		case 'o':
			ns = append(ns, "F:"+typeName(p.root)+l.Path)
			ss = append(ss, SArr(SInt, l.Sort))
		case 'e':
			ns = append(ns, "E:"+typeName(p.root)+l.Path)
			ss = append(ss, SArr(SInt, SArr(SInt, l.Sort)))
		case 'g':
			ns = append(ns, "G:"+p.name+l.Path)
			ss = append(ss, l.Sort)
		}
	}
	return ns, ss
}

func isObjElem(t types.Type) bool {
	if n, ok := t.(*types.Named); ok {
		if _, ok := n.Underlying().(*types.Struct); ok {
			return n.Obj().Name() == "V"
		}
	}
	return false
}

func ptrElem(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

// pathOf turns a pointer value into an lvalue path.
func (ex *Exec) pathOf(st *State, v *Val) *Path {
	if v.P != nil {
		return v.P
	}
	el := ptrElem(v.T)
	if el == nil {
		panic("pathOf non pointer " + v.T.String())
	}
	return &Path{kind: 'o', ref: v.L[0], root: el, off: 0, n: len(leaves(el)), T: el}
}

func selAll(t *Term, idx []*Term) *Term {
	for _, i := range idx {
		t = tSel(t, i)
	}
	return t
}

func storeAll(t *Term, idx []*Term, v *Term) *Term {
	if len(idx) == 0 {
		return v
	}
	return tStore(t, idx[0], storeAll(tSel(t, idx[0]), idx[1:], v))
}

func (ex *Exec) load(st *State, p *Path) *Val {
	out := &Val{T: p.T}
	switch p.kind {
	case 'c':
		cv := st.cells[p.cell]
		if cv == nil {
			panic("unknown cell " + p.cell.name)
		}
		if p.off == 0 && p.n == len(leaves(p.root)) && len(p.aidx) == 0 {
			return cv
		}
		for i := p.off; i < p.off+p.n; i++ {
			out.L = append(out.L, selAll(cv.L[i], p.aidx))
		}
		return out
	case 'A':
		// whole fixed-size backing array
		at := p.T.Underlying().(*types.Array)
		for _, l := range leaves(at.Elem()) {
			h := ex.heapGet(st, "E:"+typeName(at.Elem())+l.Path, SArr(SInt, SArr(SInt, l.Sort)))
			out.L = append(out.L, tSel(h, p.ref))
		}
		return out
	}
	ns, ss := ex.leafNames(p)
	for i, n := range ns {
		h := ex.heapGet(st, n, ss[i])
		switch p.kind {
		case 'o':
			out.L = append(out.L, selAll(tSel(h, p.ref), p.aidx))
		case 'e':
			out.L = append(out.L, selAll(tSel(tSel(h, p.ref), p.idx), p.aidx))
		case 'g':
			out.L = append(out.L, selAll(h, p.aidx))
		}
	}
	return out
}

func (ex *Exec) store(st *State, p *Path, v *Val) {
	switch p.kind {
	case 'c':
		if p.off == 0 && p.n == len(leaves(p.root)) && len(p.aidx) == 0 {
			st.cells[p.cell] = v
			return
		}
		ov := st.cells[p.cell]
		nv := &Val{T: ov.T, L: append([]*Term(nil), ov.L...)}
		for i := 0; i < p.n; i++ {
			nv.L[p.off+i] = storeAll(ov.L[p.off+i], p.aidx, v.L[i])
		}
		st.cells[p.cell] = nv
		return
	case 'A':
		at := p.T.Underlying().(*types.Array)
		for i, l := range leaves(at.Elem()) {
			n := "E:" + typeName(at.Elem()) + l.Path
			h := ex.heapGet(st, n, SArr(SInt, SArr(SInt, l.Sort)))
			st.heap[n] = tStore(h, p.ref, v.L[i])
		}
		return
	}
	ns, ss := ex.leafNames(p)
	if len(v.L) != len(ns) {
		panic(fmt.Sprintf("store arity %s: %d vs %d", p.T, len(v.L), len(ns)))
	}
	for i, n := range ns {
		h := ex.heapGet(st, n, ss[i])
		switch p.kind {
		case 'o':
			st.heap[n] = tStore(h, p.ref, storeAll(tSel(h, p.ref), p.aidx, v.L[i]))
		case 'e':
			row := tSel(h, p.ref)
			st.heap[n] = tStore(h, p.ref, tStore(row, p.idx, storeAll(tSel(row, p.idx), p.aidx, v.L[i])))
		case 'g':
			st.heap[n] = storeAll(h, p.aidx, v.L[i])
		}
	}
}

func zeroVal(t types.Type) *Val {
	v := &Val{T: t}
	for _, l := range leaves(t) {
		v.L = append(v.L, zeroLeaf(l))
	}
	return v
}

// freshVal makes an arbitrary value of type t and assumes its type facts.
func (ex *Exec) freshVal(st *State, hint string, t types.Type) *Val {
	if tt, ok := t.(*types.Tuple); ok {
		v := &Val{T: t}
		for i := 0; i < tt.Len(); i++ {
			v.Tup = append(v.Tup, ex.freshVal(st, fmt.Sprintf("%s_%d", hint, i), tt.At(i).Type()))
		}
		return v
	}
	v := &Val{T: t}
	for _, l := range leaves(t) {
		v.L = append(v.L, freshConst(hint+l.Path, l.Sort))
	}
	ex.assumeVal(st, v)
	return v
}

// assumeVal adds the facts every Go value of the type satisfies in this state.
func (ex *Exec) assumeVal(st *State, v *Val) {
	for _, f := range valFacts(v.T, v.L) {
		st.assume(f)
	}
	ls := leaves(v.T)
	for i, l := range ls {
		if l.Arr > 0 {
			continue
		}
		if l.Comp == "a" || l.Comp == "" && l.Sort == SInt && isRefType(l.T) {
			if _, isSig := l.T.Underlying().(*types.Signature); isSig {
				continue
			}
			if _, ok := v.L[i].lit(); !ok {
				st.assume(tLe(v.L[i], st.alloc))
			}
		}
	}
}

func (v *Val) t() *Term {
	if len(v.L) != 1 {
		panic(fmt.Sprintf("scalar expected, got %d leaves of %v", len(v.L), v.T))
	}
	return v.L[0]
}

func (v *Val) tup() []*Val {
	if v == nil {
		return nil
	}
	if v.Tup != nil {
		return v.Tup
	}
	return []*Val{v}
}
