package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Verifier struct {
	readsRound    int
	prog          *ssa.Program
	pkgs          []*ssa.Package
	root          *ssa.Package
	funcs         map[string]*ssa.Function
	spec          *SpecFile
	loopCache     map[*ssa.Function]*loopInfo
	tags          map[string]int64
	tagType       map[int64]types.Type
	fids          map[*ssa.Function]int64
	fnByID        map[int64]*ssa.Function
	prop          string
	trivial       int
	effCache      map[*ssa.Function]map[string]Sort
	constG        map[string]*constGlobal
	externsU      map[string]string
	addrTaken     map[string][]*ssa.Function
	callers       map[*ssa.Function]bool
	scc           map[*ssa.Function]int
	orphans       []*Contract
	named         map[string]types.Type
	assumedAxioms []string
}

type constGlobal struct {
	kind string // "err", "other"
	id   int
}

func keyOf(f *ssa.Function) string { return shortPkg(f.String()) }

func loadRepo(dir string) (*Verifier, error) {
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps | packages.NeedExportFile | packages.NeedTypesSizes, Dir: dir,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off")}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("loading %s: %v", p.PkgPath, e)
		}
	}
	prog, spkgs := ssautil.Packages(ps, ssa.GlobalDebug|ssa.InstantiateGenerics)
	prog.Build()
	vr := &Verifier{prog: prog, funcs: map[string]*ssa.Function{}, loopCache: map[*ssa.Function]*loopInfo{},
		tags: map[string]int64{}, tagType: map[int64]types.Type{}, fids: map[*ssa.Function]int64{}, fnByID: map[int64]*ssa.Function{},
		effCache: map[*ssa.Function]map[string]Sort{}, constG: map[string]*constGlobal{}, externsU: map[string]string{}, addrTaken: map[string][]*ssa.Function{}, named: map[string]types.Type{}}
	for _, p := range spkgs {
		if p == nil {
			continue
		}
		vr.pkgs = append(vr.pkgs, p)
		if p.Pkg.Path() == modPath {
			vr.root = p
		}
	}
	for f := range ssautil.AllFunctions(prog) {
		if f.Pkg == nil || !strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) {
			continue
		}
		if f.Synthetic != "" && f.Synthetic != "package initializer" && !strings.HasPrefix(f.Synthetic, "wrapper") {
			continue
		}
		if f.Synthetic != "" {
			continue
		}
		vr.funcs[keyOf(f)] = f
	}
	vr.scanGlobals()
	vr.scanAddrTaken()
	vr.sccs()
	return vr, nil
}

func (vr *Verifier) inModule(f *ssa.Function) bool {
	p := f.Pkg
	if p == nil && f.Parent() != nil {
		p = f.Parent().Pkg
	}
	if p == nil && f.Object() != nil && f.Object().Pkg() != nil {
		return strings.HasPrefix(f.Object().Pkg().Path(), modPath) && len(f.Blocks) > 0
	}
	return p != nil && strings.HasPrefix(p.Pkg.Path(), modPath)
}

func (vr *Verifier) typeTag(t types.Type) *Term {
	k := types.TypeString(t, nil)
	if id, ok := vr.tags[k]; ok {
		return tInt(id)
	}
	id := int64(len(vr.tags) + 1)
	vr.tags[k] = id
	vr.tagType[id] = t
	return tInt(id)
}

func (vr *Verifier) funcID(f *ssa.Function) *Term {
	if id, ok := vr.fids[f]; ok {
		return tInt(id)
	}
	id := int64(len(vr.fids) + 1000)
	vr.fids[f] = id
	vr.fnByID[id] = f
	return tInt(id)
}

func (vr *Verifier) typeByName(n string) types.Type {
	if t, ok := vr.named[n]; ok {
		return t
	}
	t := vr.typeByName1(n)
	vr.named[n] = t
	return t
}

func (vr *Verifier) typeByName1(n string) types.Type {
	if strings.HasPrefix(n, "*") {
		if e := vr.typeByName(n[1:]); e != nil {
			return types.NewPointer(e)
		}
		return nil
	}
	if strings.HasPrefix(n, "[]") {
		if e := vr.typeByName(n[2:]); e != nil {
			return types.NewSlice(e)
		}
		return nil
	}
	if strings.HasPrefix(n, "map[string]") {
		if e := vr.typeByName(n[11:]); e != nil {
			return types.NewMap(types.Typ[types.String], e)
		}
		return nil
	}
	switch n {
	case "any":
		return types.Universe.Lookup("any").Type()
	case "error":
		return types.Universe.Lookup("error").Type()
	case "struct{}":
		return types.NewStruct(nil, nil)
	}
	for _, b := range types.Typ {
		if b.Name() == n {
			return b
		}
	}
	if n == "byte" {
		return types.Typ[types.Byte]
	}
	if n == "rune" {
		return types.Typ[types.Rune]
	}
	pk, nm := "", n
	if i := strings.LastIndex(n, "."); i >= 0 {
		pk, nm = n[:i], n[i+1:]
	}
	for _, p := range vr.pkgs {
		sp := strings.TrimPrefix(strings.TrimPrefix(p.Pkg.Path(), modPath), "/")
		if sp == pk || (pk != "" && strings.HasSuffix(sp, "/"+pk)) {
			if o, ok := p.Pkg.Scope().Lookup(nm).(*types.TypeName); ok {
				return o.Type()
			}
		}
	}
	return nil
}

func (vr *Verifier) typeMatches(t types.Type, name string) bool {
	if t == nil {
		return false
	}
	if name == "" {
		return true
	}
	w := vr.typeByName(name)
	if w == nil {
		return false
	}
	if types.Identical(t, w) {
		return true
	}
	if name == "[]byte" || name == "int" {
		return types.Identical(t.Underlying(), w)
	}
	return false
}

// ---- globals ----

func (vr *Verifier) scanGlobals() {
	stored := map[*ssa.Global]int{}
	initv := map[*ssa.Global]ssa.Value{}
	for _, p := range vr.pkgs {
		for _, m := range p.Members {
			f, ok := m.(*ssa.Function)
			if !ok {
				continue
			}
			var scan func(f *ssa.Function)
			scan = func(f *ssa.Function) {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if st, ok := in.(*ssa.Store); ok {
							if g, ok := st.Addr.(*ssa.Global); ok {
								if f.Name() == "init" {
									initv[g] = st.Val
								} else {
									stored[g]++
								}
							}
						}
					}
				}
				for _, a := range f.AnonFuncs {
					scan(a)
				}
			}
			scan(f)
		}
	}
	for _, f := range vr.funcs {
		if f.Name() == "init" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						stored[g]++
					}
				}
			}
		}
	}
	n := 0
	var gs []*ssa.Global
	for g := range initv {
		gs = append(gs, g)
	}
	sort.Slice(gs, func(i, j int) bool { return globalName(gs[i]) < globalName(gs[j]) })
	for _, g := range gs {
		v := initv[g]
		if stored[g] > 0 {
			continue
		}
		if types.TypeString(ptrElem(g.Type()), nil) != "error" {
			continue
		}
		if c, ok := v.(*ssa.Call); ok {
			if sc := c.Call.StaticCallee(); sc != nil && (sc.String() == "errors.New" || sc.String() == "fmt.Errorf") {
				n++
				vr.constG[globalName(g)] = &constGlobal{kind: "err", id: n}
			}
		}
	}
}

func (vr *Verifier) globalConst(n string) *constGlobal { return vr.constG[n] }

// error sentinels: initialised once with errors.New and never reassigned (checked syntactically)
func (vr *Verifier) assumeGlobal(ex *Exec, s *State, n string, v *Val) {
	c := vr.constG[n]
	if c.kind == "err" {
		s.assume(tEq(v.L[0], tInt(int64(500000))))
		s.assume(tEq(v.L[1], tInt(int64(-c.id))))
	}
}

func (vr *Verifier) globalPath(n string) *Path {
	for _, p := range vr.pkgs {
		if g, ok := p.Members[n].(*ssa.Global); ok {
			el := ptrElem(g.Type())
			return &Path{kind: 'g', name: globalName(g), root: el, n: len(leaves(el)), T: el}
		}
	}
	return nil
}

func (vr *Verifier) pkgObject(ev *Eval, n string) *Val {
	for _, p := range vr.pkgs {
		switch o := p.Pkg.Scope().Lookup(n).(type) {
		case *types.Const:
			return ev.ex.constVal(ssa.NewConst(o.Val(), o.Type()))
		case *types.Var:
			gp := vr.globalPath(n)
			if gp == nil || ev.st == nil {
				return nil
			}
			if c := vr.globalConst(gp.name); c != nil && c.kind == "err" {
				return &Val{T: gp.T, L: []*Term{tInt(500000), tInt(int64(-c.id))}}
			}
			return ev.ex.load(ev.st, gp)
		}
	}
	return nil
}

// functions whose address is taken, by signature
func (vr *Verifier) scanAddrTaken() {
	seen := map[*ssa.Function]bool{}
	for _, f := range vr.sortedFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				ops = in.Operands(ops)
				for k, o := range ops {
					if o == nil || *o == nil {
						continue
					}
					g, ok := (*o).(*ssa.Function)
					if !ok || seen[g] {
						continue
					}
					if c, ok := in.(ssa.CallInstruction); ok && k == 0 && c.Common().Value == g && !c.Common().IsInvoke() {
						continue
					}
					if _, ok := in.(*ssa.DebugRef); ok {
						continue
					}
					if _, ok := in.(*ssa.MakeClosure); ok {
						continue
					}
					seen[g] = true
					s := types.TypeString(g.Signature, nil)
					vr.addrTaken[sigKey(g.Signature)] = append(vr.addrTaken[sigKey(g.Signature)], g)
					_ = s
				}
			}
		}
	}
}

func sigKey(s *types.Signature) string {
	k := ""
	for i := 0; i < s.Params().Len(); i++ {
		k += types.TypeString(s.Params().At(i).Type(), nil) + ","
	}
	k += "->"
	for i := 0; i < s.Results().Len(); i++ {
		k += types.TypeString(s.Results().At(i).Type(), nil) + ","
	}
	return k
}

func (vr *Verifier) sortedFuncs() []*ssa.Function {
	var out []*ssa.Function
	var add func(f *ssa.Function)
	seen := map[*ssa.Function]bool{}
	add = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, k := range sortedKeys(vr.funcs) {
		add(vr.funcs[k])
	}
	for _, p := range vr.pkgs {
		if f := p.Func("init"); f != nil {
			add(f)
		}
	}
	return out
}

// ---- call graph: static callees, closures, interface candidates ----

func (vr *Verifier) callees(f *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				cc := c.Common()
				if cc.IsInvoke() {
					for _, m := range vr.implementers(cc.Value.Type(), cc.Method) {
						out = append(out, m)
					}
				} else if g := cc.StaticCallee(); g != nil {
					if vr.inModule(g) {
						out = append(out, g)
					} else {
						// a library function may call the methods of the interface values it is given
						for _, a := range cc.Args {
							if mi, ok := a.(*ssa.MakeInterface); ok {
								out = append(out, vr.ifaceMethods(mi)...)
							}
						}
					}
				} else if _, isB := cc.Value.(*ssa.Builtin); !isB {
					out = append(out, vr.addrTaken[sigKey(cc.Signature())]...)
				}
			}
			if mc, ok := in.(*ssa.MakeClosure); ok {
				out = append(out, mc.Fn.(*ssa.Function))
			}
			var ops []*ssa.Value
			for _, o := range in.Operands(ops) {
				if o != nil && *o != nil {
					if g, ok := (*o).(*ssa.Function); ok && vr.inModule(g) {
						out = append(out, g)
					}
				}
			}
		}
	}
	return out
}

// ifaceMethods: the module's methods that a non-empty interface gives access to.
func (vr *Verifier) ifaceMethods(mi *ssa.MakeInterface) []*ssa.Function {
	it, ok := mi.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for i := 0; i < it.NumMethods(); i++ {
		m := vr.prog.LookupMethod(mi.X.Type(), it.Method(i).Pkg(), it.Method(i).Name())
		if m != nil && vr.inModule(m) {
			out = append(out, m)
		}
	}
	return out
}

func (vr *Verifier) implTypes(it types.Type) []types.Type {
	var out []types.Type
	iface := it.Underlying().(*types.Interface)
	for _, p := range vr.pkgs {
		sc := p.Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			t := tn.Type()
			if _, isI := t.Underlying().(*types.Interface); isI {
				continue
			}
			if types.Implements(t, iface) {
				out = append(out, t)
			} else if types.Implements(types.NewPointer(t), iface) {
				out = append(out, types.NewPointer(t))
			}
		}
	}
	return out
}

func (vr *Verifier) closedIface(it types.Type) bool {
	n, ok := it.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		return false
	}
	if strings.Contains(n.Obj().Pkg().Path(), "/internal/") || !n.Obj().Exported() {
		return true
	}
	iface := n.Underlying().(*types.Interface)
	for i := 0; i < iface.NumMethods(); i++ {
		if !iface.Method(i).Exported() {
			return true
		}
	}
	return false
}

func (vr *Verifier) implementers(it types.Type, m *types.Func) []*ssa.Function {
	var out []*ssa.Function
	if !vr.closedIface(it) {
		return nil
	}
	for _, t := range vr.implTypes(it) {
		if f := vr.prog.LookupMethod(t, m.Pkg(), m.Name()); f != nil {
			out = append(out, f)
		}
	}
	return out
}

func (vr *Verifier) sccs() {
	vr.scc = map[*ssa.Function]int{}
	idx := map[*ssa.Function]int{}
	low := map[*ssa.Function]int{}
	on := map[*ssa.Function]bool{}
	var st []*ssa.Function
	n, c := 0, 0
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		n++
		idx[f], low[f] = n, n
		st = append(st, f)
		on[f] = true
		for _, g := range vr.callees(f) {
			if idx[g] == 0 {
				visit(g)
				if low[g] < low[f] {
					low[f] = low[g]
				}
			} else if on[g] && idx[g] < low[f] {
				low[f] = idx[g]
			}
		}
		if low[f] == idx[f] {
			c++
			for {
				x := st[len(st)-1]
				st = st[:len(st)-1]
				on[x] = false
				vr.scc[x] = c
				if x == f {
					break
				}
			}
		}
	}
	for _, f := range vr.sortedFuncs() {
		if idx[f] == 0 {
			visit(f)
		}
	}
}

// ---- effects: heap maps a function may write, transitively ----

func (vr *Verifier) effects(f *ssa.Function) map[string]Sort {
	if e, ok := vr.effCache[f]; ok {
		return e
	}
	seen := map[*ssa.Function]bool{}
	out := map[string]Sort{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for n, s := range vr.directEffects(f) {
			out[n] = s
		}
		for _, g := range vr.callees(f) {
			visit(g)
		}
	}
	visit(f)
	vr.effCache[f] = out
	return out
}

func leafName(kind string, root types.Type, l Leaf) (string, Sort) {
	if kind == "F" {
		return "F:" + typeName(root) + l.Path, SArr(SInt, l.Sort)
	}
	return "E:" + typeName(root) + l.Path, SArr(SInt, SArr(SInt, l.Sort))
}

func (vr *Verifier) directEffects(f *ssa.Function) map[string]Sort {
	out := map[string]Sort{}
	addAll := func(kind string, t types.Type, off, n int) {
		ls := leaves(t)
		for i := off; i < off+n; i++ {
			nm, so := leafName(kind, t, ls[i])
			out[nm] = so
		}
	}
	var addAddr func(v ssa.Value, off, n int)
	// containing struct types of an interior type
	addRoot := func(t types.Type, off, n int) {
		addAll("F", t, off, n)
		for _, p := range vr.pkgs {
			sc := p.Pkg.Scope()
			for _, nm := range sc.Names() {
				tn, ok := sc.Lookup(nm).(*types.TypeName)
				if !ok {
					continue
				}
				st, ok := tn.Type().Underlying().(*types.Struct)
				if !ok {
					continue
				}
				for i := 0; i < st.NumFields(); i++ {
					if types.Identical(st.Field(i).Type(), t) {
						o, _ := fieldRange(st, i)
						addAll("F", tn.Type(), o+off, n)
					}
				}
			}
		}
	}
	addAddr = func(v ssa.Value, off, n int) {
		switch v := v.(type) {
		case *ssa.FieldAddr:
			st := ptrElem(v.X.Type()).Underlying().(*types.Struct)
			o, _ := fieldRange(st, v.Field)
			addAddr(v.X, o+off, n)
		case *ssa.IndexAddr:
			switch u := v.X.Type().Underlying().(type) {
			case *types.Slice:
				if isObjElem(u.Elem()) {
					addAll("F", u.Elem(), off, n)
				} else {
					addAll("E", u.Elem(), off, n)
				}
			case *types.Pointer:
				at := u.Elem().Underlying().(*types.Array)
				if _, isA := v.X.(*ssa.Alloc); isA {
					addAll("E", at.Elem(), off, n)
				} else {
					addAddr(v.X, off, n)
				}
			}
		case *ssa.Alloc:
			el := ptrElem(v.Type())
			if _, isS := el.Underlying().(*types.Struct); isS && v.Heap {
				addAll("F", el, off, n)
			}
			if at, ok := el.Underlying().(*types.Array); ok {
				addAll("E", at.Elem(), 0, len(leaves(at.Elem())))
			}
		case *ssa.Global:
			el := ptrElem(v.Type())
			for i := off; i < off+n; i++ {
				l := leaves(el)[i]
				out["G:"+globalName(v)+l.Path] = l.Sort
			}
		default:
			el := ptrElem(v.Type())
			if el == nil {
				return
			}
			if _, isS := el.Underlying().(*types.Struct); isS {
				addRoot(el, off, n)
			}
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				addAddr(in.Addr, 0, len(leaves(in.Val.Type())))
				if isByte(in.Val.Type()) {
				}
			case *ssa.MapUpdate:
				vr.mapEffects(out, in.Map.Type())
			case ssa.CallInstruction:
				cc := in.Common()
				if bu, ok := cc.Value.(*ssa.Builtin); ok {
					switch bu.Name() {
					case "append", "copy":
						if sl, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok {
							addAll("E", sl.Elem(), 0, len(leaves(sl.Elem())))
						}
					case "delete", "clear":
						vr.mapEffects(out, cc.Args[0].Type())
					}
				}
				if g := cc.StaticCallee(); g != nil {
					key := keyOf(g)
					if strings.HasSuffix(key, "unsafe.BtoS") || strings.HasSuffix(key, "unsafe.StoB") {
						out["X:frozen"] = SArr(SInt, SInt)
					}
					if m, ok := externEffects[g.String()]; ok {
						m(vr, cc, out)
					}
				}
				if _, isB := cc.Value.(*ssa.Builtin); !isB && !cc.IsInvoke() && cc.StaticCallee() == nil {
					// possibly a user callback: ghost trace
					out["X:cbn"] = SInt
					k := 0
					sg := cc.Signature()
					for i := 0; i < sg.Params().Len(); i++ {
						for _, l := range leaves(sg.Params().At(i).Type()) {
							out[cbName(k, l.Sort)] = SArr(SInt, l.Sort)
							k++
						}
					}
					if rt := resultType(sg); rt != nil {
						for i, l := range leaves(rt) {
							out[fmt.Sprintf("X:cbr%d:%s", i, l.Sort)] = SArr(SInt, l.Sort)
						}
					}
				}
			}
		}
	}
	return out
}

func (vr *Verifier) mapEffects(out map[string]Sort, t types.Type) {
	mt := t.Underlying().(*types.Map)
	n, s := mapDomName(mt)
	out[n] = s
	for _, l := range leaves(mt.Elem()) {
		out[mapBase(mt)+l.Path] = SArr(SInt, SArr(keySort(mt), l.Sort))
	}
}

func (vr *Verifier) heapNamesOf(ex *Exec, t string) []string {
	ty := vr.typeByName(t)
	if ty == nil {
		panic(specErr("unknown type " + t))
	}
	var out []string
	for _, l := range leaves(ty) {
		n, so := leafName("F", ty, l)
		ex.heapSorts[n] = so
		out = append(out, n)
	}
	return out
}

func (vr *Verifier) exactInt(fr *Frame) bool {
	for f := fr; f != nil; f = f.parent {
		if f.ct != nil {
			if _, ok := f.ct.Flags["exactint"]; ok {
				return true
			}
		}
	}
	return false
}

func (vr *Verifier) clauseOn(c *Clause) bool {
	if len(c.Tags) == 0 {
		return true
	}
	for _, t := range c.Tags {
		if t == vr.prop {
			return true
		}
	}
	return false
}

// templates returns the loop-invariant templates that apply to a loop.
func (vr *Verifier) templates(ex *Exec, lc *loopCtx) []*Clause {
	var out []*Clause
	add := func(ct *Contract) {
		if ct == nil {
			return
		}
		for _, c := range ct.Inv {
			if vr.clauseOn(c) {
				out = append(out, c)
			}
		}
	}
	add(ex.ct)
	seen := map[*Contract]bool{ex.ct: true}
	for f := lc.fr; f != nil; f = f.parent {
		if ct := vr.spec.Contracts[keyOf(f.fn)]; ct != nil && !seen[ct] {
			seen[ct] = true
			add(ct)
		}
	}
	for _, o := range vr.orphans {
		add(o)
	}
	return out
}

// ---- modifies ----

type modEntry struct {
	name string
	ref  *Term // nil: any
	hi   *Term // with ref: the references in [ref, hi)
	cell *Cell
	path *Path
	cond *Term // nil: always
}

func (ev *Eval) mods(es []*Expr) []modEntry {
	var out []modEntry
	ex := ev.ex
	for _, e := range es {
		if e.Op == "sel" && e.S == "*" {
			v := ev.eval(e.A[0])
			el := ptrElem(v.T)
			for _, l := range leaves(el) {
				n, so := leafName("F", el, l)
				ex.heapSorts[n] = so
				out = append(out, modEntry{name: n, ref: v.L[0]})
			}
			continue
		}
		if e.Op == "call" {
			switch e.S {
			case "elems":
				v := ev.eval(e.A[0])
				el := v.T.Underlying().(*types.Slice).Elem()
				for _, l := range leaves(el) {
					n, so := leafName("E", el, l)
					ex.heapSorts[n] = so
					out = append(out, modEntry{name: n, ref: v.L[0]})
				}
				continue
			case "callbacks":
				// functions of the caller are called
				out = append(out, modEntry{name: "X:cbn"})
				continue
			case "region":
				// region(T, lo, hi): objects of type T with references in [lo, hi)
				ty := ex.vr.typeByName(e.A[0].S)
				if ty == nil {
					ev.fail("unknown type %s", e.A[0].S)
				}
				lo, hi := ev.intT(e.A[1]), ev.intT(e.A[2])
				for _, l := range leaves(ty) {
					n, so := leafName("F", ty, l)
					ex.heapSorts[n] = so
					out = append(out, modEntry{name: n, ref: lo, hi: hi})
				}
				continue
			case "frozen":
				v := ev.eval(e.A[0])
				ex.heapSorts["X:frozen"] = SArr(SInt, SInt)
				out = append(out, modEntry{name: "X:frozen", ref: v.L[0]})
				continue
			case "map":
				v := ev.eval(e.A[0])
				m := map[string]Sort{}
				ex.vr.mapEffects(m, v.T)
				for _, n := range sortedKeys(m) {
					ex.heapSorts[n] = m[n]
					out = append(out, modEntry{name: n, ref: v.t()})
				}
				continue
			case "all":
				for _, a := range e.A {
					nm := a.S
					if a.Op == "sel" {
						nm = exprStr(a)
					}
					ty := ex.vr.typeByName(nm)
					if ty == nil {
						ev.fail("unknown type %s", nm)
					}
					if mt, ok := ty.Underlying().(*types.Map); ok {
						m := map[string]Sort{}
						ex.vr.mapEffects(m, mt)
						for _, n := range sortedKeys(m) {
							ex.heapSorts[n] = m[n]
							out = append(out, modEntry{name: n})
						}
						continue
					}
					kind := "F"
					if sl, ok := ty.Underlying().(*types.Slice); ok {
						kind = "E"
						ty = sl.Elem()
					}
					for _, l := range leaves(ty) {
						n, so := leafName(kind, ty, l)
						ex.heapSorts[n] = so
						out = append(out, modEntry{name: n})
					}
				}
				continue
			case "when":
				c := ev.boolT(e.A[0])
				for _, m := range ev.mods(e.A[1:]) {
					if m.cond != nil {
						m.cond = tAnd(c, m.cond)
					} else {
						m.cond = c
					}
					out = append(out, m)
				}
				continue
			case "allfield":
				// allfield(T.path): that field of every T
				nm := exprStr(e.A[0])
				i := strings.Index(nm, ".")
				ty := ex.vr.typeByName(nm[:i])
				if ty == nil {
					ev.fail("unknown type %s", nm[:i])
				}
				found := false
				for _, l := range leaves(ty) {
					if l.Path == nm[i:] || strings.HasPrefix(l.Path, nm[i:]+".") || strings.HasPrefix(l.Path, nm[i:]+"#") {
						n, so := leafName("F", ty, l)
						ex.heapSorts[n] = so
						out = append(out, modEntry{name: n})
						found = true
					}
				}
				if !found {
					ev.fail("no field %s", nm)
				}
				continue
			case "allelems", "allmap":
				ty := ex.vr.typeByName(e.A[0].S)
				if ty == nil {
					ev.fail("unknown type %s", e.A[0].S)
				}
				if e.S == "allmap" {
					m := map[string]Sort{}
					ex.vr.mapEffects(m, ty)
					for _, n := range sortedKeys(m) {
						ex.heapSorts[n] = m[n]
						out = append(out, modEntry{name: n})
					}
					continue
				}
				for _, l := range leaves(ty) {
					n, so := leafName("E", ty, l)
					ex.heapSorts[n] = so
					out = append(out, modEntry{name: n})
				}
				continue
			case "ghost":
				ex.heapSorts["X:"+e.A[0].S] = SInt
				out = append(out, modEntry{name: "X:" + e.A[0].S})
				continue
			}
		}
		p := ev.path(e)
		if p == nil {
			ev.fail("modifies clause %s is not a location", exprStr(e))
		}
		switch p.kind {
		case 'c':
			out = append(out, modEntry{cell: p.cell, path: p})
		case 'o', 'g':
			ns, ss := ex.leafNames(p)
			for i, n := range ns {
				ex.heapSorts[n] = ss[i]
				out = append(out, modEntry{name: n, ref: p.ref, path: p})
			}
		default:
			ev.fail("modifies clause %s", exprStr(e))
		}
	}
	return out
}

func (ex *Exec) modsFor(n string) []modEntry {
	var out []modEntry
	for _, m := range ex.entryMods {
		if m.name == n {
			out = append(out, m)
		}
	}
	return out
}

// frameFormula: objects allocated at alloc0 and not in mods are unchanged between states a and b.
func (ex *Exec) frameFormula(n string, a, b *State, alloc0 *Term, mods []modEntry) *Term {
	so := ex.heapSorts[n]
	x, y := ex.heapGet(a, n, so), ex.heapGet(b, n, so)
	if x == y {
		return tTrue
	}
	if !strings.HasPrefix(string(so), "(Array") || strings.HasPrefix(n, "G:") {
		if len(mods) > 0 {
			return tTrue
		}
		return tEq(x, y)
	}
	q := boundVar("q", SInt)
	conds := []*Term{tLe(q, alloc0)}
	nilq := tEq(q, tInt(0)) // nothing is ever written through nil
	for _, m := range mods {
		if m.cond != nil {
			switch {
			case m.ref == nil:
				conds = append(conds, tNot(m.cond))
			case m.hi != nil:
				conds = append(conds, tOr(tNot(m.cond), tLt(q, m.ref), tLe(m.hi, q)))
			default:
				conds = append(conds, tOr(tNot(m.cond), tNe(q, m.ref), nilq))
			}
			continue
		}
		if m.ref == nil {
			return tTrue
		}
		if m.hi != nil {
			conds = append(conds, tOr(tLt(q, m.ref), tLe(m.hi, q)))
			continue
		}
		conds = append(conds, tOr(tNe(q, m.ref), nilq))
	}
	return tForall([]*Term{q}, [][]*Term{{tSel(y, q)}}, tImp(tAnd(conds...), tEq(tSel(y, q), tSel(x, q))))
}
