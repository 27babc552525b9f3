package main

// Models (assumed contracts) of functions outside the module.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type model func(ex *Exec, fr *Frame, s *State, in ssa.Instruction, args []*Val) *Val

var externModels map[string]model
var moduleModels map[string]model
var externEffects = map[string]func(vr *Verifier, cc *ssa.CallCommon, out map[string]Sort){}
var externIface = map[string]func(ex *Exec, s *State, in ssa.Instruction, recv *Val, args []*Val) *Val{}

const tagRType = 500010    // reflect.Type of a dynamic type
const tagRTypeAny = 500011 // reflect.Type of an element
const tagErr = 500000      // *errors.errorString
const tagErrWrap = 500002  // *fmt.wrapError
const tagErrFmt = 500003   // *fmt.fmtError without %w

func externNote(n string) string {
	if s, ok := externNotes[n]; ok {
		return n + ": " + s
	}
	return n + ": total, no effect on library memory"
}

var externNotes = map[string]string{
	"strconv.ParseFloat": "uninterpreted correctly-rounded conversion of the text",
	"strconv.FormatInt":  "decimal text of the integer (itoa), injective and grammatical",
	"strconv.FormatUint": "decimal text of the integer (itoa), injective and grammatical",
}

func pureExtern(n string) bool {
	for _, p := range []string{"fmt.Sprint", "fmt.Sprintf", "strconv.", "strings.", "math.", "bytes.", "encoding/json.", "reflect.", "(reflect.", "(*encoding/base64", "(github.com/shopspring/decimal", "errors.", "unicode"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

func ufun(name string, ret Sort, ty types.Type) model {
	return func(ex *Exec, fr *Frame, s *State, in ssa.Instruction, args []*Val) *Val {
		var ts []*Term
		for _, a := range args {
			ts = append(ts, a.L...)
		}
		v := &Val{T: ty, L: []*Term{app(name, ret, ts...)}}
		if ret == SInt {
			ex.assumeLoaded(s, v)
		}
		return v
	}
}

func freshErr(ex *Exec, s *State, tag int64) *Val {
	r := ex.newRef(s)
	return &Val{T: types.Universe.Lookup("error").Type(), L: []*Term{tInt(tag), r}}
}

// errIf is an error that is non-nil exactly when c holds
func errIf(ex *Exec, s *State, c *Term, tag int64) *Val {
	r := ex.newRef(s)
	return &Val{T: types.Universe.Lookup("error").Type(), L: []*Term{tIte(c, tInt(tag), tInt(0)), tIte(c, r, tInt(0))}}
}

func initExterns() {
	str := types.Typ[types.String]
	boolT := types.Typ[types.Bool]
	f64 := types.Typ[types.Float64]
	byteS := types.NewSlice(types.Typ[types.Byte])
	mkS := func(t *Term) *Val { return &Val{T: str, L: []*Term{t}} }
	mkB := func(t *Term) *Val { return &Val{T: boolT, L: []*Term{t}} }
	// errors
	{
		t := boundVar("t", SInt)
		p := boundVar("p", SInt)
		u := boundVar("u", SInt)
		q := boundVar("q", SInt)
		e := errIs([]*Term{t, p}, []*Term{u, q})
		addAxiom("errIs-plain", tForall([]*Term{t, p, u, q}, [][]*Term{{e}}, tAnd(
			tImp(tOr(tEq(t, tInt(tagErr)), tEq(t, tInt(tagErrFmt))), tEq(e, tAnd(tEq(t, u), tEq(p, q)))),
			tImp(tEq(t, tInt(0)), tEq(e, tEq(u, tInt(0)))))))
	}
	externModels = map[string]model{
		"errors.New": func(ex *Exec, fr *Frame, s *State, in ssa.Instruction, args []*Val) *Val {
			return freshErr(ex, s, tagErr)
		},
		"errors.Is": func(ex *Exec, fr *Frame, s *State, in ssa.Instruction, args []*Val) *Val {
			return mkB(errIs(args[0].L, args[1].L))
		},
		"fmt.Errorf": func(ex *Exec, fr *Frame, s *State, in ssa.Instruction, args []*Val) *Val {
			f, ok := strLitOf[args[0].t()]
			if !ok {
				v := ex.freshVal(s, "err", types.Universe.Lookup("error").Type())
				s.assume(tNe(v.L[0], tInt(0)))
				return v
			}
			if i := strings.Index(f, "%w"); i >= 0 {
				k := strings.Count(strings.ReplaceAll(f[:i], "%%", ""), "%")
				r := freshErr(ex, s, tagErrWrap)
				el := args[1].T.Underlying().(*types.Slice).Elem()
				pv := ex.elemPtr(types.NewPointer(el), el, args[1].L[0], tAdd(args[1].L[1], tInt(int64(k))))
				w := ex.load(s, ex.pathOf(s, pv))
				u := boundVar("u", SInt)
				q := boundVar("q", SInt)
				e := errIs(r.L, []*Term{u, q})
				s.assume(tForall([]*Term{u, q}, [][]*Term{{e}}, tEq(e, tOr(tAnd(tEq(u, r.L[0]), tEq(q, r.L[1])), errIs(w.L, []*Term{u, q})))))
				return r
			}
			return freshErr(ex, s, tagErrFmt)
		},
		"fmt.Sprintf": func(ex *Exec, fr *Frame, s *State, in ssa.Instruction, args []*Val) *Val {
			r := freshConst("sprintf", SStr)
			if f, ok := strLitOf[args[0].t()]; ok {
				if n, isl := args[1].L[2].lit(); isl && n.Int64() == 1 {
					el := args[1].T.Underlying().(*types.Slice).Elem()
					pv := ex.elemPtr(types.NewPointer(el), el, args[1].L[0], args[1].L[1])
					w := ex.load(s, ex.pathOf(s, pv))
					r = app("sprintf1", SStr, tStrLit(f), w.L[0], w.L[1])
				}
			}
			return mkS(r)
		},
		"(*bytes.Buffer).WriteByte": func(ex *Exec, fr *Frame, s *State, in ssa.Instruction, args []*Val) *Val {
			return zeroVal(in.(*ssa.Call).Type())
		},
		"(*bytes.Buffer).WriteString": func(ex *Exec, fr *Frame, s *State, in ssa.Instruction, args []*Val) *Val {
			return &Val{Tup: []*Val{{T: types.Typ[types.Int], L: []*Term{strLen(args[1].t())}}, zeroVal(types.Universe.Lookup("error").Type())}}
		},
		"(*bytes.Buffer).String": func(ex *Exec, fr *Frame, s *State, in ssa.Instruction, args []*Val) *Val {
			return mkS(freshConst("bufstr", SStr))
		},
		"strings.ToLower":     ufun("tolower", SStr, str),
		"strings.TrimSpace":   ufun("trimspace", SStr, str),
		"strings.TrimLeft":    ufun("trimleft", SStr, str),
		"strconv.Itoa":        ufun("itoa", SStr, str),
		"strconv.FormatFloat": ufun("ffmt", SStr, str),
		"math.IsNaN":          ufun("fisnan", SBool, boolT),
		"math.Abs":            ufun("fabs", SF64, f64),
		"math.NaN":            ufun("f64_nan", SF64, f64),
		"strconv.FormatInt":   func(ex *Exec, fr *Frame, s *State, in ssa.Instruction, args []*Val) *Val { return mkS(fmtInt(args)) },
		"strconv.FormatUint":  func(ex *Exec, fr *Frame, s *State, in ssa.Instruction, args []*Val) *Val { return mkS(fmtInt(args)) },
		"math.Inf": func(ex *Exec, fr *Frame, s *State, in ssa.Instruction, args []*Val) *Val {
			return &Val{T: f64, L: []*Term{tIte(tLe(tInt(0), args[0].t()), constant1("f64_inf"), app("fneg", SF64, constant1("f64_inf")))}}
		},
		"math.IsInf": func(ex *Exec, fr *Frame, s *State, in ssa.Instruction, args []*Val) *Val {
			f := args[0].t()
			if n, ok := args[1].t().lit(); ok {
				if n.Sign() == 0 {
					return mkB(app("fisinf", SBool, f))
				}
				inf := constant1("f64_inf")
				if n.Sign() < 0 {
					inf = app("fneg", SF64, inf)
				}
				return mkB(app("feq", SBool, f, inf))
			}
			return mkB(freshConst("isinf", SBool))
		},
		"strings.Compare": func(ex *Exec, fr *Frame, s *State, in ssa.Instruction, args []*Val) *Val {
			a, b := args[0].t(), args[1].t()
			return &Val{T: types.Typ[types.Int], L: []*Term{tIte(tEq(a, b), tInt(0), tIte(app("slt", SBool, a, b), tInt(-1), tInt(1)))}}
		},
		"strconv.ParseFloat": func(ex *Exec, fr *Frame, s *State, in ssa.Instruction, args []*Val) *Val {
			t := args[0].t()
			return &Val{Tup: []*Val{{T: f64, L: []*Term{app("parsef", SF64, t)}}, errIf(ex, s, app("parseferr", SBool, t), tagErrFmt)}}
		},
		"bytes.Equal": func(ex *Exec, fr *Frame, s *State, in ssa.Instruction, args []*Val) *Val {
			h := ex.byteHeap(s)
			a := bts(tSel(h, args[0].L[0]), args[0].L[1], args[0].L[2])
			b := bts(tSel(h, args[1].L[0]), args[1].L[1], args[1].L[2])
			if a != b {
				s.assume(strDiffFact(a, b))
			}
			return mkB(tEq(a, b))
		},
		"bytes.TrimSpace": func(ex *Exec, fr *Frame, s *State, in ssa.Instruction, args []*Val) *Val {
			a := args[0]
			h := ex.byteHeap(s)
			row := tSel(h, a.L[0])
			st := app("trim_lo", SInt, bts(row, a.L[1], a.L[2]))
			en := app("trim_hi", SInt, bts(row, a.L[1], a.L[2]))
			s.assume(tAnd(tLe(tInt(0), st), tLe(st, en), tLe(en, a.L[2])))
			empty := tEq(st, en)
			return &Val{T: a.T, L: []*Term{tIte(empty, tInt(0), a.L[0]), tIte(empty, tInt(0), tAdd(a.L[1], st)), tSub(en, st), tIte(empty, tInt(0), tSub(a.L[3], st))}}
		},
		"(*encoding/base64.Encoding).EncodeToString": func(ex *Exec, fr *Frame, s *State, in ssa.Instruction, args []*Val) *Val {
			a := args[1]
			return mkS(app("b64enc", SStr, bts(tSel(ex.byteHeap(s), a.L[0]), a.L[1], a.L[2])))
		},
		"(*encoding/base64.Encoding).DecodeString": func(ex *Exec, fr *Frame, s *State, in ssa.Instruction, args []*Val) *Val {
			t := args[1].t()
			r := ex.strToBytes(s, app("b64dec", SStr, t), byteS)
			return &Val{Tup: []*Val{r, errIf(ex, s, tNot(app("b64ok", SBool, t)), tagErrFmt)}}
		},
		"sync/atomic.LoadUint64":  atomicLoad,
		"sync/atomic.StoreUint64": atomicStore,
		"github.com/shopspring/decimal.NewFromString": func(ex *Exec, fr *Frame, s *State, in ssa.Instruction, args []*Val) *Val {
			t := args[0].t()
			f := in.(*ssa.Call).Call.StaticCallee()
			dt := f.Signature.Results().At(0).Type()
			v := &Val{T: dt}
			for _, l := range leaves(dt) {
				v.L = append(v.L, app("dec"+l.Path, l.Sort, t))
			}
			return &Val{Tup: []*Val{v, errIf(ex, s, app("decerr", SBool, t), tagErrFmt)}}
		},
		"(github.com/shopspring/decimal.Decimal).Equal":              ufun("dec_eq", SBool, boolT),
		"(github.com/shopspring/decimal.Decimal).GreaterThan":        ufun("dec_gt", SBool, boolT),
		"(github.com/shopspring/decimal.Decimal).GreaterThanOrEqual": ufun("dec_ge", SBool, boolT),
		"reflect.ValueOf": func(ex *Exec, fr *Frame, s *State, in ssa.Instruction, args []*Val) *Val {
			rt := in.(*ssa.Call).Call.StaticCallee().Signature.Results().At(0).Type()
			v := zeroVal(rt)
			v.L[0], v.L[1] = args[0].L[0], args[0].L[1]
			return v
		},
		"(reflect.Value).Len": func(ex *Exec, fr *Frame, s *State, in ssa.Instruction, args []*Val) *Val {
			k := ex.valueKind(s, args[0])
			ex.require(s, "reflect", "reflect.Value.Len on a kind with a length", in, tOr(tEq(k, tInt(17)), tEq(k, tInt(18)), tEq(k, tInt(21)), tEq(k, tInt(23)), tEq(k, tInt(24))))
			v := &Val{T: types.Typ[types.Int], L: []*Term{app("rlen", SInt, args[0].L[0], args[0].L[1])}}
			return v
		},
		"(reflect.Value).Index": func(ex *Exec, fr *Frame, s *State, in ssa.Instruction, args []*Val) *Val {
			k := ex.valueKind(s, args[0])
			i := args[1].t()
			ex.require(s, "reflect", "reflect.Value.Index in range on a sequence", in, tAnd(tOr(tEq(k, tInt(17)), tEq(k, tInt(23)), tEq(k, tInt(24))), tLe(tInt(0), i), tLt(i, app("rlen", SInt, args[0].L[0], args[0].L[1]))))
			v := zeroVal(args[0].T)
			v.L[0] = tSel(app("rtags", rowSort, args[0].L[0], args[0].L[1]), i)
			v.L[1] = tSel(app("rpays", rowSort, args[0].L[0], args[0].L[1]), i)
			v.L[2] = tInt(1) // an element: its kind may be Interface
			return v
		},
		"(reflect.Value).Interface": func(ex *Exec, fr *Frame, s *State, in ssa.Instruction, args []*Val) *Val {
			it := in.(*ssa.Call).Type()
			k := ex.rkind(s, args[0].L[0])
			_ = k
			return &Val{T: it, L: []*Term{args[0].L[0], args[0].L[1]}}
		},
		"(reflect.Value).Type": func(ex *Exec, fr *Frame, s *State, in ssa.Instruction, args []*Val) *Val {
			ex.require(s, "reflect", "reflect.Value.Type of a valid value", in, tNe(args[0].L[0], tInt(0)))
			return &Val{T: in.(*ssa.Call).Type(), L: []*Term{tIte(tEq(args[0].L[2], tInt(0)), tInt(tagRType), tInt(tagRTypeAny)), args[0].L[0]}}
		},
		"reflect.TypeOf": func(ex *Exec, fr *Frame, s *State, in ssa.Instruction, args []*Val) *Val {
			return &Val{T: in.(*ssa.Call).Type(), L: []*Term{tIte(tEq(args[0].L[0], tInt(0)), tInt(0), tInt(tagRType)), args[0].L[0]}}
		},
		"(reflect.Value).Kind": func(ex *Exec, fr *Frame, s *State, in ssa.Instruction, args []*Val) *Val {
			kt := in.(*ssa.Call).Call.StaticCallee().Signature.Results().At(0).Type()
			return &Val{T: kt, L: []*Term{ex.valueKind(s, args[0])}}
		},
		"(reflect.Value).Int": func(ex *Exec, fr *Frame, s *State, in ssa.Instruction, args []*Val) *Val {
			v := &Val{T: types.Typ[types.Int64], L: []*Term{app("rint", SInt, args[0].L[0], args[0].L[1])}}
			k := ex.rkind(s, args[0].L[0])
			ex.require(s, "reflect", "reflect.Value.Int on an integer kind", in, tAnd(tLe(tInt(2), k), tLe(k, tInt(6))))
			ex.assumeLoaded(s, v)
			return v
		},
		"(reflect.Value).Uint": func(ex *Exec, fr *Frame, s *State, in ssa.Instruction, args []*Val) *Val {
			v := &Val{T: types.Typ[types.Uint64], L: []*Term{app("ruint", SInt, args[0].L[0], args[0].L[1])}}
			k := ex.rkind(s, args[0].L[0])
			ex.require(s, "reflect", "reflect.Value.Uint on an unsigned kind", in, tAnd(tLe(tInt(7), k), tLe(k, tInt(12))))
			ex.assumeLoaded(s, v)
			return v
		},
		"(reflect.Value).String": func(ex *Exec, fr *Frame, s *State, in ssa.Instruction, args []*Val) *Val {
			return mkS(app("rstr", SStr, args[0].L[0], args[0].L[1]))
		},
	}
	{
		t, q := boundVar("t", SInt), boundVar("p", SInt)
		k := app("rkind", SInt, t)
		addAxiom("rkind-range", tForall([]*Term{t}, [][]*Term{{k}}, tAnd(tLe(tInt(0), k), tLe(k, tInt(26)), tEq(tEq(k, tInt(0)), tEq(t, tInt(0))))))
		l := app("rlen", SInt, t, q)
		addAxiom("rlen-range", tForall([]*Term{t, q}, [][]*Term{{l}}, tAnd(tLe(tInt(0), l), tLe(l, tBig(MaxLen)))))
	}
	externIface["reflect.Type.Kind"] = func(ex *Exec, s *State, in ssa.Instruction, recv *Val, args []*Val) *Val {
		kt := in.(*ssa.Call).Type()
		if n, ok := recv.L[0].lit(); ok && n.Int64() == tagRType {
			return &Val{T: kt, L: []*Term{ex.rkind(s, recv.L[1])}}
		}
		return ex.freshVal(s, "kind", kt)
	}
	externIface["reflect.Type.String"] = func(ex *Exec, s *State, in ssa.Instruction, recv *Val, args []*Val) *Val {
		return ex.freshVal(s, "typename", str)
	}
	_ = byteS
	moduleModels = map[string]model{
		"internal/unsafe.BtoS": func(ex *Exec, fr *Frame, s *State, in ssa.Instruction, args []*Val) *Val {
			// the string shares memory with b: from here on those bytes must not be written
			b := args[0]
			ex.freeze(s, b)
			return mkS(bts(tSel(ex.byteHeap(s), b.L[0]), b.L[1], b.L[2]))
		},
		"internal/unsafe.StoB": func(ex *Exec, fr *Frame, s *State, in ssa.Instruction, args []*Val) *Val {
			r := ex.strToBytes(s, args[0].t(), byteS)
			// never to be written
			h := ex.heapGet(s, "X:frozen", SArr(SInt, SInt))
			s.heap["X:frozen"] = tStore(h, r.L[0], tBig(MaxLen))
			// only the string's own length is readable
			r.L[3] = r.L[2]
			return r
		},
	}
	one := func(n string, f func(vr *Verifier, cc *ssa.CallCommon, out map[string]Sort)) { externEffects[n] = f }
	one("sync/atomic.StoreUint64", func(vr *Verifier, cc *ssa.CallCommon, out map[string]Sort) {})
}

// valueKind: the kind of a reflect.Value; unknown for elements, which may have an interface type
func (ex *Exec) valueKind(s *State, v *Val) *Term {
	if n, ok := v.L[2].lit(); ok && n.Sign() == 0 {
		return ex.rkind(s, v.L[0])
	}
	k := freshConst("kind", SInt)
	s.assume(tAnd(tLe(tInt(0), k), tLe(k, tInt(26))))
	return k
}

// rkind models reflect's Kind as a function of the dynamic type.
func (ex *Exec) rkind(s *State, tag *Term) *Term {
	if n, ok := tag.lit(); ok {
		if t := ex.vr.tagType[n.Int64()]; t != nil {
			if k := kindOf(t); k > 0 {
				s.assume(tEq(app("rkind", SInt, tag), tInt(k)))
				return tInt(k)
			}
		}
		if n.Sign() == 0 {
			return tInt(0)
		}
	}
	k := app("rkind", SInt, tag)
	s.assume(tAnd(tLe(tInt(0), k), tLe(k, tInt(26))))
	s.assume(tEq(tEq(k, tInt(0)), tEq(tag, tInt(0))))
	for id, t := range ex.vr.tagType {
		if kk := kindOf(t); kk > 0 {
			s.assume(tImp(tEq(tag, tInt(id)), tEq(k, tInt(kk))))
		}
	}
	return k
}

func kindOf(t types.Type) int64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.String:
			return 24
		}
	case *types.Array:
		return 17
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	case *types.Signature:
		return 19
	case *types.Chan:
		return 18
	}
	return 0
}

func fmtInt(args []*Val) *Term {
	if n, ok := args[1].t().lit(); ok && n.Int64() == 10 {
		return app("itoa", SStr, args[0].t())
	}
	return app("fmtint", SStr, args[0].t(), args[1].t())
}

func (ex *Exec) freeze(s *State, b *Val) {
	h := ex.heapGet(s, "X:frozen", SArr(SInt, SInt))
	end := tAdd(b.L[1], b.L[2])
	cur := tSel(h, b.L[0])
	s.heap["X:frozen"] = tStore(h, b.L[0], tIte(tLe(cur, end), end, cur))
}

// atomics: shared memory with a global invariant (rely/guarantee): a load yields any value satisfying the invariant,
// a store must establish it.  The invariant is the macro atomicinv_<field> of the contract files.
func atomicLoad(ex *Exec, fr *Frame, s *State, in ssa.Instruction, args []*Val) *Val {
	v := ex.freshVal(s, "atomic", types.Typ[types.Uint64])
	noteRange(v.L[0], types.Typ[types.Uint64])
	if f := atomicInv(ex, args[0]); f != nil && !ex.vr.initPhase(fr) {
		ev := &Eval{ex: ex, st: s, old: s, vars: map[string]*Val{}}
		s.assume(ev.specCall(f, []*Val{v}).t())
	}
	return v
}

func atomicStore(ex *Exec, fr *Frame, s *State, in ssa.Instruction, args []*Val) *Val {
	if f := atomicInv(ex, args[0]); f != nil {
		ev := &Eval{ex: ex, st: s, old: s, vars: map[string]*Val{}}
		ex.require(s, "atomic-inv", "stored value satisfies "+f.Name, in, ev.specCall(f, []*Val{args[1]}).t())
	}
	return nil
}

func atomicInv(ex *Exec, a *Val) *SpecFn {
	if a.P == nil || a.P.kind != 'g' {
		return nil
	}
	ls := leaves(a.P.root)
	nm := ls[a.P.off].Path
	nm = nm[strings.LastIndex(nm, ".")+1:]
	return ex.vr.spec.Fns["atomicinv_"+nm]
}

func (vr *Verifier) initPhase(fr *Frame) bool {
	for f := fr; f != nil; f = f.parent {
		if strings.HasPrefix(f.fn.Name(), "init#") || f.fn.Name() == "init" {
			return true
		}
	}
	return false
}
