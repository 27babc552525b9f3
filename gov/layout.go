package main

// Flattening of Go types into SMT leaves.

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"strings"
)

const modPath = "github.com/Andrew-M-C/go.jsonvalue"

type Leaf struct {
	Path string
	Sort Sort
	T    types.Type // scalar type (or slice/interface/... for component leaves)
	Comp string     // "", "a","o","l","c" (slice), "t","p" (interface)
	Arr  int        // number of enclosing fixed-size array dimensions
}

var leafCache = map[types.Type][]Leaf{}

func shortPkg(s string) string {
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, modPath+".", "")
	return s
}

var typeNames = map[types.Type]string{}
var aliasRe = regexp.MustCompile(`\b(uint8|rune|any)\b`)

// typeName gives identical types the same name (byte and uint8, rune and int32, any and interface{}).
func typeName(t types.Type) string {
	if n, ok := typeNames[t]; ok {
		return n
	}
	n := shortPkg(types.TypeString(t, nil))
	n = aliasRe.ReplaceAllStringFunc(n, func(m string) string {
		return map[string]string{"uint8": "byte", "rune": "int32", "any": "interface{}"}[m]
	})
	typeNames[t] = n
	return n
}

func leaves(t types.Type) []Leaf {
	if l, ok := leafCache[t]; ok {
		return l
	}
	l := leaves1(t)
	leafCache[t] = l
	return l
}

func leaves1(t types.Type) []Leaf {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []Leaf{{Sort: SBool, T: t}}
		case u.Info()&types.IsInteger != 0:
			return []Leaf{{Sort: SInt, T: t}}
		case u.Info()&types.IsString != 0:
			return []Leaf{{Sort: SStr, T: t}}
		case u.Info()&types.IsFloat != 0:
			return []Leaf{{Sort: SF64, T: t}}
		default:
			return []Leaf{{Sort: SInt, T: t}}
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return []Leaf{{Sort: SInt, T: t}}
	case *types.Slice:
		return []Leaf{{"#a", SInt, t, "a", 0}, {"#o", SInt, t, "o", 0}, {"#l", SInt, t, "l", 0}, {"#c", SInt, t, "c", 0}}
	case *types.Interface:
		return []Leaf{{"#t", SInt, t, "t", 0}, {"#p", SInt, t, "p", 0}}
	case *types.Struct:
		var out []Leaf
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range leaves(f.Type()) {
				l.Path = "." + f.Name() + l.Path
				out = append(out, l)
			}
		}
		return out
	case *types.Array:
		var out []Leaf
		for _, l := range leaves(u.Elem()) {
			l.Path = "[]" + l.Path
			l.Sort = SArr(SInt, l.Sort)
			l.Arr++
			out = append(out, l)
		}
		return out
	case *types.Tuple:
		var out []Leaf
		for i := 0; i < u.Len(); i++ {
			for _, l := range leaves(u.At(i).Type()) {
				l.Path = fmt.Sprintf("%d", i) + l.Path
				out = append(out, l)
			}
		}
		return out
	}
	return []Leaf{{Sort: SInt, T: t}}
}

func fieldRange(st *types.Struct, i int) (off, n int) {
	for k := 0; k < i; k++ {
		off += len(leaves(st.Field(k).Type()))
	}
	return off, len(leaves(st.Field(i).Type()))
}

func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	bits, uns := intBits(b)
	one := big.NewInt(1)
	if uns {
		return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(one, bits), one), true
	}
	h := new(big.Int).Lsh(one, bits-1)
	return new(big.Int).Neg(h), new(big.Int).Sub(h, one), true
}

func intBits(b *types.Basic) (uint, bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, false
	case types.Int16:
		return 16, false
	case types.Int32, types.UntypedRune:
		return 32, false
	case types.Uint8:
		return 8, true
	case types.Uint16:
		return 16, true
	case types.Uint32:
		return 32, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, true
	}
	return 64, false
}

// MaxLen bounds every slice and string length (assumption on memory size, recorded in evidence)
var MaxLen = new(big.Int).Lsh(big.NewInt(1), 47)

func zeroLeaf(l Leaf) *Term {
	if l.Arr > 0 {
		inner := l
		inner.Arr--
		inner.Sort = arrElem(l.Sort)
		return mk(fmt.Sprintf("(as const %s)", l.Sort), l.Sort, zeroLeaf(inner))
	}
	return zeroSort(l.Sort)
}
func zeroSort(s Sort) *Term {
	switch s {
	case SInt:
		return tInt(0)
	case SBool:
		return tFalse
	case SStr:
		return tStrLit("")
	case SF64:
		return constant("f64_zero", SF64)
	}
	if s == SArr(SInt, SStr) || s == SArr(SInt, SF64) {
		// not a value for every solver: a constant, by the axioms zeros
		return constantS("zeros_"+string(arrElem(s)), s)
	}
	return mk(fmt.Sprintf("(as const %s)", s), s, zeroSort(arrElem(s)))
}

// leafFacts are the type-derived facts about a scalar leaf value.
func leafFacts(l Leaf, x *Term) []*Term {
	if l.Arr > 0 {
		return nil
	}
	if lo, hi, ok := intRange(l.T); ok && l.Comp == "" {
		if _, isl := x.lit(); isl {
			return nil
		}
		return []*Term{tLe(tBig(lo), x), tLe(x, tBig(hi))}
	}
	return nil
}

func valFacts(t types.Type, L []*Term) []*Term {
	var out []*Term
	ls := leaves(t)
	for i := 0; i < len(ls); i++ {
		l := ls[i]
		if l.Arr > 0 {
			continue
		}
		if l.Comp == "a" {
			a, o, n, c := L[i], L[i+1], L[i+2], L[i+3]
			if _, ok := n.lit(); ok {
				if _, ok := o.lit(); ok {
					if _, ok := c.lit(); ok {
						continue
					}
				}
			}
			out = append(out, tLe(tInt(0), a), tLe(tInt(0), o), tLe(tInt(0), n), tLe(n, c), tLe(tAdd(o, c), tBig(MaxLen)),
				tImp(tEq(a, tInt(0)), tEq(c, tInt(0))))
			continue
		}
		out = append(out, leafFacts(l, L[i])...)
		if l.Comp == "" && l.Sort == SInt {
			if isRefType(l.T) {
				if _, ok := L[i].lit(); !ok {
					out = append(out, tLe(tInt(0), L[i]))
				}
			}
		}
		if l.Comp == "t" {
			if _, ok := L[i].lit(); !ok {
				out = append(out, tLe(tInt(0), L[i]), tImp(tEq(L[i], tInt(0)), tEq(L[i+1], tInt(0))))
			}
		}
	}
	return out
}

func isRefType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return true
	}
	return false
}
