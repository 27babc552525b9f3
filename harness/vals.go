package main

// C12 comparison, C13 deep copies, C14 typed getters, C18 constructors, C21 containment

import (
	"bytes"
	"encoding/base64"
	"errors"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"strconv"
	"strings"

	jv "github.com/Andrew-M-C/go.jsonvalue"
	"github.com/Andrew-M-C/go.jsonvalue/beta"
)

// ---- C12

func ratOf(t string) (*big.Rat, bool) {
	// keep exponents small enough for exact arithmetic
	if i := strings.IndexAny(t, "eE"); i >= 0 {
		e, err := strconv.Atoi(t[i+1:])
		if err != nil || e > 400 || e < -400 {
			return nil, false
		}
	}
	return new(big.Rat).SetString(t)
}

func eqT(a, b *T) bool {
	if a.K != b.K {
		return false
	}
	switch a.K {
	case kStr:
		return a.S == b.S
	case kNum:
		x, _ := ratOf(a.S)
		y, _ := ratOf(b.S)
		return x.Cmp(y) == 0
	case kBool:
		return a.B == b.B
	case kNull:
		return true
	case kArr:
		if len(a.A) != len(b.A) {
			return false
		}
		for i := range a.A {
			if !eqT(a.A[i], b.A[i]) {
				return false
			}
		}
		return true
	case kObj:
		if len(a.M) != len(b.M) {
			return false
		}
		for _, m := range a.M {
			o := b.get(m.K)
			if o == nil || !eqT(m.V, o) {
				return false
			}
		}
		return true
	}
	return false
}

func smallNums(t *T) bool {
	if t.K == kNum {
		_, ok := ratOf(t.S)
		return ok
	}
	for _, a := range t.A {
		if !smallNums(a) {
			return false
		}
	}
	for _, m := range t.M {
		if !smallNums(m.V) {
			return false
		}
	}
	return true
}

// variant is t with small changes, often equal in value
func variant(r *rand.Rand, t *T) *T {
	n := t.clone()
	switch n.K {
	case kNum:
		switch r.Intn(5) {
		case 4:
			// a close neighbour: another last digit of the mantissa
			m, e := n.S, ""
			if i := strings.IndexAny(m, "eE"); i >= 0 {
				m, e = m[:i], m[i:]
			}
			if l := m[len(m)-1]; l >= '1' && l <= '8' {
				if t := m[:len(m)-1] + string([]byte{l + 1}) + e; numGrammar(t) && numInRange(t) {
					n.S = t
				}
			}
		case 0:
			if isIntText(n.S) {
				n.S += ".0"
			} else if !strings.ContainsAny(n.S, "eE") {
				n.S += "0"
			}
		case 1:
			if isIntText(n.S) && len(n.S) < 15 {
				n.S += "e0"
			}
		case 2:
			n.S = genNum(r)
		}
	case kStr:
		if r.Intn(4) == 0 {
			n.S += "x"
		}
	case kBool:
		if r.Intn(4) == 0 {
			n.B = !n.B
		}
	case kArr:
		for i := range n.A {
			n.A[i] = variant(r, n.A[i])
		}
		switch r.Intn(8) {
		case 0:
			n.A = append(n.A, tNull())
		case 1:
			if len(n.A) > 0 {
				n.A = n.A[:len(n.A)-1]
			}
		case 2:
			if len(n.A) > 1 {
				n.A[0], n.A[len(n.A)-1] = n.A[len(n.A)-1], n.A[0]
			}
		}
	case kObj:
		for i := range n.M {
			n.M[i].V = variant(r, n.M[i].V)
		}
		r.Shuffle(len(n.M), func(i, j int) { n.M[i], n.M[j] = n.M[j], n.M[i] })
		switch r.Intn(8) {
		case 0:
			n.set("extra", tNull())
		case 1:
			if len(n.M) > 0 {
				n.del(n.M[0].K)
			}
		case 2:
			if len(n.M) > 0 {
				k := n.M[0].K
				v := n.M[0].V
				n.del(k)
				n.set(k+"'", v)
			}
		}
	}
	if r.Intn(20) == 0 {
		return genT(r, 1)
	}
	return n
}

func cmpNums(c *Ctx, x, y *jv.V, d string, cmp int) {
	rel := map[string][2]bool{
		"GreaterThan":        {x.GreaterThan(y), cmp > 0},
		"GreaterThanOrEqual": {x.GreaterThanOrEqual(y), cmp >= 0},
		"LessThan":           {x.LessThan(y), cmp < 0},
		"LessThanOrEqual":    {x.LessThanOrEqual(y), cmp <= 0},
		"Equal":              {x.Equal(y), cmp == 0},
	}
	for k, p := range rel {
		if p[0] != p[1] {
			c.fail("%s of %s is %v", k, d, p[0])
		}
	}
}

var sparePairs = []string{"0", "-0", "0.0", "-0.0", "1", "1.0", "1e0", "10e-1", "-1", "-1.0", "9007199254740992", "9007199254740993", "9007199254740992.0", "9223372036854775807", "9223372036854775808", "18446744073709551615", "-9223372036854775808", "-9223372036854775807", "0.1", "0.10", "1e-1", "0.1000000000000000055511151231257827", "1e300", "10e299", "5e-324", "1e20", "100000000000000000000.0", "18446744073709551614", "1.5", "-1.5", "15e-1"}

func c12case(c *Ctx, r *rand.Rand) {
	a := genT(r, 3)
	b := variant(r, a)
	if r.Intn(6) == 0 {
		b = genT(r, 3)
	}
	if r.Intn(3) == 0 {
		a, b = tNum(genNum(r)), tNum(genNum(r))
		if r.Intn(2) == 0 {
			b = variant(r, a)
		}
	}
	if r.Intn(8) == 0 {
		// neighbours with more digits than a float holds
		m := strconv.FormatUint(1e16+uint64(r.Int63n(1e17)), 10)
		e := []string{"", "e1", "e+3", "e-2", "E17", "." + m}[r.Intn(6)]
		x, _ := strconv.ParseUint(m, 10, 64)
		if n := strconv.FormatUint(x+uint64(r.Intn(3)), 10) + e; numInRange(m+e) && numInRange(n) {
			a, b = tNum(m+e), tNum(n)
		}
	}
	if !smallNums(a) || !smallNums(b) {
		return
	}
	pairCheck(c, a, b)
}

func pairCheck(c *Ctx, a, b *T) {
	d := fmt.Sprintf("%v and %v", a, b)
	c.try(func() string { return "compare " + d }, func() {
		x, y := a.build(), b.build()
		if got, want := x.Equal(y), eqT(a, b); got != want {
			c.fail("Equal of %s is %v", d, got)
		}
		if x.Equal(y) != y.Equal(x) || !x.Equal(x) {
			c.fail("Equal is not symmetric or not reflexive on %s", d)
		}
		if a.K == kNum && b.K == kNum {
			p, _ := ratOf(a.S)
			s, _ := ratOf(b.S)
			cmpNums(c, x, y, d, p.Cmp(s))
			return
		}
		if x.GreaterThan(y) || x.GreaterThanOrEqual(y) || x.LessThan(y) || x.LessThanOrEqual(y) {
			c.fail("an ordering comparison of %s holds", d)
		}
		none := &jv.V{}
		if none.Equal(x) || x.Equal(none) || none.Equal(none) || x.Equal(nil) || (*jv.V)(nil).Equal(x) {
			c.fail("a value that does not exist equals something (%s)", d)
		}
		if tree(x).Ordered() != a.Ordered() || tree(y).Ordered() != b.Ordered() {
			c.fail("comparison changed %s", d)
		}
	})
}

func c12enum(c *Ctx) {
	for _, s := range sparePairs {
		for _, t := range sparePairs {
			pairCheck(c, tNum(s), tNum(t))
		}
	}
	// numbers made from Go values
	fs := []float64{0, math.Copysign(0, -1), 1, -1, 1.5, 1e21, 1e-7, math.MaxFloat64, math.Inf(1), math.Inf(-1), math.NaN(), 9007199254740992, float64(float32(0.1)), 0.1}
	for _, f := range fs {
		for _, g := range fs {
			d := fmt.Sprintf("NewFloat64(%v) and NewFloat64(%v)", f, g)
			c.try(func() string { return d }, func() {
				x, y := jv.NewFloat64(f), jv.NewFloat64(g)
				if f != f || g != g {
					if x.GreaterThan(y) || x.GreaterThanOrEqual(y) || x.LessThan(y) || x.LessThanOrEqual(y) {
						c.fail("an ordering comparison of %s holds", d)
					}
					if x.Equal(y) != (f != f && g != g) {
						c.fail("Equal of %s is %v", d, x.Equal(y))
					}
					return
				}
				cmp := 0
				if f < g {
					cmp = -1
				} else if f > g {
					cmp = 1
				}
				cmpNums(c, x, y, d, cmp)
				if f == math.Trunc(f) && math.Abs(f) < 1e18 {
					cmpNums(c, jv.NewInt64(int64(f)), y, "NewInt64/"+d, cmp)
				}
			})
		}
	}
}

// ---- C13

func mutate(r *rand.Rand, v *jv.V) {
	switch v.ValueType() {
	case jv.Array:
		switch r.Intn(4) {
		case 0:
			v.MustAppendString("new").InTheEnd()
		case 1:
			v.MustDelete(0)
		case 2:
			v.MustSetString("changed").At(0)
		case 3:
			v.MustAppendNull().InTheBeginning()
		}
		for _, e := range v.ForRangeArr() {
			if r.Intn(2) == 0 {
				mutate(r, e)
			}
		}
		v.SortArray(func(a, b *jv.V) bool { return a.String() < b.String() })
	case jv.Object:
		var ks []string
		for k := range v.ForRangeObj() {
			ks = append(ks, k)
		}
		v.Caseless().Get("NoSuchKey")
		for _, k := range ks {
			e, _ := v.Get(k)
			switch r.Intn(4) {
			case 0:
				v.MustDelete(k)
			case 1:
				v.MustSetInt(99).At(k)
			default:
				mutate(r, e)
			}
		}
		v.MustSetString("x").At("added")
	default:
		_ = v.UnmarshalJSON([]byte(`{"overwritten":[1,2]}`))
	}
}

func addrs(v *jv.V, m map[*jv.V]bool) {
	m[v] = true
	for _, e := range v.ForRangeArr() {
		addrs(e, m)
	}
	for _, e := range v.ForRangeObj() {
		addrs(e, m)
	}
}

func c13case(c *Ctx, r *rand.Rand) {
	t := genT(r, 3)
	src := t.build()
	if r.Intn(2) == 0 {
		src = jv.MustUnmarshalString(t.write(r))
	}
	if r.Intn(3) == 0 {
		src.Caseless().Get("q")
	}
	type box struct {
		V *jv.V `json:"v"`
		L []*jv.V
		M map[string]*jv.V
	}
	mode := r.Intn(6)
	name := []string{"Import(v)", "New(v)", "Import(struct)", "Import([]*V)", "Import(map)", "Set(v) of a struct holding it"}[mode]
	c.try(func() string { return name + " of " + clip(t.String(), 1000) }, func() {
		var imp *jv.V
		var err error
		switch mode {
		case 0:
			imp, err = jv.Import(src)
		case 1:
			imp = jv.New(src)
		case 2:
			var w *jv.V
			w, err = jv.Import(&box{V: src, L: []*jv.V{src}, M: map[string]*jv.V{"k": src}})
			switch r.Intn(3) {
			case 0:
				imp = w.MustGet("v")
			case 1:
				imp = w.MustGet("L", 0)
			case 2:
				imp = w.MustGet("M", "k")
			}
		case 3:
			var w *jv.V
			w, err = jv.Import([]*jv.V{src, src})
			if err == nil {
				imp = w.MustGet(1)
				a := map[*jv.V]bool{}
				addrs(w.MustGet(0), a)
				b := map[*jv.V]bool{}
				addrs(imp, b)
				for p := range a {
					if b[p] {
						c.fail("%s: the two copies share a value", name)
					}
				}
			}
		case 4:
			var w *jv.V
			w, err = jv.Import(map[string]interface{}{"k": src, "l": []interface{}{src}})
			if err == nil {
				imp = w.MustGet("k")
				if r.Intn(2) == 0 {
					imp = w.MustGet("l", 0)
				}
			}
		case 5:
			o := jv.NewObject()
			_, err = o.Set(struct{ X *jv.V }{src}).At("s")
			imp = o.MustGet("s", "X")
		}
		if err != nil {
			c.fail("%s of %v: %v", name, t, err)
		}
		if got := tree(imp); got.Ordered() != t.Ordered() {
			c.fail("%s of %v gives %v", name, t.Ordered(), got.Ordered())
		}
		if !imp.Equal(src) && smallNums(t) {
			c.fail("%s of %v is not Equal to it", name, t)
		}
		checkNums(c, "copy", imp, t)
		a, b := map[*jv.V]bool{}, map[*jv.V]bool{}
		addrs(src, a)
		addrs(imp, b)
		for p := range a {
			if b[p] {
				c.fail("%s of %v shares a value with the source", name, t)
			}
		}
		x, y, w := src, imp, "the source"
		if r.Intn(2) == 0 {
			x, y, w = imp, src, "the copy"
		}
		mutate(r, x)
		if got := tree(y); got.Ordered() != t.Ordered() {
			c.fail("%s of %v: after changing %s the other is %v", name, t.Ordered(), w, got.Ordered())
		}
	})
}

// ---- C14

type num struct {
	i int64
	u uint64
	f float64
}

func refNumber(t string) num {
	n := num{}
	n.f, _ = strconv.ParseFloat(t, 64)
	if isIntText(t) {
		if t[0] == '-' {
			n.i, _ = strconv.ParseInt(t, 10, 64)
			n.u = uint64(n.i)
		} else {
			n.u, _ = strconv.ParseUint(t, 10, 64)
			n.i = int64(n.u)
		}
		return n
	}
	n.i, n.u = int64(n.f), uint64(n.f)
	return n
}

func c14case(c *Ctx, r *rand.Rand) {
	t := genT(r, 2)
	if r.Intn(2) == 0 {
		s := genNumText(r)
		switch r.Intn(4) {
		case 0:
			s = " " + s + "\t\n"
		case 1:
			s = []string{"true", "false", "True", "", " ", "null", "1x", "x1", "0x1", "true ", "NaN", "Inf"}[r.Intn(12)]
		}
		t = tStr(s)
	}
	c14check(c, r, t)
}

func c14check(c *Ctx, r *rand.Rand, t *T) {
	v := t.build()
	holder := jv.NewObject()
	holder.MustSet(v).At("K")
	arr := jv.NewArray()
	arr.MustAppend(holder).InTheEnd()
	desc := clip(fmt.Sprintf("%v", t), 1500)
	c.try(func() string { return "getters on " + desc }, func() {
		var n num
		isNum := t.K == kNum
		strNum := false
		if isNum {
			n = refNumber(t.S)
		}
		if t.K == kStr {
			s := strings.TrimSpace(t.S)
			if numGrammar(s) && s != "" && numInRange(s) {
				strNum = true
				n = refNumber(s)
			}
		}
		strBad := t.K == kStr && !strNum
		var g jv.Caseless = holder
		p := []interface{}{"K"}
		switch r.Intn(3) {
		case 1:
			g = arr
			p = []interface{}{0, "K"}
		case 2:
			g = holder.Caseless()
			p = []interface{}{"k"}
		}
		chk := func(what string, got, want interface{}, err error, wantErr string) {
			if got != want {
				c.fail("%s on %s gives %v, expected %v", what, desc, got, want)
			}
			switch wantErr {
			case "":
				if err != nil {
					c.fail("%s on %s: unexpected error %v", what, desc, err)
				}
			case "type":
				if !errors.Is(err, jv.ErrTypeNotMatch) {
					c.fail("%s on %s: error is %v, expected type mismatch", what, desc, err)
				}
			case "parse":
				if !errors.Is(err, jv.ErrParseNumberFromString) {
					c.fail("%s on %s: error is %v, expected a number parse error", what, desc, err)
				}
			case "any":
				if err == nil {
					c.fail("%s on %s: no error", what, desc)
				}
			}
		}
		ne := "type"
		if isNum {
			ne = ""
		} else if strBad {
			ne = "parse"
		}
		// conversions of out-of-range floats are not specified by Go
		fi := n.f >= -9.2233720368547e18 && n.f <= 9.2233720368547e18
		fu := n.f >= 0 && n.f <= 1.8446744073709e19
		if isIntText(t.S) || isIntText(strings.TrimSpace(t.S)) {
			fi, fu = true, true
		}
		a, b := p[0], p[1:]
		if fi {
			x, e := g.GetInt(a, b...)
			chk("GetInt", x, int(n.i), e, ne)
			x64, e := g.GetInt64(a, b...)
			chk("GetInt64", x64, n.i, e, ne)
			x32, e := g.GetInt32(a, b...)
			chk("GetInt32", x32, int32(n.i), e, ne)
			chk("Int", v.Int(), int(n.i), nil, "")
			chk("Int64", v.Int64(), n.i, nil, "")
			chk("Int32", v.Int32(), int32(n.i), nil, "")
		}
		if fu {
			u, e := g.GetUint(a, b...)
			chk("GetUint", u, uint(n.u), e, ne)
			u64, e := g.GetUint64(a, b...)
			chk("GetUint64", u64, n.u, e, ne)
			u32, e := g.GetUint32(a, b...)
			chk("GetUint32", u32, uint32(n.u), e, ne)
			chk("Uint", v.Uint(), uint(n.u), nil, "")
			chk("Uint64", v.Uint64(), n.u, nil, "")
			chk("Uint32", v.Uint32(), uint32(n.u), nil, "")
		}
		f, e := g.GetFloat64(a, b...)
		chk("GetFloat64", f, n.f, e, ne)
		f32, e := g.GetFloat32(a, b...)
		chk("GetFloat32", f32, float32(n.f), e, ne)
		chk("Float64", v.Float64(), n.f, nil, "")
		chk("Float32", v.Float32(), float32(n.f), nil, "")
		// bool
		wb, we := false, "type"
		switch t.K {
		case kBool:
			wb, we = t.B, ""
		case kStr:
			wb = t.S == "true"
		case kNum:
			wb = n.f != 0
		}
		bb, e := g.GetBool(a, b...)
		chk("GetBool", bb, wb, e, we)
		chk("Bool", v.Bool(), wb, nil, "")
		// string and bytes
		s, e := g.GetString(a, b...)
		if t.K == kStr {
			chk("GetString", s, t.S, e, "")
			chk("String", v.String(), t.S, nil, "")
		} else {
			chk("GetString", s, "", e, "type")
		}
		bs, e := g.GetBytes(a, b...)
		dec, derr := base64.StdEncoding.DecodeString(t.S)
		if t.K == kStr && derr == nil {
			if !bytes.Equal(bs, dec) || e != nil || !bytes.Equal(v.Bytes(), dec) {
				c.fail("GetBytes on %s gives %v, %v, expected %v", desc, bs, e, dec)
			}
		} else if len(bs) != 0 || e == nil || len(v.Bytes()) != 0 || t.K != kStr && !errors.Is(e, jv.ErrTypeNotMatch) {
			c.fail("GetBytes on %s gives %v, %v", desc, bs, e)
		}
		// null, object, array
		e = g.GetNull(a, b...)
		if (e == nil) != (t.K == kNull) || e != nil && !errors.Is(e, jv.ErrTypeNotMatch) {
			c.fail("GetNull on %s: %v", desc, e)
		}
		o, e := g.GetObject(a, b...)
		if (e == nil) != (t.K == kObj) || e == nil && o != v || e != nil && (!errors.Is(e, jv.ErrTypeNotMatch) || o == nil || o.ValueType() != jv.NotExist) {
			c.fail("GetObject on %s: %v, %v", desc, o, e)
		}
		o, e = g.GetArray(a, b...)
		if (e == nil) != (t.K == kArr) || e == nil && o != v || e != nil && (!errors.Is(e, jv.ErrTypeNotMatch) || o == nil || o.ValueType() != jv.NotExist) {
			c.fail("GetArray on %s: %v, %v", desc, o, e)
		}
		wl := len(t.A) + len(t.M)
		if v.Len() != wl {
			c.fail("Len of %s is %d", desc, v.Len())
		}
		// a path that does not exist
		x, e := g.GetInt("missing", b...)
		chk("GetInt of a missing path", x, 0, e, "any")
		st, e := holder.GetString("missing")
		chk("GetString of a missing key", st, "", e, "any")
		if !errors.Is(e, jv.ErrNotFound) {
			c.fail("GetString of a missing key: %v", e)
		}
		bs, e = holder.GetBytes("missing")
		if len(bs) != 0 || !errors.Is(e, jv.ErrNotFound) {
			c.fail("GetBytes of a missing key: %v %v", bs, e)
		}
		fl, e := arr.GetFloat64(3)
		chk("GetFloat64 out of range", fl, 0.0, e, "any")
		if !errors.Is(e, jv.ErrOutOfRange) {
			c.fail("GetFloat64 out of range: %v", e)
		}
		if _, e := v.Get("x", 1); (t.K != kObj && t.K != kArr) && e == nil {
			c.fail("Get inside a scalar %s succeeds", desc)
		}
		if tree(v).Ordered() != t.Ordered() {
			c.fail("the getters changed %s to %v", desc, tree(v))
		}
		none := &jv.V{}
		if none.Int() != 0 || none.Uint64() != 0 || none.Float64() != 0 || none.Bool() || none.String() != "" || len(none.Bytes()) != 0 || none.Len() != 0 {
			c.fail("an accessor of a value that does not exist gives something")
		}
	})
}

func c14enum(c *Ctx) {
	r := rand.New(rand.NewSource(4))
	for _, s := range append(append([]string{}, edgeNums...), badNums...) {
		for k := 0; k < 3; k++ {
			if numGrammar(s) && numInRange(s) {
				c14check(c, r, tNum(s))
			}
			c14check(c, r, tStr(s))
			c14check(c, r, tStr(" "+s+"\n"))
		}
	}
}

// ---- C18

var edgeI = []int64{0, 1, -1, 2, 9, 10, -10, 127, 128, -128, -129, 255, 256, 32767, 65536, 1 << 31, -1 << 31, 1<<31 - 1, -1<<31 - 1, 1 << 53, 1<<53 + 1, 1<<63 - 1, -1 << 63, -1<<63 + 1, 1<<62 + 1}
var edgeF = []float64{0, math.Copysign(0, -1), 1, -1, 0.1, 1.5, -1.5, 1e-6, 9.999999e-7, 1e-7, 1e20, 1e21, 9.99999999999999e20, 1e22, -1e21, -1e-7, 5e-324, math.MaxFloat64, -math.MaxFloat64, 1 << 53, 1<<53 + 2, 123456789.123456789, float64(float32(0.1)), 1e100, 1.7e308, math.Pi, 4294967296.5}

func denotes(c *Ctx, what string, v *jv.V, f float64) {
	b, err := v.Marshal()
	if err != nil || !numGrammar(string(b)) {
		c.fail("%s marshals to %q, %v", what, b, err)
	}
	p, err := strconv.ParseFloat(string(b), 64)
	if err != nil || p != f {
		c.fail("%s marshals to %q, which denotes %v", what, b, p)
	}
	if v.String() != string(b) {
		c.fail("%s: String is %q, marshals to %q", what, v.String(), b)
	}
}

func c18int(c *Ctx, i int64) {
	d := fmt.Sprintf("NewInt64(%d)", i)
	c.try(func() string { return d }, func() {
		for k, v := range []*jv.V{jv.NewInt64(i), jv.NewInt(int(i)), jv.New(i), jv.New(int(i))} {
			if !v.IsNumber() || !v.IsInteger() || v.IsFloat() || v.IsNegative() != (i < 0) || v.IsPositive() != (i >= 0) || v.GreaterThanInt64Max() {
				c.fail("%s (%d): a predicate is wrong", d, k)
			}
			if v.Int64() != i || v.Int() != int(i) || v.Int32() != int32(i) || v.Uint64() != uint64(i) || v.Float64() != float64(i) || v.Float32() != float32(i) {
				c.fail("%s (%d): an accessor gives another value", d, k)
			}
			if s := v.MustMarshalString(); s != strconv.FormatInt(i, 10) || v.String() != s {
				c.fail("%s (%d) marshals to %q", d, k, s)
			}
		}
		if int64(int32(i)) == i {
			v := jv.NewInt32(int32(i))
			if v.Int32() != int32(i) || v.Int64() != i || v.MustMarshalString() != strconv.FormatInt(i, 10) || v.IsNegative() != (i < 0) {
				c.fail("NewInt32(%d) gives %v", i, v)
			}
		}
		u := uint64(i)
		for k, v := range c18uintForms(u) {
			if v == nil || !v.IsNumber() || v.IsNegative() || v.Uint64() != u || v.Float64() != float64(u) || v.MustMarshalString() != strconv.FormatUint(u, 10) {
				c.fail("the unsigned value %d made another way (%d) gives %v", u, k, v)
			}
		}
		for k, v := range c18intForms(i) {
			if v == nil || !v.IsNumber() || v.IsNegative() != (i < 0) || v.Int64() != i || v.Float64() != float64(i) || v.MustMarshalString() != strconv.FormatInt(i, 10) {
				c.fail("the integer %d made another way (%d) gives %v", i, k, v)
			}
		}
		v := jv.NewUint64(u)
		if !v.IsNumber() || !v.IsInteger() || v.IsFloat() || v.IsNegative() || !v.IsPositive() || v.GreaterThanInt64Max() != (u > 1<<63-1) || v.Uint64() != u || v.Uint() != uint(u) || v.Int64() != int64(u) || v.Float64() != float64(u) || v.MustMarshalString() != strconv.FormatUint(u, 10) {
			c.fail("NewUint64(%d) gives %v", u, v)
		}
		if w := jv.NewUint(uint(u)); w.Uint64() != u || w.MustMarshalString() != strconv.FormatUint(u, 10) || w.IsNegative() {
			c.fail("NewUint(%d) gives %v", u, w)
		}
		u32 := uint32(i)
		if w := jv.NewUint32(u32); w.Uint32() != u32 || w.Uint64() != uint64(u32) || w.Int64() != int64(u32) || w.MustMarshalString() != strconv.FormatUint(uint64(u32), 10) || w.IsNegative() {
			c.fail("NewUint32(%d) gives %v", u32, w)
		}
	})
}

// the other ways to make a value from an integer
func c18uintForms(u uint64) (out []*jv.V) {
	o, a := jv.NewObject(), jv.NewArray()
	out = append(out, jv.New(u), jv.New(uint(u)), jv.NewObject(map[string]interface{}{"k": u}).MustGet("k"))
	imp, _ := jv.Import(struct{ A uint64 }{u})
	out = append(out, imp.MustGet("A"))
	x, _ := o.SetUint64(u).At("a")
	y, _ := o.SetUint(uint(u)).At("b")
	out = append(out, x, y, o.MustGet("a"), o.MustGet("b"))
	o.MustSetUint64(u).At("c")
	o.MustSetUint(uint(u)).At("d")
	out = append(out, o.MustGet("c"), o.MustGet("d"))
	x, _ = a.AppendUint64(u).InTheEnd()
	y, _ = a.AppendUint(uint(u)).InTheBeginning()
	out = append(out, x, y)
	a.MustAppendUint64(u).InTheEnd()
	a.MustAppendUint(uint(u)).InTheEnd()
	x, _ = a.InsertUint64(u).Before(0)
	y, _ = a.InsertUint(uint(u)).After(0)
	out = append(out, x, y)
	a.MustInsertUint64(u).Before(1)
	a.MustInsertUint(uint(u)).After(1)
	for i := 0; i < a.Len(); i++ {
		out = append(out, a.MustGet(i))
	}
	if uint64(uint32(u)) == u {
		x, _ = o.SetUint32(uint32(u)).At("e")
		y, _ = a.AppendUint32(uint32(u)).InTheEnd()
		out = append(out, x, y, jv.New(uint32(u)), jv.NewUint32(uint32(u)))
	}
	if u < 256 {
		out = append(out, jv.New(uint8(u)))
	}
	return
}

func c18intForms(i int64) (out []*jv.V) {
	o, a := jv.NewObject(), jv.NewArray()
	out = append(out, jv.New(i), jv.New(int(i)), jv.NewObject(map[string]interface{}{"k": i}).MustGet("k"))
	imp, _ := jv.Import(struct{ A int64 }{i})
	out = append(out, imp.MustGet("A"))
	x, _ := o.SetInt64(i).At("a")
	y, _ := o.SetInt(int(i)).At("b")
	out = append(out, x, y, o.MustGet("a"), o.MustGet("b"))
	o.MustSetInt64(i).At("c")
	o.MustSetInt(int(i)).At("d")
	out = append(out, o.MustGet("c"), o.MustGet("d"))
	x, _ = a.AppendInt64(i).InTheEnd()
	y, _ = a.AppendInt(int(i)).InTheBeginning()
	out = append(out, x, y)
	a.MustAppendInt64(i).InTheEnd()
	a.MustAppendInt(int(i)).InTheEnd()
	x, _ = a.InsertInt64(i).Before(0)
	y, _ = a.InsertInt(int(i)).After(0)
	out = append(out, x, y)
	a.MustInsertInt64(i).Before(1)
	a.MustInsertInt(int(i)).After(1)
	for k := 0; k < a.Len(); k++ {
		out = append(out, a.MustGet(k))
	}
	if int64(int32(i)) == i {
		x, _ = o.SetInt32(int32(i)).At("e")
		y, _ = a.AppendInt32(int32(i)).InTheEnd()
		out = append(out, x, y, jv.New(int32(i)), jv.NewInt32(int32(i)))
	}
	if int64(int16(i)) == i {
		out = append(out, jv.New(int16(i)))
	}
	return
}

func c18float(c *Ctx, f float64) {
	d := fmt.Sprintf("NewFloat64(%v)", f)
	c.try(func() string { return d }, func() {
		v := jv.NewFloat64(f)
		if !v.IsNumber() || v.IsNegative() != (f < 0) || v.IsPositive() != !(f < 0) {
			c.fail("%s: a predicate is wrong", d)
		}
		if f != f || math.IsInf(f, 0) {
			if g := v.Float64(); g != f && f == f || f != f && g == g {
				c.fail("%s: Float64 gives %v", d, g)
			}
			if _, err := v.Marshal(); err == nil {
				c.fail("%s: marshals", d)
			}
			return
		}
		if v.Float64() != f || math.Signbit(v.Float64()) != math.Signbit(f) {
			c.fail("%s: Float64 gives %v", d, v.Float64())
		}
		if math.Abs(f) < 9e18 && v.Int64() != int64(f) {
			c.fail("%s: Int64 gives %v", d, v.Int64())
		}
		denotes(c, d, v, f)
		for _, fm := range []byte("feEgG") {
			w := jv.NewFloat64f(f, fm, -1)
			if w.Float64() != f {
				c.fail("NewFloat64f(%v, %c): Float64 gives %v", f, fm, w.Float64())
			}
			denotes(c, fmt.Sprintf("NewFloat64f(%v, %c, -1)", f, fm), w, f)
		}
		w := jv.NewFloat64f(f, 'x', -1)
		denotes(c, fmt.Sprintf("NewFloat64f(%v, 'x', -1)", f), w, f)
		g := float32(f)
		if !math.IsInf(float64(g), 0) {
			x := jv.NewFloat32(g)
			if x.Float32() != g || x.IsNegative() != (g < 0) {
				c.fail("NewFloat32(%v) gives %v", g, x)
			}
			b := x.MustMarshalString()
			p, err := strconv.ParseFloat(b, 32)
			if err != nil || float32(p) != g || !numGrammar(b) {
				c.fail("NewFloat32(%v) marshals to %q", g, b)
			}
			y := jv.NewFloat32f(g, 'g', -1)
			if y.Float32() != g {
				c.fail("NewFloat32f(%v) gives %v", g, y)
			}
		}
	})
}

func c18str(c *Ctx, s string) {
	c.try(func() string { return "NewString " + q(s) }, func() {
		v := jv.NewString(s)
		if !v.IsString() || v.String() != s || v.IsNumber() || v.IsNull() || v.IsObject() || v.IsArray() || v.IsBoolean() || v.ValueType() != jv.String {
			c.fail("NewString(%s) gives %s", q(s), q(v.String()))
		}
		l, err := v.MarshalString()
		got, _, ok := refLit([]byte(l[1:]))
		if err != nil || !ok || got != valid(s) {
			c.fail("NewString(%s) marshals to %s", q(s), q(l))
		}
		b := []byte(s)
		w := jv.NewBytes(b)
		for i := range b {
			b[i]++
		}
		if !w.IsString() || string(w.Bytes()) != s || w.String() != base64.StdEncoding.EncodeToString([]byte(s)) {
			c.fail("NewBytes(%s) gives %s", q(s), q(string(w.Bytes())))
		}
	})
}

func c18enum(c *Ctx) {
	for _, i := range edgeI {
		c18int(c, i)
	}
	for i := int64(-300); i < 300; i++ {
		c18int(c, i)
	}
	for _, f := range append(append([]float64{}, edgeF...), math.NaN(), math.Inf(1), math.Inf(-1)) {
		c18float(c, f)
		c18float(c, -f)
	}
	c.try(func() string { return "NewBool, NewNull, NewObject, NewArray" }, func() {
		for _, b := range []bool{true, false} {
			v := jv.NewBool(b)
			if !v.IsBoolean() || v.Bool() != b || v.MustMarshalString() != fmt.Sprint(b) || v.String() != fmt.Sprint(b) || v.IsNull() || v.IsNumber() {
				c.fail("NewBool(%v) gives %v", b, v)
			}
		}
		n, o, a := jv.NewNull(), jv.NewObject(), jv.NewArray()
		if !n.IsNull() || n.MustMarshalString() != "null" || !o.IsObject() || o.Len() != 0 || o.MustMarshalString() != "{}" || !a.IsArray() || a.Len() != 0 || a.MustMarshalString() != "[]" {
			c.fail("NewNull, NewObject or NewArray is wrong")
		}
	})
	for b := 0; b < 256; b++ {
		c18str(c, string([]byte{byte(b)}))
	}
}

func c18step(c *Ctx, r *rand.Rand) {
	switch r.Intn(4) {
	case 0:
		c18int(c, int64(r.Uint64())>>uint(r.Intn(64)))
	case 1:
		c18float(c, math.Float64frombits(r.Uint64()))
	case 2:
		f := float64(r.Intn(2000000)-1000000) * math.Pow(10, float64(r.Intn(50)-25))
		c18float(c, f)
	case 3:
		c18str(c, genStr(r))
	}
}

// ---- C21

func contains(a, b *T) bool {
	if a.K != b.K {
		return false
	}
	switch a.K {
	case kObj:
		for _, m := range b.M {
			x := a.get(m.K)
			if x == nil || !contains(x, m.V) {
				return false
			}
		}
		return true
	case kArr:
		for i := 0; i+len(b.A) <= len(a.A); i++ {
			ok := true
			for j := range b.A {
				ok = ok && eqT(a.A[i+j], b.A[j])
			}
			if ok {
				return true
			}
		}
		return len(b.A) == 0
	}
	return eqT(a, b)
}

func subOf(r *rand.Rand, t *T) *T {
	n := t.clone()
	switch n.K {
	case kObj:
		for i := range n.M {
			if r.Intn(2) == 0 {
				n.M[i].V = subOf(r, n.M[i].V)
			}
		}
		for k := r.Intn(3); k > 0 && len(n.M) > 0; k-- {
			n.del(n.M[r.Intn(len(n.M))].K)
		}
	case kArr:
		i := r.Intn(len(n.A) + 1)
		j := i + r.Intn(len(n.A)-i+1)
		n.A = n.A[i:j]
		if len(n.A) > 0 && r.Intn(4) == 0 {
			n.A[r.Intn(len(n.A))] = smallT(r, 1)
		}
		if len(n.A) > 1 && r.Intn(6) == 0 {
			n.A[0], n.A[1] = n.A[1], n.A[0]
		}
	}
	if r.Intn(12) == 0 {
		return smallT(r, 1)
	}
	return n
}

func c21check(c *Ctx, r *rand.Rand, a, b *T) {
	c.try(func() string { return clip(fmt.Sprintf("Contains(%v, %v)", a, b), 1500) }, func() {
		x, y := a.build(), b.build()
		want := contains(a, b)
		if got := beta.Contains(x, y); got != want {
			c.fail("Contains(%v, %v) is %v", a, b, got)
		}
		o := jv.NewObject()
		o.MustSet(x).At("p", "q")
		if got := beta.Contains(o, y, "p", "q"); got != want {
			c.fail("Contains({\"p\":{\"q\":%v}}, %v, \"p\", \"q\") is %v", a, b, got)
		}
		if beta.Contains(o, y, "p", "x") || beta.Contains(o, y, "x", "q") || beta.Contains(nil, y) || beta.Contains(o, y, "p", 0) {
			c.fail("Contains is true for a path that does not exist (%v)", b)
		}
		if b.K == kStr {
			if got := beta.Contains(x, b.S); got != want {
				c.fail("Contains(%v, %q) is %v", a, b.S, got)
			}
		}
		if tree(x).Ordered() != a.Ordered() || tree(y).Ordered() != b.Ordered() {
			c.fail("Contains changed %v or %v", a, b)
		}
	})
}

func c21case(c *Ctx, r *rand.Rand) {
	var a *T
	switch r.Intn(3) {
	case 0:
		// arrays over a two-letter alphabet: many near matches
		a = tArr()
		for k := r.Intn(8); k > 0; k-- {
			a.A = append(a.A, []*T{tNum("1"), tNum("2"), tStr("1")}[r.Intn(3)].clone())
		}
		if r.Intn(2) == 0 {
			b := tArr()
			for k := r.Intn(5); k > 0; k-- {
				b.A = append(b.A, []*T{tNum("1"), tNum("2"), tNum("1.0")}[r.Intn(3)].clone())
			}
			c21check(c, r, a, b)
			return
		}
	case 1:
		a = smallT(r, 4)
	default:
		a = genT(r, 3)
	}
	if !smallNums(a) {
		return
	}
	c21check(c, r, a, subOf(r, a))
}

func init() {
	props["C12"] = &prop{enum: c12enum, step: c12case}
	props["C13"] = &prop{step: c13case}
	props["C14"] = &prop{enum: c14enum, step: c14case}
	props["C18"] = &prop{enum: c18enum, step: c18step}
	props["C21"] = &prop{step: c21case}
}
