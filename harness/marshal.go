package main

// C05 strings, C06 marshalling, C07 special floats, C08 ordering, C22 options

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	jv "github.com/Andrew-M-C/go.jsonvalue"
)

type sopt struct{ utf8, html, slash bool }

func (o sopt) opts(r *rand.Rand) []jv.Option {
	var l []jv.Option
	if o.utf8 {
		l = append(l, jv.OptUTF8())
	}
	if !o.html {
		l = append(l, jv.OptEscapeHTML(false))
	} else if r != nil && r.Intn(2) == 0 {
		l = append(l, jv.OptEscapeHTML(true))
	}
	if !o.slash {
		l = append(l, jv.OptEscapeSlash(false))
	} else if r != nil && r.Intn(2) == 0 {
		l = append(l, jv.OptEscapeSlash(true))
	}
	if r != nil {
		r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	}
	return l
}

func valid(s string) string { return string([]rune(s)) }

// checkLit: lit is the serialised form of s under o
func checkLit(c *Ctx, what string, s, lit string, o sopt) {
	bad := func(f string, a ...interface{}) {
		c.fail("%s of %s with UTF8=%v HTML=%v slash=%v is %s: %s", what, q(s), o.utf8, o.html, o.slash, q(lit), fmt.Sprintf(f, a...))
	}
	if len(lit) < 2 || lit[0] != '"' || lit[len(lit)-1] != '"' {
		bad("not between quotes")
	}
	got, n, ok := refLit([]byte(lit[1:]))
	if !ok || n != len(lit)-1 {
		bad("not a well-formed literal")
	}
	if !json.Valid([]byte(lit)) {
		bad("not valid JSON")
	}
	if got != valid(s) {
		bad("it denotes %s", q(got))
	}
	if !utf8.ValidString(lit) {
		bad("not valid UTF-8")
	}
	prev := rune(0)
	for i, r := range lit[1 : len(lit)-1] {
		_ = i
		esc := prev == '\\'
		switch {
		case r < 0x20:
			bad("raw control character")
		case r > 0x7f && !o.utf8:
			bad("not ASCII")
		case r == 0x2028 || r == 0x2029:
			bad("raw line separator")
		case (r == '<' || r == '>' || r == '&') && o.html:
			bad("raw HTML character")
		case r == '/' && (esc != o.slash):
			bad("slash escaped: %v", esc)
		}
		if esc && r == '\\' {
			prev = 0
		} else {
			prev = r
		}
	}
	for _, h := range []string{"003c", "003e", "0026"} {
		if !o.html && strings.Contains(strings.ToLower(lit), `\u`+h) && !strings.Contains(s, `u`+h) && !strings.Contains(s, `u`+strings.ToUpper(h)) {
			bad("HTML character escaped although switched off")
		}
	}
}

func checkStr(c *Ctx, s string, o sopt, opts []jv.Option) {
	c.try(func() string { return "Marshal string " + q(s) + fmt.Sprintf(" %+v", o) }, func() {
		v := jv.NewString(s)
		lit, err := v.MarshalString(opts...)
		if err != nil {
			c.fail("marshal of string %s: %v", q(s), err)
		}
		checkLit(c, "value", s, lit, o)
		ob := jv.NewObject()
		ob.MustSetInt(0).At(s)
		txt, err := ob.MarshalString(opts...)
		if err != nil || !strings.HasPrefix(txt, "{") || !strings.HasSuffix(txt, ":0}") {
			c.fail("marshal of an object with key %s: %s, %v", q(s), q(txt), err)
		}
		checkLit(c, "key", s, txt[1:len(txt)-3], o)
		if txt[1:len(txt)-3] != lit {
			c.fail("key %s is serialised as %s, the value as %s", q(s), q(txt), q(lit))
		}
		if utf8.ValidString(s) {
			w, err := jv.UnmarshalString(lit)
			if err != nil || w.String() != s {
				c.fail("%s marshals to %s, which parses to %s, %v", q(s), q(lit), q(w.String()), err)
			}
		}
	})
}

func init() {
	props["C05"] = &prop{
		enum: func(c *Ctx) {
			for m := 0; m < 8; m++ {
				o := sopt{m&1 > 0, m&2 > 0, m&4 > 0}
				opts := o.opts(nil)
				for b := 0; b < 256; b++ {
					checkStr(c, string([]byte{byte(b)}), o, opts)
					checkStr(c, string([]byte{'a', byte(b), 'b'}), o, opts)
				}
				for lo := 0; lo < 0x110000; lo += 512 {
					var sb strings.Builder
					for r := lo; r < lo+512; r++ {
						if r < 0xd800 || r > 0xdfff {
							sb.WriteRune(rune(r))
						}
					}
					checkStr(c, sb.String(), o, opts)
				}
			}
		},
		step: func(c *Ctx, r *rand.Rand) {
			s := genStr(r)
			switch r.Intn(4) {
			case 0:
				b := []byte(s)
				for k := r.Intn(3); k >= 0; k-- {
					i := r.Intn(len(b) + 1)
					b = append(b[:i:i], append([]byte{byte(128 + r.Intn(128))}, b[i:]...)...)
				}
				s = string(b)
			case 1:
				s = strings.Repeat(s, 1+r.Intn(40))
			}
			o := sopt{r.Intn(2) == 0, r.Intn(2) == 0, r.Intn(2) == 0}
			checkStr(c, s, o, o.opts(r))
		},
	}
	props["C06"] = &prop{enum: c06enum, step: c06step}
	props["C07"] = &prop{enum: c07enum, step: c07step}
	props["C08"] = &prop{enum: c08enum, step: c08step}
	props["C22"] = &prop{enum: func(c *Ctx) {}, step: c22step, single: true}
}

// ---- strict RFC 8259 parser that keeps the order and refuses duplicate keys

type sp struct {
	b   []byte
	pos int
	err string
}

func strictParse(b string) (*T, error) {
	if !json.Valid([]byte(b)) {
		return nil, fmt.Errorf("not valid JSON")
	}
	p := &sp{b: []byte(b)}
	t := p.value()
	if p.err != "" {
		return nil, errors.New(p.err)
	}
	return t, nil
}
func (p *sp) ws() {
	for p.pos < len(p.b) && strings.IndexByte(" \t\r\n", p.b[p.pos]) >= 0 {
		p.pos++
	}
}
func (p *sp) value() *T {
	p.ws()
	defer p.ws()
	switch c := p.b[p.pos]; {
	case c == '{':
		p.pos++
		t := tObj()
		for {
			p.ws()
			if p.b[p.pos] == '}' {
				p.pos++
				return t
			}
			if p.b[p.pos] == ',' {
				p.pos++
				p.ws()
			}
			k, n, _ := refLit(p.b[p.pos+1:])
			p.pos += n + 1
			p.ws()
			p.pos++
			v := p.value()
			if t.get(k) != nil {
				p.err = fmt.Sprintf("key %q twice", k)
			}
			t.M = append(t.M, mem{k, v})
		}
	case c == '[':
		p.pos++
		t := tArr()
		for {
			p.ws()
			if p.b[p.pos] == ']' {
				p.pos++
				return t
			}
			if p.b[p.pos] == ',' {
				p.pos++
			}
			t.A = append(t.A, p.value())
		}
	case c == '"':
		s, n, _ := refLit(p.b[p.pos+1:])
		p.pos += n + 1
		return tStr(s)
	case c == 't':
		p.pos += 4
		return tBool(true)
	case c == 'f':
		p.pos += 5
		return tBool(false)
	case c == 'n':
		p.pos += 4
		return tNull()
	default:
		j := p.pos
		for p.pos < len(p.b) && numChar(p.b[p.pos]) {
			p.pos++
		}
		return tNum(string(p.b[j:p.pos]))
	}
}

func (t *T) omit() *T {
	n := *t
	n.A, n.M = nil, nil
	for _, a := range t.A {
		n.A = append(n.A, a.omit())
	}
	for _, m := range t.M {
		if m.V.K != kNull {
			n.M = append(n.M, mem{m.K, m.V.omit()})
		}
	}
	return &n
}
func (t *T) validUTF8() *T {
	n := *t
	n.A, n.M = nil, nil
	if t.K == kStr {
		n.S = valid(t.S)
	}
	for _, a := range t.A {
		n.A = append(n.A, a.validUTF8())
	}
	for _, m := range t.M {
		n.M = append(n.M, mem{valid(m.K), m.V.validUTF8()})
	}
	return &n
}
func (t *T) sorted(less func(a, b mem) bool) *T {
	n := *t
	n.A, n.M = nil, nil
	for _, a := range t.A {
		n.A = append(n.A, a.sorted(less))
	}
	for _, m := range t.M {
		n.M = append(n.M, mem{m.K, m.V.sorted(less)})
	}
	sort.SliceStable(n.M, func(i, j int) bool { return less(n.M[i], n.M[j]) })
	return &n
}

func asciiLit(s string) string {
	l, _ := jv.NewString(s).MarshalString()
	return l
}

// indented is the expected indented text; null members have been omitted from t already, hadMembers tells of emptied objects
func (t *T) indented(sb *strings.Builder, prefix, ind string, depth int, omit bool) {
	nl := func(d int) {
		sb.WriteByte('\n')
		sb.WriteString(prefix)
		sb.WriteString(strings.Repeat(ind, d))
	}
	switch t.K {
	case kArr:
		if len(t.A) == 0 {
			sb.WriteString("[]")
			return
		}
		sb.WriteByte('[')
		for i, a := range t.A {
			if i > 0 {
				sb.WriteByte(',')
			}
			nl(depth + 1)
			a.indented(sb, prefix, ind, depth+1, omit)
		}
		nl(depth)
		sb.WriteByte(']')
	case kObj:
		if len(t.M) == 0 {
			sb.WriteString("{}")
			return
		}
		sb.WriteByte('{')
		first := true
		for _, m := range t.M {
			if omit && m.V.K == kNull {
				continue
			}
			if !first {
				sb.WriteByte(',')
			}
			first = false
			nl(depth + 1)
			sb.WriteString(asciiLit(m.K) + ": ")
			m.V.indented(sb, prefix, ind, depth+1, omit)
		}
		nl(depth)
		sb.WriteByte('}')
	case kStr:
		sb.WriteString(asciiLit(t.S))
	default:
		sb.WriteString(t.String())
	}
}

func c06check(c *Ctx, t *T, r *rand.Rand) {
	c.try(func() string { return "marshal " + clip(t.String(), 2000) }, func() {
		v := t.build()
		omit := r.Intn(3) == 0
		mode := r.Intn(6)
		var opts []jv.Option
		if omit {
			opts = append(opts, jv.OptOmitNull(true))
		}
		if r.Intn(2) == 0 {
			opts = append(opts, jv.OptUTF8())
		}
		want := t.validUTF8()
		indent := r.Intn(3) == 0
		pre, ind := "", ""
		if indent {
			pre, ind = []string{"", "  ", "\t", " "}[r.Intn(4)], []string{"", " ", "  ", "\t", "    "}[r.Intn(5)]
			opts = append(opts, jv.OptIndent(pre, ind))
		}
		less := false
		switch mode {
		case 0:
			opts = append(opts, jv.OptDefaultStringSequence())
			less = true
		case 1:
			opts = append(opts, jv.OptSetSequence())
		case 2:
			opts = append(opts, jv.OptKeySequence([]string{"a", "b", "", "é"}))
		}
		txt, err := v.MarshalString(opts...)
		desc := fmt.Sprintf("omit-null %v, indent %v %q %q, order mode %d", omit, indent, pre, ind, mode)
		if err != nil {
			c.fail("marshal (%s) of %v fails: %v", desc, t, err)
		}
		got, err := strictParse(txt)
		if err != nil {
			c.fail("marshal (%s) of %v gives %s: %v", desc, t, q(txt), err)
		}
		if omit {
			want = want.omit()
		}
		if got.String() != want.String() {
			c.fail("marshal (%s) of %v gives %s, which denotes %v", desc, t, q(txt), got)
		}
		if indent && less && r.Intn(2) == 0 {
			var sb strings.Builder
			srt := t.validUTF8().sorted(func(a, b mem) bool { return a.K < b.K })
			srt.indented(&sb, pre, ind, 0, omit)
			plain, err := v.MarshalString(jv.OptIndent(pre, ind), jv.OptDefaultStringSequence(), jv.OptOmitNull(omit))
			if err != nil || plain != sb.String() {
				c.fail("indented marshal (%s) of %v\n gives %s\n expected %s", desc, t, q(plain), q(sb.String()))
			}
		}
		// the value is not changed, the other entry points agree
		if !indent && !omit {
			b, err := v.Marshal(opts...)
			g2, e2 := strictParse(string(b))
			if err != nil || e2 != nil || g2.String() != want.String() {
				c.fail("Marshal and MarshalString differ on %v: %s", t, q(string(b)))
			}
		}
		if tree(v).Ordered() != t.Ordered() {
			c.fail("marshalling %v (%s) changed it to %v", t, desc, tree(v))
		}
	})
}

func c06enum(c *Ctx) {
	r := rand.New(rand.NewSource(3))
	leafs := []*T{tNull(), tBool(true), tNum("1"), tStr(""), tArr(), tObj()}
	var all []*T
	all = append(all, leafs...)
	for _, a := range leafs {
		all = append(all, tArr(a), tObj(mem{"a", a}))
		for _, b := range leafs {
			all = append(all, tArr(a, b), tObj(mem{"a", a}, mem{"b", b}), tObj(mem{"b", a}, mem{"", b}))
			for _, d := range leafs {
				all = append(all, tArr(a, b, d), tObj(mem{"a", a}, mem{"b", b}, mem{"c", d}))
			}
		}
	}
	for _, t := range all {
		for k := 0; k < 40; k++ {
			c06check(c, t, r)
			if k < 6 {
				c06check(c, tArr(t, tObj(mem{"x", t}), t), r)
				c06check(c, tObj(mem{"x", t}, mem{"n", tNull()}, mem{"y", tArr(t)}), r)
			}
		}
	}
}
func c06step(c *Ctx, r *rand.Rand) { c06check(c, genT(r, 4), r) }

// ---- C07

type special struct {
	kind int // 0 finite, 1 NaN, 2 +Inf, 3 -Inf
	f    float64
}

func floatLit(f float64) string { b, _ := json.Marshal(f); return string(b) }

func c07case(c *Ctx, r *rand.Rand) {
	vals := []float64{0, 1, -1, 1.5, 1e300, -1e300, 5e-324, math.NaN(), math.Inf(1), math.Inf(-1)}
	nanMode, infMode := r.Intn(6), r.Intn(6)
	reps := []float64{0, 1, -2.5, 1e21, 1e-9, math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, math.Copysign(0, -1)}
	strs := []string{"", "x", "NaN", "+Inf", "++Infinity", "a\"b", "é<>&/", "-", "+"}
	var opts []jv.Option
	nf, inf := reps[r.Intn(len(reps))], reps[r.Intn(len(reps))]
	ns, ps, ms := strs[r.Intn(len(strs))], strs[r.Intn(len(strs))], strs[r.Intn(len(strs))]
	switch nanMode {
	case 1:
		opts = append(opts, jv.OptFloatNaNToNull())
	case 2:
		opts = append(opts, jv.OptFloatNaNToFloat(nf))
	case 3:
		opts = append(opts, jv.OptFloatNaNToString(ns))
	case 4:
		opts = append(opts, jv.OptFloatNaNToStringNaN())
		ns = "NaN"
	}
	switch infMode {
	case 1:
		opts = append(opts, jv.OptFloatInfToNull())
	case 2:
		opts = append(opts, jv.OptFloatInfToFloat(inf))
	case 3:
		opts = append(opts, jv.OptFloatInfToString(ps, ms))
	case 4:
		opts = append(opts, jv.OptFloatInfToStringInf())
		ps, ms = "", ""
	}
	r.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
	fin := func(f float64) bool { return !math.IsNaN(f) && !math.IsInf(f, 0) }
	// expected replacement text or error
	expect := func(f float64) (string, error) {
		switch {
		case math.IsNaN(f):
			switch nanMode {
			case 1:
				return "null", nil
			case 2:
				if !fin(nf) {
					return "", jv.ErrUnsupportedFloatInOpt
				}
				return floatLit(nf), nil
			case 3, 4:
				if ns == "" {
					return `"NaN"`, nil
				}
				return asciiLit(ns), nil
			}
			return "", jv.ErrUnsupportedFloat
		case math.IsInf(f, 0):
			neg := f < 0
			switch infMode {
			case 1:
				return "null", nil
			case 2:
				if !fin(inf) {
					return "", jv.ErrUnsupportedFloatInOpt
				}
				if neg {
					return floatLit(-inf), nil
				}
				return floatLit(inf), nil
			case 3, 4:
				if !neg {
					if ps == "" {
						return `"+Inf"`, nil
					}
					return asciiLit(ps), nil
				}
				if ms != "" {
					return asciiLit(ms), nil
				}
				if ps != "" {
					return asciiLit("-" + strings.TrimLeft(ps, "+")), nil
				}
				return `"-Inf"`, nil
			}
			return "", jv.ErrUnsupportedFloat
		}
		return "", nil
	}
	var build func(d int) (*jv.V, string, error)
	mk := func(f float64) *jv.V {
		switch r.Intn(4) {
		case 0:
			return jv.NewFloat64f(f, "feEgG"[r.Intn(5)], -1)
		case 1:
			if fin(f) {
				break
			}
			return jv.NewFloat32(float32(f))
		case 2:
			return jv.New(f)
		}
		return jv.NewFloat64(f)
	}
	build = func(d int) (*jv.V, string, error) {
		switch k := r.Intn(4); {
		case d > 0 && k == 0:
			a := jv.NewArray()
			s := "["
			var err error
			for i := r.Intn(4); i > 0; i-- {
				e, t, e2 := build(d - 1)
				a.MustAppend(e).InTheEnd()
				if len(s) > 1 {
					s += ","
				}
				s += t
				if err == nil {
					err = e2
				}
			}
			return a, s + "]", err
		case d > 0 && k == 1:
			o := jv.NewObject()
			e, t, err := build(d - 1)
			o.MustSet(e).At("k")
			return o, `{"k":` + t + "}", err
		}
		f := vals[r.Intn(len(vals))]
		v := mk(f)
		s, err := expect(f)
		if err == nil && s == "" {
			s, _ = v.MarshalString()
			p, e := strconv.ParseFloat(s, 64)
			if e != nil || p != f {
				c.fail("the finite number %v marshals to %q", f, s)
			}
		}
		return v, s, err
	}
	v, want, werr := build(r.Intn(4))
	c.try(func() string { return fmt.Sprintf("special floats, expected %s / %v", want, werr) }, func() {
		got, err := v.MarshalString(opts...)
		desc := fmt.Sprintf("NaN mode %d (float %v, string %q), Inf mode %d (float %v, strings %q %q)", nanMode, nf, ns, infMode, inf, ps, ms)
		if werr != nil {
			if err == nil || !errors.Is(err, jv.ErrUnsupportedFloat) && !errors.Is(err, jv.ErrUnsupportedFloatInOpt) {
				c.fail("%s: marshal gives %q, %v; expected an unsupported-float error", desc, got, err)
			}
			if v.IsNumber() && !errors.Is(err, werr) {
				c.fail("%s: marshal gives error %v; expected %v", desc, err, werr)
			}
			if got != "" {
				c.fail("%s: marshal fails but gives %q", desc, got)
			}
			return
		}
		if err != nil || got != want {
			c.fail("%s: marshal gives %q, %v; expected %q", desc, got, err, want)
		}
	})
}
func c07enum(c *Ctx) {
	r := rand.New(rand.NewSource(9))
	for i := 0; i < 20000; i++ {
		c07case(c, r)
	}
}
func c07step(c *Ctx, r *rand.Rand) { c07case(c, r) }

// ---- C08

func genObj(r *rand.Rand, depth int) *T {
	t := tObj()
	n := r.Intn(6)
	if depth == 3 && r.Intn(8) == 0 {
		n = 12 + r.Intn(30)
	}
	for i := 0; i < n; i++ {
		k := genStr(r)
		if r.Intn(2) == 0 {
			k = string(rune('a' + r.Intn(8)))
			if r.Intn(2) == 0 {
				k += string(rune('a' + r.Intn(3)))
			}
		}
		k = valid(k)
		var v *T
		switch {
		case depth > 0 && r.Intn(3) == 0:
			v = genObj(r, depth-1)
		case depth > 0 && r.Intn(4) == 0:
			v = tArr(genObj(r, depth-1), tNum("1"), genObj(r, depth-1))
		default:
			v = tNum(strconv.Itoa(i))
		}
		t.set(k, v)
	}
	return t
}

func c08case(c *Ctx, r *rand.Rand) {
	t := genObj(r, 3)
	// re-set some members and delete some, so that set order and first order differ
	v := t.build()
	if r.Intn(2) == 0 {
		v = jv.MustUnmarshalString(t.write(nil))
	}
	for k := r.Intn(4); k > 0 && len(t.M) > 0; k-- {
		m := t.M[r.Intn(len(t.M))]
		if r.Intn(3) == 0 {
			t.del(m.K)
			v.MustDelete(m.K)
			continue
		}
		nv := tNum(strconv.Itoa(100 + r.Intn(9)))
		t.set(m.K, nv)
		v.MustSet(nv.build()).At(m.K)
	}
	c.try(func() string { return "ordered marshal of " + clip(t.Ordered(), 1500) }, func() {
		check := func(what string, opt []jv.Option, less func(a, b mem) bool) {
			if r.Intn(3) == 0 {
				opt = append([]jv.Option{jv.OptUTF8()}, opt...)
			}
			txt, err := v.MarshalString(opt...)
			if err != nil {
				c.fail("%s: marshal of %v: %v", what, t.Ordered(), err)
			}
			got, err := strictParse(txt)
			if err != nil {
				c.fail("%s: marshal of %v gives %s: %v", what, t.Ordered(), q(txt), err)
			}
			want := t
			if less != nil {
				want = t.sorted(less)
			}
			if got.Ordered() != want.Ordered() {
				c.fail("%s: marshal of %v\n gives    %v\n expected %v", what, t.Ordered(), got.Ordered(), want.Ordered())
			}
		}
		byKey := func(a, b mem) bool { return a.K < b.K }
		switch r.Intn(5) {
		case 0:
			check("default string sequence", []jv.Option{jv.OptDefaultStringSequence()}, byKey)
		case 1:
			check("descending less func", []jv.Option{jv.OptKeySequenceWithLessFunc(func(p *jv.ParentInfo, a, b string, x, y *jv.V) bool { return a > b })}, func(a, b mem) bool { return a.K > b.K })
		case 2:
			check("set sequence", []jv.Option{jv.OptSetSequence()}, nil)
			var ks []string
			v.RangeObjectsBySetSequence(func(k string, e *jv.V) bool { ks = append(ks, k); return true })
			for i, k := range ks {
				if i >= len(t.M) || t.M[i].K != k {
					c.fail("set sequence of %v is %q", t.Ordered(), ks)
				}
			}
		case 3:
			var seq []string
			pos := map[string]int{}
			for k := r.Intn(6); k > 0; k-- {
				key := string(rune('a' + r.Intn(8)))
				if r.Intn(4) == 0 && len(t.M) > 0 {
					key = t.M[r.Intn(len(t.M))].K
				}
				if _, dup := pos[key]; dup {
					continue
				}
				pos[key] = len(seq)
				seq = append(seq, key)
			}
			if len(seq) == 0 {
				seq = []string{"b"}
				pos["b"] = 0
			}
			cp := append([]string{}, seq...)
			check(fmt.Sprintf("key sequence %q", seq), []jv.Option{jv.OptKeySequence(seq)}, func(a, b mem) bool {
				i, ok1 := pos[a.K]
				j, ok2 := pos[b.K]
				if ok1 && ok2 {
					return i < j
				}
				if ok1 != ok2 {
					return ok1
				}
				return a.K < b.K
			})
			for i := range cp {
				if cp[i] != seq[i] {
					c.fail("the key sequence given by the caller was changed to %q", seq)
				}
			}
		case 4:
			// by value: the less function must see each key with its own value
			bad := ""
			check("less func by length then key", []jv.Option{jv.OptKeySequenceWithLessFunc(func(p *jv.ParentInfo, a, b string, x, y *jv.V) bool {
				if x == nil || y == nil {
					bad = "nil value given to the less function"
				}
				if len(a) != len(b) {
					return len(a) < len(b)
				}
				return a < b
			})}, func(a, b mem) bool {
				if len(a.K) != len(b.K) {
					return len(a.K) < len(b.K)
				}
				return a.K < b.K
			})
			seen := false
			_, _ = v.MarshalString(jv.OptKeySequenceWithLessFunc(func(p *jv.ParentInfo, a, b string, x, y *jv.V) bool {
				if !seen && p == nil {
					if w, err := v.Get(a); err != nil || w != x {
						bad = fmt.Sprintf("the less function got another value for key %q", a)
					}
					if w, err := v.Get(b); err != nil || w != y {
						bad = fmt.Sprintf("the less function got another value for key %q", b)
					}
				}
				return a < b
			}))
			if bad != "" {
				c.fail("%s; object %v", bad, t.Ordered())
			}
		}
	})
}
func c08enum(c *Ctx) {
	r := rand.New(rand.NewSource(5))
	for i := 0; i < 5000; i++ {
		c08case(c, r)
	}
}
func c08step(c *Ctx, r *rand.Rand) { c08case(c, r) }

// ---- C22: a reference of the option state

type refOpt struct {
	omit, utf8, nohtml, noslash bool
	nan, inf                    int
	nanS, infS, infN            string
	ign                         bool
	nanF, infF                  float64
	order                       int
	seq                         string
	indent                      string
	ind                         bool
}

type optStep struct {
	name string
	o    func() jv.Option
	f    func(*refOpt)
}

var optSteps = []optStep{
	{"omitnull", func() jv.Option { return jv.OptOmitNull(true) }, func(o *refOpt) { o.omit = true }},
	{"no omitnull", func() jv.Option { return jv.OptOmitNull(false) }, func(o *refOpt) { o.omit = false }},
	{"utf8", func() jv.Option { return jv.OptUTF8() }, func(o *refOpt) { o.utf8 = true }},
	{"html off", func() jv.Option { return jv.OptEscapeHTML(false) }, func(o *refOpt) { o.nohtml = true }},
	{"html on", func() jv.Option { return jv.OptEscapeHTML(true) }, func(o *refOpt) { o.nohtml = false }},
	{"slash off", func() jv.Option { return jv.OptEscapeSlash(false) }, func(o *refOpt) { o.noslash = true }},
	{"slash on", func() jv.Option { return jv.OptEscapeSlash(true) }, func(o *refOpt) { o.noslash = false }},
	{"nan null", func() jv.Option { return jv.OptFloatNaNToNull() }, func(o *refOpt) { o.nan = 1 }},
	{"nan float", func() jv.Option { return jv.OptFloatNaNToFloat(7) }, func(o *refOpt) { o.nan = 2; o.nanF = 7 }},
	{"nan str", func() jv.Option { return jv.OptFloatNaNToString("n") }, func(o *refOpt) { o.nan = 3; o.nanS = "n" }},
	{"inf null", func() jv.Option { return jv.OptFloatInfToNull() }, func(o *refOpt) { o.inf = 1 }},
	{"inf float", func() jv.Option { return jv.OptFloatInfToFloat(8) }, func(o *refOpt) { o.inf = 2; o.infF = 8 }},
	{"inf str", func() jv.Option { return jv.OptFloatInfToString("p", "m") }, func(o *refOpt) { o.inf = 3; o.infS = "p"; o.infN = "m" }},
	{"inf std", func() jv.Option { return jv.OptFloatInfToStringInf() }, func(o *refOpt) { o.inf = 3; o.infS = "+Inf"; o.infN = "-Inf" }},
	{"nan std", func() jv.Option { return jv.OptFloatNaNToStringNaN() }, func(o *refOpt) { o.nan = 3; o.nanS = "NaN" }},
	{"ignore omitempty", func() jv.Option { return jv.OptIgnoreOmitempty() }, func(o *refOpt) { o.ign = true }},
	{"order default", func() jv.Option { return jv.OptDefaultStringSequence() }, func(o *refOpt) { o.order = 1 }},
	{"order desc", func() jv.Option {
		return jv.OptKeySequenceWithLessFunc(func(p *jv.ParentInfo, a, b string, x, y *jv.V) bool { return a > b })
	}, func(o *refOpt) { o.order = 2 }},
	{"order seq", func() jv.Option { return jv.OptKeySequence([]string{"n", "s"}) }, func(o *refOpt) { o.order = 3; o.seq = "n,s" }},
	{"order seq2", func() jv.Option { return jv.OptKeySequence([]string{"z", "m"}) }, func(o *refOpt) { o.order = 3; o.seq = "z,m" }},
	{"order set", func() jv.Option { return jv.OptSetSequence() }, func(o *refOpt) { o.order = 4 }},
	{"indent", func() jv.Option { return jv.OptIndent("", " ") }, func(o *refOpt) { o.ind = true; o.indent = " " }},
	{"indent2", func() jv.Option { return jv.OptIndent("", "\t") }, func(o *refOpt) { o.ind = true; o.indent = "\t" }},
}

var c22keys = []string{"z", "s", "n", "m", "w", "a"}

func c22value() *jv.V {
	v := jv.NewObject()
	v.MustSetFloat64(math.NaN()).At("z")
	v.MustSetString("é<>&/").At("s")
	v.MustSetNull().At("n")
	v.MustSetFloat64(math.Inf(1)).At("m")
	v.MustSetFloat64(math.Inf(-1)).At("w")
	v.MustSetBool(true).At("a")
	return v
}

func (o refOpt) expect() (string, bool) {
	ks := append([]string{}, c22keys...)
	switch o.order {
	case 1:
		sort.Strings(ks)
	case 2:
		sort.Sort(sort.Reverse(sort.StringSlice(ks)))
	case 3:
		pos := map[string]int{}
		for i, k := range strings.Split(o.seq, ",") {
			pos[k] = i - 10
		}
		sort.Slice(ks, func(i, j int) bool {
			a, b := pos[ks[i]], pos[ks[j]]
			if a != b {
				return a < b
			}
			return ks[i] < ks[j]
		})
	case 0:
		sort.Strings(ks) // canonical; the caller sorts the real output
	}
	if o.nan == 0 || o.inf == 0 {
		return "error", false
	}
	s := "\\u00E9"
	if o.utf8 {
		s = "é"
	}
	if o.nohtml {
		s += "<>&"
	} else {
		s += "\\u003C\\u003E\\u0026"
	}
	if o.noslash {
		s += "/"
	} else {
		s += "\\/"
	}
	val := map[string]string{"s": `"` + s + `"`, "a": "true", "n": "null"}
	val["z"] = []string{"", "null", "7", `"` + o.nanS + `"`}[o.nan]
	val["m"] = []string{"", "null", "8", `"` + o.infS + `"`}[o.inf]
	val["w"] = []string{"", "null", "-8", `"` + o.infN + `"`}[o.inf]
	out := "{"
	first := true
	for _, k := range ks {
		if k == "n" && o.omit {
			continue
		}
		if !first {
			out += ","
		}
		first = false
		if o.ind {
			out += "\n" + o.indent
		}
		out += `"` + k + `":`
		if o.ind {
			out += " "
		}
		out += val[k]
	}
	if o.ind {
		out += "\n"
	}
	return out + "}", true
}

func canonical(s string) string {
	// order-free comparison of the one-level object
	in := strings.TrimSuffix(strings.TrimPrefix(s, "{"), "}")
	ps := strings.Split(in, ",")
	for i := range ps {
		ps[i] = strings.TrimRight(ps[i], "\n")
	}
	sort.Strings(ps)
	return strings.Join(ps, ",")
}

func c22step(c *Ctx, r *rand.Rand) {
	defer jv.ResetDefaultMarshalOptions()
	var log []string
	c.try(func() string { return strings.Join(log, "; ") }, func() {
		v := c22value()
		def := refOpt{}
		// option values that are reused over the whole history
		shared := make([]jv.Option, len(optSteps))
		for i := range shared {
			shared[i] = optSteps[i].o()
		}
		jv.ResetDefaultMarshalOptions()
		pick := func(o *refOpt, base int) []jv.Option {
			var opts []jv.Option
			names := ""
			for k := r.Intn(base); k > 0; k-- {
				i := r.Intn(len(optSteps))
				if r.Intn(2) == 0 {
					opts = append(opts, shared[i])
				} else {
					opts = append(opts, optSteps[i].o())
				}
				optSteps[i].f(o)
				names += optSteps[i].name + ","
			}
			log = append(log, names)
			return opts
		}
		for n := 2 + r.Intn(8); n > 0; n-- {
			switch r.Intn(9) {
			case 8:
				// Import takes the same options
				o := def
				log = append(log, "Import")
				type tS struct {
					A int `json:"a,omitempty"`
				}
				got, err := jv.Import(tS{}, pick(&o, 4)...)
				if err != nil {
					c.fail("history %s: Import fails: %v", strings.Join(log, "; "), err)
				}
				if want := map[bool]int{true: 1, false: 0}[o.ign]; got.Len() != want {
					c.fail("history %s: omitempty is not treated as the options say", strings.Join(log, "; "))
				}
			case 0:
				log = append(log, "SetDefault")
				def = refOpt{}
				opts := pick(&def, 9)
				jv.SetDefaultMarshalOptions(opts...)
			case 1:
				log = append(log, "Reset")
				jv.ResetDefaultMarshalOptions()
				def = refOpt{}
			default:
				o := def
				log = append(log, "Marshal")
				opts := pick(&o, 7)
				if len(opts) > 0 && r.Intn(8) == 0 {
					// Opt{} replaces everything before it
					opts = append([]jv.Option{opts[0], jv.Opt{}}, opts[1:]...)
					continue
				}
				got, err := v.MarshalString(opts...)
				want, ok := o.expect()
				if (err == nil) != ok {
					c.fail("history %s: marshal gives %q, %v; expected %q", strings.Join(log, "; "), got, err, want)
				}
				if !ok {
					continue
				}
				if o.order == 0 {
					got, want = canonical(got), canonical(want)
				}
				if got != want {
					c.fail("history %s: marshal gives\n %q\n expected\n %q", strings.Join(log, "; "), got, want)
				}
			}
		}
	})
}
