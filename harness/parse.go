package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"

	jv "github.com/Andrew-M-C/go.jsonvalue"
)

func parse(mode int, text string) (v *jv.V, err error) {
	switch mode % 6 {
	case 0:
		return jv.UnmarshalString(text)
	case 1:
		return jv.Unmarshal([]byte(text))
	case 2:
		// the text is part of a larger buffer
		b := append([]byte("\"xyz\\u"), text...)
		b = append(b, "\"}]0123"...)
		n := len("\"xyz\\u")
		return jv.UnmarshalNoCopy(b[n : n+len(text) : n+len(text)])
	case 3:
		b := append([]byte("\"xyz\\u"), text...)
		b = append(b, "\"}]0123"...)
		n := len("\"xyz\\u")
		return jv.UnmarshalNoCopy(b[n : n+len(text)])
	case 4:
		v := &jv.V{}
		err = json.Unmarshal([]byte(text), &struct{}{})
		_ = err
		err = v.UnmarshalJSON([]byte(text))
		return v, err
	}
	v = jv.MustUnmarshal([]byte(text))
	if v != nil && v.ValueType() == jv.NotExist {
		return v, fmt.Errorf("rejected")
	}
	return v, nil
}

var parseName = []string{"UnmarshalString", "Unmarshal", "UnmarshalNoCopy (full slice)", "UnmarshalNoCopy (spare capacity)", "UnmarshalJSON", "MustUnmarshal"}

// checkText compares the library with the reference on one text
func checkText(c *Ctx, mode int, text string, strict bool) {
	c.try(func() string { return parseName[mode%6] + " " + q(text) }, func() {
		want, ok := refParse([]byte(text))
		v, err := parse(mode, text)
		if v == nil {
			c.fail("%s(%s) returns a nil value (error %v)", parseName[mode%6], q(text), err)
		}
		if (err == nil) != ok {
			c.fail("%s(%s): error is %v, but the text is accepted: %v", parseName[mode%6], q(text), err, ok)
		}
		if !ok {
			if v.ValueType() != jv.NotExist {
				c.fail("%s(%s) fails but returns a value of type %v", parseName[mode%6], q(text), v.ValueType())
			}
			return
		}
		got := tree(v)
		if got.String() != want.String() {
			c.fail("%s(%s)\n gives   %v\n expected %v", parseName[mode%6], q(text), got, want)
		}
		checkNums(c, text, v, want)
		checkOrder(c, text, got, want)
	})
}

func checkOrder(c *Ctx, text string, got, want *T) {
	if got.Ordered() != want.Ordered() {
		c.fail("parse of %s: members in set order are\n %v\n expected %v", q(text), got.Ordered(), want.Ordered())
	}
}

// checkNums: every number inside has the value its text denotes
func checkNums(c *Ctx, text string, v *jv.V, t *T) {
	switch t.K {
	case kNum:
		checkNum(c, text, v, t.S)
	case kArr:
		for i, a := range t.A {
			e, err := v.Get(i)
			if err != nil {
				c.fail("%s: element %d: %v", q(text), i, err)
			}
			checkNums(c, text, e, a)
		}
	case kObj:
		for _, m := range t.M {
			e, err := v.Get(m.K)
			if err != nil {
				c.fail("%s: member %q: %v", q(text), m.K, err)
			}
			checkNums(c, text, e, m.V)
		}
	}
}

func checkNum(c *Ctx, where string, v *jv.V, t string) {
	bad := func(what string, got, want interface{}) {
		c.fail("number %s (in %s): %s is %v, expected %v", t, q(where), what, got, want)
	}
	if v.String() != t {
		bad("text", v.String(), t)
	}
	if b, err := v.Marshal(); err != nil || string(b) != t {
		bad("Marshal", string(b), t)
	}
	isInt := isIntText(t)
	if v.IsInteger() != isInt {
		bad("IsInteger", v.IsInteger(), isInt)
	}
	if v.IsFloat() != !isInt {
		bad("IsFloat", v.IsFloat(), !isInt)
	}
	if isInt {
		if t[0] == '-' {
			i, _ := strconv.ParseInt(t, 10, 64)
			if v.Int64() != i || v.Int() != int(i) || v.Int32() != int32(i) {
				bad("Int64", v.Int64(), i)
			}
			if v.Uint64() != uint64(i) {
				bad("Uint64", v.Uint64(), uint64(i))
			}
			if v.Float64() != float64(i) {
				bad("Float64", v.Float64(), float64(i))
			}
			if !v.IsNegative() || v.IsPositive() {
				bad("IsNegative", v.IsNegative(), true)
			}
			if v.GreaterThanInt64Max() {
				bad("GreaterThanInt64Max", true, false)
			}
		} else {
			u, _ := strconv.ParseUint(t, 10, 64)
			if v.Uint64() != u || v.Uint() != uint(u) || v.Uint32() != uint32(u) {
				bad("Uint64", v.Uint64(), u)
			}
			if v.Int64() != int64(u) {
				bad("Int64", v.Int64(), int64(u))
			}
			if v.Float64() != float64(u) {
				bad("Float64", v.Float64(), float64(u))
			}
			if v.IsNegative() || !v.IsPositive() {
				bad("IsNegative", v.IsNegative(), false)
			}
			if v.GreaterThanInt64Max() != (u > math.MaxInt64) {
				bad("GreaterThanInt64Max", v.GreaterThanInt64Max(), u > math.MaxInt64)
			}
		}
		return
	}
	f, _ := strconv.ParseFloat(t, 64)
	if math.Float64bits(v.Float64()) != math.Float64bits(f) {
		bad("Float64", v.Float64(), f)
	}
	if v.Float32() != float32(f) {
		bad("Float32", v.Float32(), float32(f))
	}
	if v.IsNegative() != (f < 0) {
		bad("IsNegative", v.IsNegative(), f < 0)
	}
	if f > -9e18 && f < 9e18 && v.Int64() != int64(f) {
		bad("Int64", v.Int64(), int64(f))
	}
	if f >= 0 && f < 18446744073709551616 && v.Uint64() != uint64(f) {
		bad("Uint64", v.Uint64(), uint64(f))
	}
}

// ---- C02: string literals

var litPieces = []string{"a", "Z", "0", " ", "\x00", "\x01", "\x1f", "\x7f", "'", "/", `\"`, `\\`, `\/`, `\'`, `\b`, `\f`, `\n`, `\r`, `\t`, `\v`, `\a`, `\0`, `\x41`, `\U0041`,
	`\u0000`, `\u0041`, `\u007f`, `\u0080`, `\u00e9`, `\u00FF`, `\u07ff`, `\u0800`, `\u4e2d`, `\ud7ff`, `\uD7FF`, `\ue000`, `\uffff`, `\uFFFD`, `\ud800`, `\udbff`, `\udc00`, `\udfff`,
	`\ud800\udc00`, `\ud83d\ude00`, `\uDBFF\uDFFF`, `\udbff\udfff`, `\ud800\udbff`, `\ud800\ue000`, `\ud800\u0041`, `\ud800x`, `\ud800\n`, `\ud800\udc0`, `\ud800\ud800\udc00`, `\udc00\udc00`, `\ud8000udc00`,
	`\u`, `\u1`, `\u12`, `\u123`, `\u123g`, `\u12g4`, `\u1g34`, `\ug234`, `\u00:0`, `\u00@0`, "\\u00`0", `\u00/0`, `\u00G0`, `\u-001`, `\u+001`, `\u 041`,
	"é", "ß", "߿", "ࠀ", "中", "\u2028", "\uffff", "😀", "\U0010ffff", "\xc0", "\xc3", "\xdf", "\xe0", "\xe4\xb8", "\xef", "\xf0", "\xf0\x9f", "\xf0\x9f\x98", "\xf7", "\xf8", "\xff", "\x80", "\xbf", "\xc0\x80", "\xed\xa0\x80", "\xf4\x90\x80\x80"}

func c02Texts(body string) []string {
	return []string{`"` + body + `"`, `["x","` + body + `","y"]`, `{"` + body + `":"` + body + `"}`, `"` + body, `"` + body + `\`}
}

func c02(c *Ctx, mode int, body string) {
	for _, t := range c02Texts(body) {
		checkText(c, mode, t, false)
	}
}

func init() {
	props["C02"] = &prop{enum: func(c *Ctx) {
		for b := 0; b < 256; b++ {
			c02(c, b, string([]byte{byte(b)}))
			c02(c, b, "\\"+string([]byte{byte(b)}))
			c02(c, b, string([]byte{'a', byte(b), 'b', 'c', 'd', 'e'}))
			for i := 0; i < 4; i++ {
				h := []byte("\\u0041")
				h[2+i] = byte(b)
				c02(c, b, string(h))
				h = []byte("\\ud83d\\ude00")
				h[8+i] = byte(b)
				c02(c, b, string(h))
				h = []byte("\\ud83d\\ude00")
				h[i+3] = byte(b)
				c02(c, b, string(h))
			}
		}
		for cp := 0; cp < 0x10000 && !c.out(); cp++ {
			checkText(c, cp, fmt.Sprintf(`["\u%04x","%s"]`, cp, enc(cp)), false)
			if cp%61 == 0 || cp > 0xd7f0 && cp < 0xe010 {
				checkText(c, cp, fmt.Sprintf(`["\ud800\u%04X"]`, cp), false)
				checkText(c, cp, fmt.Sprintf(`["\uDBFF\u%04X"]`, cp), false)
				checkText(c, cp, fmt.Sprintf(`["\u%04X\udc00"]`, cp), false)
			}
		}
		for cp := 0x10000; cp < 0x110000 && !c.out(); cp += 257 {
			x := cp - 0x10000
			checkText(c, cp, fmt.Sprintf(`["\u%04x\u%04X","%s"]`, 0xd800+x>>10, 0xdc00+x&0x3ff, enc(cp)), false)
		}
		for _, a := range litPieces {
			for _, b := range litPieces {
				if c.out() {
					return
				}
				c02(c, len(a)+len(b), a+b)
			}
		}
	}, step: func(c *Ctx, r *rand.Rand) {
		s := ""
		for k := 1 + r.Intn(9); k > 0; k-- {
			switch r.Intn(4) {
			case 0:
				s += string([]byte{byte(r.Intn(256))})
			case 1:
				s += fmt.Sprintf(`\u%04x`, r.Intn(0x10000))
			default:
				s += litPieces[r.Intn(len(litPieces))]
			}
		}
		c02(c, r.Intn(6), s)
	}}

	props["C03"] = &prop{enum: func(c *Ctx) {
		check := func(t string) {
			if t == "" || !(t[0] == '-' || t[0] >= '0' && t[0] <= '9') {
				return
			}
			for _, x := range []string{t, "[" + t + "]", `{"a":` + t + `}`, t + " ", "[" + t + ",1]", " \n" + t + "\n"} {
				checkText(c, len(t), x, false)
			}
			checkStrNum(c, t)
		}
		for _, t := range edgeNums {
			check(t)
		}
		for _, t := range badNums {
			check(t)
		}
		// every text of up to 5 symbols over a small alphabet
		al := "0195-+.eE"
		var rec func(s string, n int)
		rec = func(s string, n int) {
			if c.out() {
				return
			}
			if s != "" {
				checkText(c, len(s), s, false)
				checkStrNum(c, s)
			}
			if n == 0 {
				return
			}
			for i := 0; i < len(al); i++ {
				rec(s+al[i:i+1], n-1)
			}
		}
		rec("", 5)
	}, step: func(c *Ctx, r *rand.Rand) {
		t := genNumText(r)
		m := r.Intn(6)
		x := t
		switch r.Intn(5) {
		case 0:
			x = "[" + t + "]"
		case 1:
			x = `{"k":` + t + ` }`
		case 2:
			x = `[` + t + `,` + genNumText(r) + "]"
		case 3:
			x = t + []string{" ", "x", ",", "]", "}", "\x00", "\t"}[r.Intn(7)]
		}
		checkText(c, m, x, false)
		checkStrNum(c, t)
	}}

	// C04: structure
	props["C04"] = &prop{enum: func(c *Ctx) {
		// every sequence of up to 6 tokens
		toks := []string{"{", "}", "[", "]", ",", ":", `"a"`, `"b"`, "1", "null"}
		var rec func(s string, n int)
		rec = func(s string, n int) {
			if c.out() {
				return
			}
			checkText(c, len(s), s, true)
			if n == 0 {
				return
			}
			for _, t := range toks {
				rec(s+t, n-1)
			}
		}
		rec("", 5)
		for _, w := range []string{"true", "false", "null"} {
			for i := 0; i <= len(w); i++ {
				for _, x := range []string{"", " ", "x", "e", "]", "}"} {
					for _, pre := range []string{"", "[", `{"k":`, "[1,", "{", `{"k"`} {
						checkText(c, i, pre+w[:i]+x, true)
						checkText(c, i, pre+w[:i]+x+"]", true)
						checkText(c, i, pre+w[:i]+x+"}", true)
						if i > 0 {
							checkText(c, i, pre+w[:i-1]+"?"+w[i:], true)
						}
					}
				}
			}
		}
		for b := 0; b < 256; b++ {
			s := string([]byte{byte(b)})
			for _, x := range []string{s, s + "1", "1" + s, "[" + s + "]", "[1" + s + "2]", "{" + s + "}", `{"a"` + s + `:1}`, `{"a":` + s + `1}`, `{"a":1` + s + `}`, `{"a":1,` + s + `"b":2}`, "[]" + s, "{}" + s, s + "{}", `""` + s, "true" + s} {
				checkText(c, b, x, true)
			}
		}
		for _, n := range []int{31, 32, 33, 63, 64, 65, 100, 1000} {
			checkText(c, n, "["+strings.Repeat("1,", n)+"2]", true)
			checkText(c, n, strings.Repeat("[", n)+strings.Repeat("]", n), true)
			checkText(c, n, strings.Repeat(`{"a":`, n)+"1"+strings.Repeat("}", n), true)
			checkText(c, n, strings.Repeat("[", n)+strings.Repeat("]", n-1), true)
			s := "{"
			for i := 0; i < n; i++ {
				s += fmt.Sprintf(`"k%d":[%d,{"x":"%d"}],`, i, i, i)
			}
			checkText(c, n, s+`"":null}`, true)
		}
	}, step: stepStructure}

	// C01: any input at all
	props["C01"] = &prop{enum: func(c *Ctx) {
		for i := 0; i < 6; i++ {
			checkText(c, i, "", true)
		}
		c.try(func() string { return "nil input" }, func() {
			for _, f := range []func([]byte) (*jv.V, error){jv.Unmarshal, jv.UnmarshalNoCopy} {
				v, err := f(nil)
				if v == nil || err == nil || v.ValueType() != jv.NotExist {
					c.fail("Unmarshal(nil) gives %v, %v", v, err)
				}
			}
		})
		al := []byte("{}[],:\"\\u0-1.eE tfn\xc3\xf0\x80")
		var rec func(s []byte, n int)
		rec = func(s []byte, n int) {
			if c.out() {
				return
			}
			checkText(c, len(s)+n, string(s), true)
			if n == 0 {
				return
			}
			for _, b := range al {
				rec(append(s[:len(s):len(s)], b), n-1)
			}
		}
		rec(nil, 3)
		// the size predictor: long texts with few values, short texts with many
		long := `"` + strings.Repeat("x", 1<<20) + `"`
		for i := 0; i < 40 && !c.out(); i++ {
			checkText(c, 0, long, true)
			checkText(c, 0, "["+strings.Repeat("[],", 2000)+"1]", true)
			checkText(c, 1, "[[[[[", true)
		}
	}, step: stepStructure}

	props["C15"] = &prop{enum: func(c *Ctx) {}, step: stepIsolation}
}

// checkStrNum: numbers read from strings use the same grammar
func checkStrNum(c *Ctx, t string) {
	c.try(func() string { return "number read from the string " + q(t) }, func() {
		ok := numGrammar(t) && numInRange(t)
		v := jv.NewString(t)
		f := 0.0
		i := int64(0)
		u := uint64(0)
		if ok {
			n := jv.MustUnmarshalString(t)
			f, i, u = n.Float64(), n.Int64(), n.Uint64()
		}
		if v.Float64() != f || v.Int64() != i || v.Uint64() != u {
			c.fail("string %q read as a number: %v %v %v, expected %v %v %v", t, v.Float64(), v.Int64(), v.Uint64(), f, i, u)
		}
	})
}

func stepStructure(c *Ctx, r *rand.Rand) {
	t := genT(r, 4)
	s := t.write(r)
	m := r.Intn(6)
	if r.Intn(2) == 0 {
		if w, ok := refParse([]byte(s)); !ok || w.String() != t.String() {
			panic("reference disagrees with itself on " + q(s))
		}
		checkText(c, m, s, true)
		return
	}
	b := []byte(s)
	for k := 1 + r.Intn(3); k > 0 && len(b) > 0; k-- {
		i := r.Intn(len(b))
		switch r.Intn(6) {
		case 0:
			b = append(b[:i:i], b[i+1:]...)
		case 1:
			b[i] = byte(r.Intn(256))
		case 2:
			b[i] = "{}[],:\"\\ tfn0-1.e\b"[r.Intn(18)]
		case 3:
			b = append(b[:i:i], append([]byte{"{}[],:\"\\ 1"[r.Intn(10)]}, b[i:]...)...)
		case 4:
			b = b[:i]
		case 5:
			j := r.Intn(len(b))
			b[i], b[j] = b[j], b[i]
		}
	}
	checkText(c, m, string(b), true)
}

// stepIsolation: parsing does not touch or keep the caller's buffer, and the value is not changed by later use of it
func stepIsolation(c *Ctx, r *rand.Rand) {
	t := genT(r, 3)
	s := t.write(r)
	c.try(func() string { return "isolation " + q(s) }, func() {
		b := make([]byte, len(s), len(s)+r.Intn(8))
		copy(b, s)
		v, err := jv.Unmarshal(b)
		if err != nil {
			c.fail("Unmarshal(%s): %v", q(s), err)
		}
		if string(b) != s {
			c.fail("Unmarshal(%s) changed its input to %s", q(s), q(string(b)))
		}
		v2, err := jv.UnmarshalString(s)
		if err != nil {
			c.fail("UnmarshalString(%s): %v", q(s), err)
		}
		before := tree(v).String()
		if before != t.String() || tree(v2).String() != before {
			c.fail("Unmarshal(%s) gives %s, expected %s", q(s), before, t)
		}
		for i := range b {
			b[i] = byte('A' + i%50)
		}
		full := b[:cap(b)]
		for i := range full {
			full[i] = '#'
		}
		if tree(v).String() != before {
			c.fail("value of Unmarshal(%s) changed from %s to %s when the input buffer was overwritten", q(s), before, tree(v))
		}
		// a sub-slice: bytes outside stay
		big := append([]byte("<<<<"), s...)
		big = append(big, ">>>>"...)
		vn, err := jv.UnmarshalNoCopy(big[4 : 4+len(s)])
		if err != nil || tree(vn).String() != before {
			c.fail("UnmarshalNoCopy(%s) gives %v, %v", q(s), vn, err)
		}
		if !bytes.Equal(big[:4], []byte("<<<<")) || !bytes.Equal(big[4+len(s):], []byte(">>>>")) {
			c.fail("UnmarshalNoCopy(%s) wrote outside its input", q(s))
		}
		// the marshalled text is the caller's own
		out, err := v.Marshal()
		if err != nil {
			c.fail("Marshal of %s: %v", before, err)
		}
		for i := range out {
			out[i] = '!'
		}
		if tree(v).String() != before {
			c.fail("value %s changed to %s when its marshalled text was overwritten", before, tree(v))
		}
		// reading does not change the value
		reads(v, r)
		if tree(v).String() != before {
			c.fail("value %s changed to %s by read-only use", before, tree(v))
		}
		if tree(v2).String() != before {
			c.fail("a value parsed from the same text changed to %s", tree(v2))
		}
		// containers handed out are the caller's own
		arr := v.ForRangeArr()
		for i := range arr {
			arr[i] = jv.NewString("X")
		}
		m := v.ForRangeObj()
		for k := range m {
			delete(m, k)
		}
		if tree(v).String() != before {
			c.fail("value %s changed to %s when the collection of its children was changed", before, tree(v))
		}
		if v.ValueType() == jv.String {
			x := v.Bytes()
			for i := range x {
				x[i] = 0
			}
		}
		src := []byte(genStr(r))
		keep := string(src)
		nb := jv.NewBytes(src)
		for i := range src {
			src[i] ^= 0x5a
		}
		if string(nb.Bytes()) != keep {
			c.fail("NewBytes(%q) gives %q after its input was overwritten", keep, nb.Bytes())
		}
		got := nb.Bytes()
		for i := range got {
			got[i] ^= 0x11
		}
		if string(nb.Bytes()) != keep {
			c.fail("NewBytes(%q).Bytes() gives %q after the bytes handed out were overwritten", keep, nb.Bytes())
		}
	})
}

// reads uses v without changing it
func reads(v *jv.V, r *rand.Rand) {
	_ = v.String()
	_ = v.Int64()
	_ = v.Float64()
	_ = v.Bool()
	_ = v.Bytes()
	_ = v.Len()
	_ = v.Equal(v)
	_, _ = v.Marshal(jv.OptDefaultStringSequence())
	_, _ = v.Marshal(jv.OptSetSequence())
	_, _ = v.Marshal(jv.OptKeySequence([]string{"a", "b"}))
	_, _ = v.Marshal(jv.OptIndent("", " "), jv.OptOmitNull(true))
	_ = v.MustMarshalString(jv.OptUTF8())
	_, _ = v.Get("a")
	_, _ = v.Get(0)
	_, _ = v.GetInt("a", "b")
	_, _ = v.GetString(-1)
	_, _ = v.Caseless().Get("A")
	_, _ = v.Caseless().GetArray("aB", 0)
	v.RangeArray(func(i int, e *jv.V) bool { reads1(e); return true })
	v.RangeObjects(func(k string, e *jv.V) bool { reads1(e); return true })
	v.RangeObjectsBySetSequence(func(k string, e *jv.V) bool { return r.Intn(3) > 0 })
}

func reads1(e *jv.V) {
	_ = e.String()
	_ = e.Int()
	_ = e.Bool()
	_, _ = e.Get("x")
}
