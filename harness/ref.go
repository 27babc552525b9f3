package main

// Reference: what a text denotes.

import (
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"

	jv "github.com/Andrew-M-C/go.jsonvalue"
)

type kind int

const (
	kNone kind = iota
	kStr
	kNum
	kObj
	kArr
	kBool
	kNull
)

// T is a reference JSON value. Object members are in the order in which they were last set.
type T struct {
	K kind
	S string // string, or text of a number
	B bool
	A []*T
	M []mem
}
type mem struct {
	K string
	V *T
}

func tStr(s string) *T  { return &T{K: kStr, S: s} }
func tNum(s string) *T  { return &T{K: kNum, S: s} }
func tBool(b bool) *T   { return &T{K: kBool, B: b} }
func tNull() *T         { return &T{K: kNull} }
func tArr(a ...*T) *T   { return &T{K: kArr, A: a} }
func tObj(m ...mem) *T  { return &T{K: kObj, M: m} }

func (t *T) get(k string) *T {
	for i := range t.M {
		if t.M[i].K == k {
			return t.M[i].V
		}
	}
	return nil
}
func (t *T) set(k string, v *T) {
	t.del(k)
	t.M = append(t.M, mem{k, v})
}
func (t *T) del(k string) bool {
	for i := range t.M {
		if t.M[i].K == k {
			t.M = append(t.M[:i:i], t.M[i+1:]...)
			return true
		}
	}
	return false
}
func (t *T) clone() *T {
	n := *t
	n.A, n.M = nil, nil
	for _, a := range t.A {
		n.A = append(n.A, a.clone())
	}
	for _, m := range t.M {
		n.M = append(n.M, mem{m.K, m.V.clone()})
	}
	return &n
}

// String is a canonical description (keys sorted)
func (t *T) String() string {
	var sb strings.Builder
	t.desc(&sb, true)
	return sb.String()
}
func (t *T) Ordered() string {
	var sb strings.Builder
	t.desc(&sb, false)
	return sb.String()
}
func (t *T) desc(sb *strings.Builder, sorted bool) {
	switch t.K {
	case kStr:
		fmt.Fprintf(sb, "%q", t.S)
	case kNum:
		sb.WriteString(t.S)
	case kBool:
		fmt.Fprint(sb, t.B)
	case kNull:
		sb.WriteString("null")
	case kArr:
		sb.WriteByte('[')
		for i, a := range t.A {
			if i > 0 {
				sb.WriteByte(',')
			}
			a.desc(sb, sorted)
		}
		sb.WriteByte(']')
	case kObj:
		ms := append([]mem{}, t.M...)
		if sorted {
			sort.Slice(ms, func(i, j int) bool { return ms[i].K < ms[j].K })
		}
		sb.WriteByte('{')
		for i, m := range ms {
			if i > 0 {
				sb.WriteByte(',')
			}
			fmt.Fprintf(sb, "%q:", m.K)
			m.V.desc(sb, sorted)
		}
		sb.WriteByte('}')
	default:
		sb.WriteString("<none>")
	}
}

// tree reads the library's value through its accessors
func tree(v *jv.V) *T {
	switch v.ValueType() {
	case jv.String:
		return tStr(v.String())
	case jv.Number:
		return tNum(v.String())
	case jv.Boolean:
		return tBool(v.Bool())
	case jv.Null:
		return tNull()
	case jv.Array:
		t := tArr()
		for _, e := range v.ForRangeArr() {
			if e == nil {
				t.A = append(t.A, &T{})
				continue
			}
			t.A = append(t.A, tree(e))
		}
		return t
	case jv.Object:
		t := tObj()
		v.RangeObjectsBySetSequence(func(k string, e *jv.V) bool {
			if e == nil {
				t.M = append(t.M, mem{k, &T{}})
				return true
			}
			t.M = append(t.M, mem{k, tree(e)})
			return true
		})
		return t
	}
	return &T{}
}

// ---- parsing

type rp struct {
	b   []byte
	pos int
}

func isBlank(c byte) bool { return c == ' ' || c == '\r' || c == '\n' || c == '\t' || c == '\b' }

func hexd(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

func hex4(b []byte) int {
	if len(b) < 4 {
		return -1
	}
	n := 0
	for i := 0; i < 4; i++ {
		h := hexd(b[i])
		if h < 0 {
			return -1
		}
		n = n*16 + h
	}
	return n
}

func enc(r int) string {
	switch {
	case r <= 0x7f:
		return string([]byte{byte(r)})
	case r <= 0x7ff:
		return string([]byte{byte(0xC0 | r>>6), byte(0x80 | r&63)})
	case r <= 0xffff:
		return string([]byte{byte(0xE0 | r>>12), byte(0x80 | r>>6&63), byte(0x80 | r&63)})
	}
	return string([]byte{byte(0xF0 | r>>18), byte(0x80 | r>>12&63), byte(0x80 | r>>6&63), byte(0x80 | r&63)})
}

// refLit decodes the literal whose body starts at b[0]; n is the number of bytes up to and including the closing quote
func refLit(b []byte) (s string, n int, ok bool) {
	var sb strings.Builder
	i := 0
	for i < len(b) {
		c := b[i]
		switch {
		case c == '"':
			return sb.String(), i + 1, true
		case c == '\\':
			if i+1 >= len(b) {
				return "", 0, false
			}
			switch d := b[i+1]; d {
			case '"', '\'', '/', '\\':
				sb.WriteByte(d)
			case 'b':
				sb.WriteByte(8)
			case 'f':
				sb.WriteByte(12)
			case 'n':
				sb.WriteByte(10)
			case 'r':
				sb.WriteByte(13)
			case 't':
				sb.WriteByte(9)
			case 'u':
				h := hex4(b[i+2:])
				if h < 0 {
					return "", 0, false
				}
				if h < 0xD800 || h > 0xDFFF {
					sb.WriteString(enc(h))
					i += 4
					break
				}
				if h > 0xDBFF || i+7 >= len(b) || b[i+6] != '\\' || b[i+7] != 'u' {
					return "", 0, false
				}
				l := hex4(b[i+8:])
				if l < 0xDC00 || l > 0xDFFF {
					return "", 0, false
				}
				sb.WriteString(enc((h-0xD800)<<10 + (l - 0xDC00) + 0x10000))
				i += 10
			default:
				return "", 0, false
			}
			i += 2
		case c < 0x80:
			sb.WriteByte(c)
			i++
		default:
			w := 0
			switch {
			case c&0xE0 == 0xC0:
				w = 2
			case c&0xF0 == 0xE0:
				w = 3
			case c&0xF8 == 0xF0:
				w = 4
			}
			if w == 0 || i+w > len(b) {
				return "", 0, false
			}
			sb.Write(b[i : i+w])
			i += w
		}
	}
	return "", 0, false
}

func numChar(c byte) bool {
	return c >= '0' && c <= '9' || c == '+' || c == '-' || c == '.' || c == 'e' || c == 'E'
}

// refNum: the number token at the start of b
func refNum(b []byte) (text string, ok bool) {
	n := 0
	for n < len(b) && numChar(b[n]) {
		n++
	}
	t := string(b[:n])
	return t, numGrammar(t) && numInRange(t)
}

func numGrammar(t string) bool {
	i := 0
	dig := func() int {
		j := i
		for i < len(t) && t[i] >= '0' && t[i] <= '9' {
			i++
		}
		return i - j
	}
	if i < len(t) && t[i] == '-' {
		i++
	}
	if i < len(t) && t[i] == '0' {
		i++
	} else if dig() == 0 {
		return false
	}
	if i < len(t) && t[i] == '.' {
		i++
		if dig() == 0 {
			return false
		}
	}
	if i < len(t) && (t[i] == 'e' || t[i] == 'E') {
		i++
		if i < len(t) && (t[i] == '+' || t[i] == '-') {
			i++
		}
		if dig() == 0 {
			return false
		}
	}
	return i == len(t)
}

func isIntText(t string) bool { return !strings.ContainsAny(t, ".eE") }

func numInRange(t string) bool {
	if isIntText(t) {
		if t[0] == '-' {
			_, err := strconv.ParseInt(t, 10, 64)
			return err == nil
		}
		_, err := strconv.ParseUint(t, 10, 64)
		return err == nil
	}
	_, err := strconv.ParseFloat(t, 64)
	return err == nil
}

func (p *rp) skip() {
	for p.pos < len(p.b) && isBlank(p.b[p.pos]) {
		p.pos++
	}
}

// refParse: the JSON texts, plus: any number of commas (also none) between and around the elements of an array and the
// members of an object, raw control characters in strings, \', and \b as blank.
func refParse(b []byte) (*T, bool) {
	p := &rp{b: b}
	t, ok := p.value(0)
	if !ok {
		return nil, false
	}
	p.skip()
	return t, p.pos == len(b)
}

func (p *rp) value(d int) (*T, bool) {
	p.skip()
	if p.pos >= len(p.b) {
		return nil, false
	}
	switch c := p.b[p.pos]; {
	case c == '{':
		p.pos++
		t := tObj()
		for {
			p.skip()
			if p.pos >= len(p.b) {
				return nil, false
			}
			switch p.b[p.pos] {
			case '}':
				p.pos++
				return t, true
			case ',':
				p.pos++
			case '"':
				k, n, ok := refLit(p.b[p.pos+1:])
				if !ok {
					return nil, false
				}
				p.pos += n + 1
				p.skip()
				if p.pos >= len(p.b) || p.b[p.pos] != ':' {
					return nil, false
				}
				p.pos++
				v, ok := p.value(d + 1)
				if !ok {
					return nil, false
				}
				t.set(k, v)
			default:
				return nil, false
			}
		}
	case c == '[':
		p.pos++
		t := tArr()
		for {
			p.skip()
			if p.pos >= len(p.b) {
				return nil, false
			}
			switch p.b[p.pos] {
			case ']':
				p.pos++
				return t, true
			case ',':
				p.pos++
			default:
				v, ok := p.value(d + 1)
				if !ok {
					return nil, false
				}
				t.A = append(t.A, v)
			}
		}
	case c == '"':
		s, n, ok := refLit(p.b[p.pos+1:])
		if !ok {
			return nil, false
		}
		p.pos += n + 1
		return tStr(s), true
	case c == '-' || c >= '0' && c <= '9':
		t, ok := refNum(p.b[p.pos:])
		if !ok {
			return nil, false
		}
		p.pos += len(t)
		return tNum(t), true
	}
	for _, w := range []string{"true", "false", "null"} {
		if strings.HasPrefix(string(p.b[p.pos:min(len(p.b), p.pos+5)]), w) {
			p.pos += len(w)
			switch w {
			case "true":
				return tBool(true), true
			case "false":
				return tBool(false), true
			}
			return tNull(), true
		}
	}
	return nil, false
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// ---- generators

var runePool = []rune{0, 1, 7, 8, 9, 10, 11, 12, 13, 14, 31, 32, '"', '\'', '/', '\\', '<', '>', '&', '%', 'a', 'b', 'n', 'u', 'Z', '{', '}', '[', ']', ':', ',', 127, 128, 0x7ff, 0x800, 0x2028, 0x2029, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff, 'é', '中', 'K', 'ſ', 'İ'}

func genStr(r *rand.Rand) string {
	switch r.Intn(8) {
	case 0:
		return ""
	case 1:
		return string(rune('a' + r.Intn(4)))
	case 2:
		n := 1 + r.Intn(3)
		s := ""
		for i := 0; i < n; i++ {
			s += string(rune("abAB"[r.Intn(4)]))
		}
		return s
	}
	n := r.Intn(7)
	if r.Intn(30) == 0 {
		n = 30 + r.Intn(60)
	}
	var sb strings.Builder
	for i := 0; i < n; i++ {
		if r.Intn(4) == 0 {
			x := rune(r.Intn(0x110000))
			if x >= 0xd800 && x < 0xe000 {
				x = 'x'
			}
			sb.WriteRune(x)
		} else {
			sb.WriteRune(runePool[r.Intn(len(runePool))])
		}
	}
	return sb.String()
}

var edgeNums = []string{"0", "-0", "1", "-1", "9", "10", "-10", "100", "127", "128", "255", "256", "65535", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296",
	"9223372036854775806", "9223372036854775807", "9223372036854775808", "-9223372036854775807", "-9223372036854775808", "18446744073709551614", "18446744073709551615", "1844674407370955161", "9999999999999999999", "10000000000000000000", "9007199254740993",
	"0.0", "-0.0", "0.1", "-0.5", "1.5", "1e2", "1E+2", "1e-2", "-1.25e3", "100.00", "1e308", "1.7976931348623157e308", "5e-324", "1e-400", "123456789.123456789", "0e0", "0e10", "1.0", "12e0", "18446744073709551615.0", "1e20"}
var badNums = []string{"-9223372036854775809", "18446744073709551616", "18446744073709551617", "28446744073709551615", "36893488147419103232", "99999999999999999999", "100000000000000000000", "184467440737095516150", "-99999999999999999999", "-10000000000000000000", "-9999999999999999999", "-100000000000000000000", "-18446744073709551616", "-18446744073709551617", "1e309", "-1e400", "-", "+1", ".5", "-.5", "1.", "1.e3", "1e", "1e+", "1e-", "00", "01", "-00", "-01", "01.5", "00.5", "1.2.3", "1e2e3", "1e2.5", "--1", "1-2", "1+2", "1e+-2", "0x10", "1_0", "-e1", "e1", "1.5e", "1.5.e1", "0e", "-0e", "0.e1", "1ee2", "0-", "1-", "1e1-", "1e1+", "1.-5", "1.+5", "-+1", "1.5-", "1.5-3"}

func digits(r *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('0' + r.Intn(10))
	}
	return string(b)
}

func genNum(r *rand.Rand) string {
	for {
		t := genNumText(r)
		if numGrammar(t) && numInRange(t) {
			return t
		}
	}
}

// genNumText: mostly well-formed numbers, and texts close to one
func genNumText(r *rand.Rand) string {
	switch r.Intn(8) {
	case 0:
		return edgeNums[r.Intn(len(edgeNums))]
	case 1:
		return badNums[r.Intn(len(badNums))]
	case 2:
		t := []byte(edgeNums[r.Intn(len(edgeNums))])
		cs := "0123456789+-.eE01"
		for k := 1 + r.Intn(2); k > 0; k-- {
			i := r.Intn(len(t) + 1)
			switch r.Intn(3) {
			case 0:
				t = append(t[:i:i], append([]byte{cs[r.Intn(len(cs))]}, t[i:]...)...)
			case 1:
				if i < len(t) {
					t[i] = cs[r.Intn(len(cs))]
				}
			case 2:
				if i < len(t) && len(t) > 1 {
					t = append(t[:i:i], t[i+1:]...)
				}
			}
		}
		if len(t) == 0 || !(t[0] == '-' || t[0] >= '0' && t[0] <= '9') {
			return "0"
		}
		return string(t)
	case 3:
		n := 1 + r.Intn(24)
		cs := "0123456789+-.eE"
		b := make([]byte, n)
		b[0] = "-0123456789"[r.Intn(11)]
		for i := 1; i < n; i++ {
			if r.Intn(3) > 0 {
				b[i] = byte('0' + r.Intn(10))
			} else {
				b[i] = cs[r.Intn(len(cs))]
			}
		}
		return string(b)
	}
	s := ""
	if r.Intn(3) == 0 {
		s = "-"
	}
	switch r.Intn(4) {
	case 0:
		s += "0"
	case 1:
		s += string(rune('1'+r.Intn(9))) + digits(r, r.Intn(4))
	case 2:
		s += string(rune('1'+r.Intn(9))) + digits(r, 15+r.Intn(7))
	case 3:
		s += string(rune('1'+r.Intn(2))) + digits(r, 17+r.Intn(3))
	}
	if r.Intn(3) == 0 {
		s += "." + digits(r, 1+r.Intn(6))
	}
	if r.Intn(4) == 0 {
		s += string("eE"[r.Intn(2)]) + []string{"", "+", "-"}[r.Intn(3)] + digits(r, 1+r.Intn(3))
	}
	return s
}

func genT(r *rand.Rand, depth int) *T {
	n := 8
	if depth <= 0 {
		n = 5
	}
	switch r.Intn(n) {
	case 0:
		return tStr(genStr(r))
	case 1, 2:
		return tNum(genNum(r))
	case 3:
		return tBool(r.Intn(2) == 0)
	case 4:
		return tNull()
	case 5:
		t := tArr()
		m := r.Intn(5)
		if r.Intn(40) == 0 {
			m = 30 + r.Intn(10)
		}
		for i := 0; i < m; i++ {
			t.A = append(t.A, genT(r, depth-1))
		}
		return t
	}
	t := tObj()
	m := r.Intn(5)
	if r.Intn(40) == 0 {
		m = 10 + r.Intn(20)
	}
	for i := 0; i < m; i++ {
		t.set(genStr(r), genT(r, depth-1))
	}
	return t
}

func genContainer(r *rand.Rand, depth int) *T {
	for {
		if t := genT(r, depth); t.K == kArr || t.K == kObj {
			return t
		}
	}
}

// ---- writing

func blanks(r *rand.Rand) string {
	if r == nil || r.Intn(3) > 0 {
		return ""
	}
	s := ""
	for k := r.Intn(3); k >= 0; k-- {
		s += string(" \t\r\n"[r.Intn(4)])
	}
	return s
}

func writeLit(r *rand.Rand, s string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for _, c := range s {
		m := 0
		if r != nil {
			m = r.Intn(4)
		}
		short := map[rune]string{'"': `\"`, '\\': `\\`, '/': `\/`, 8: `\b`, 12: `\f`, 10: `\n`, 13: `\r`, 9: `\t`}
		if e, ok := short[c]; ok && m < 3 && (m > 0 || c < 32 || c == '"' || c == '\\') {
			sb.WriteString(e)
			continue
		}
		if c < 32 || c == '"' || c == '\\' || m == 3 {
			f := `\u%04x`
			if r != nil && r.Intn(2) == 0 {
				f = `\u%04X`
			}
			if c > 0xffff {
				c -= 0x10000
				fmt.Fprintf(&sb, f+f, 0xd800+c>>10, 0xdc00+c&0x3ff)
			} else {
				fmt.Fprintf(&sb, f, c)
			}
			continue
		}
		sb.WriteRune(c)
	}
	sb.WriteByte('"')
	return sb.String()
}

// write gives an RFC 8259 text of t (with duplicate keys now and then: the last one counts)
func (t *T) write(r *rand.Rand) string {
	b1, b2 := blanks(r), blanks(r)
	s := ""
	switch t.K {
	case kStr:
		s = writeLit(r, t.S)
	case kNum:
		s = t.S
	case kBool:
		s = fmt.Sprint(t.B)
	case kNull:
		s = "null"
	case kArr:
		s = "["
		for i, a := range t.A {
			if i > 0 {
				s += ","
			}
			s += a.write(r)
		}
		s += blanks(r) + "]"
	case kObj:
		s = "{"
		for i, m := range t.M {
			if i > 0 {
				s += ","
			}
			if r != nil && r.Intn(12) == 0 {
				s += writeLit(r, m.K) + ":" + genT(r, 1).write(r) + ","
			}
			s += blanks(r) + writeLit(r, m.K) + blanks(r) + ":" + m.V.write(r)
		}
		s += blanks(r) + "}"
	}
	return b1 + s + b2
}

// build makes the library's value with its constructors and setters
func (t *T) build() *jv.V {
	switch t.K {
	case kStr:
		return jv.NewString(t.S)
	case kNum:
		return jv.MustUnmarshalString(t.S)
	case kBool:
		return jv.NewBool(t.B)
	case kNull:
		return jv.NewNull()
	case kArr:
		v := jv.NewArray()
		for _, a := range t.A {
			v.MustAppend(a.build()).InTheEnd()
		}
		return v
	case kObj:
		v := jv.NewObject()
		for _, m := range t.M {
			v.MustSet(m.V.build()).At(m.K)
		}
		return v
	}
	return &jv.V{}
}
