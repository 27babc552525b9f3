package main

// Hash-consed first-order terms over the SMT-LIB sorts used by the generator.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Sort string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SStr  Sort = "Str"
	SF64  Sort = "F64"
)

func SArr(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

// arrElem returns the value sort of an array sort.
func arrElem(s Sort) Sort {
	str := string(s)
	str = strings.TrimPrefix(str, "(Array ")
	str = str[:len(str)-1]
	// skip the key sort
	d := 0
	for i, c := range str {
		if c == '(' {
			d++
		}
		if c == ')' {
			d--
		}
		if c == ' ' && d == 0 {
			return Sort(str[i+1:])
		}
	}
	panic("not an array sort " + string(s))
}

type Term struct {
	id   int
	op   string // operator or symbol or literal
	args []*Term
	sort Sort
	// quantifier
	bound    []*Term // bound variables
	trigs    [][]*Term
	hasBound bool // contains free bound variable
	key      string
	size     int
}

var termTab = map[string]*Term{}
var termList []*Term

func mk(op string, s Sort, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(string(s))
	for _, a := range args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	k := sb.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	t := &Term{id: len(termList), op: op, args: args, sort: s, key: k, size: 1}
	for _, a := range args {
		if a.hasBound {
			t.hasBound = true
		}
		t.size += a.size
		if t.size > 1<<30 {
			t.size = 1 << 30
		}
	}
	termTab[k] = t
	termList = append(termList, t)
	return t
}

// declared constants / functions
type decl struct {
	name string
	args []Sort
	ret  Sort
}

var declTab = map[string]*decl{}
var declOrder []*decl

func declare(name string, ret Sort, args ...Sort) {
	if d, ok := declTab[name]; ok {
		if d.ret != ret || len(d.args) != len(args) {
			panic("redeclared " + name)
		}
		return
	}
	d := &decl{name, args, ret}
	declTab[name] = d
	declOrder = append(declOrder, d)
}

var freshCnt = map[string]int{}

func smtName(s string) string {
	ok := true
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("_.$!@%^&*-+=<>?/~", c)) {
			ok = false
		}
	}
	if ok && len(s) > 0 && !(s[0] >= '0' && s[0] <= '9') {
		return s
	}
	return "|" + strings.ReplaceAll(s, "|", "_") + "|"
}

func freshConst(hint string, s Sort) *Term {
	if s != SInt {
		hint += "%" + strings.NewReplacer("(", "", ")", "", " ", "", "Array", "A").Replace(string(s))
	}
	freshCnt[hint]++
	n := smtName(fmt.Sprintf("%s!%d", hint, freshCnt[hint]))
	declare(n, s)
	return mk(n, s)
}

func constant(name string, s Sort) *Term {
	n := smtName(name)
	declare(n, s)
	return mk(n, s)
}

func app(name string, ret Sort, args ...*Term) *Term {
	ss := make([]Sort, len(args))
	for i, a := range args {
		ss[i] = a.sort
	}
	n := smtName(name)
	declare(n, ret, ss...)
	return mk(n, ret, args...)
}

func boundVar(name string, s Sort) *Term {
	freshCnt["bv"]++
	name = strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			return r
		}
		return '_'
	}, name)
	t := mk(fmt.Sprintf("%s?%d", name, freshCnt["bv"]), s)
	t.hasBound = true
	return t
}

var tTrue = mk("true", SBool)
var tFalse = mk("false", SBool)

func tBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func tInt(n int64) *Term { return tBig(big.NewInt(n)) }
func tBig(n *big.Int) *Term {
	return mk(n.String(), SInt)
}
func pow2(k uint) *Term { return tBig(new(big.Int).Lsh(big.NewInt(1), k)) }

func (t *Term) lit() (*big.Int, bool) {
	if t.sort != SInt || len(t.args) != 0 {
		return nil, false
	}
	c := t.op[0]
	if c == '-' || c >= '0' && c <= '9' {
		n, ok := new(big.Int).SetString(t.op, 10)
		return n, ok
	}
	return nil, false
}

func tNot(a *Term) *Term {
	switch {
	case a == tTrue:
		return tFalse
	case a == tFalse:
		return tTrue
	case a.op == "not":
		return a.args[0]
	}
	return mk("not", SBool, a)
}

func tAnd(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == tTrue || seen[a] {
			return true
		}
		if a == tFalse {
			return false
		}
		if a.op == "and" {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[tNot(a)] {
			return false
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return tFalse
		}
	}
	if len(out) == 0 {
		return tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("and", SBool, out...)
}

func tOr(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		if a == tFalse || seen[a] {
			continue
		}
		if a == tTrue || seen[tNot(a)] {
			return tTrue
		}
		if a.op == "or" {
			for _, x := range a.args {
				if seen[tNot(x)] {
					return tTrue
				}
				if !seen[x] {
					seen[x] = true
					out = append(out, x)
				}
			}
			continue
		}
		seen[a] = true
		out = append(out, a)
	}
	if len(out) == 0 {
		return tFalse
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("or", SBool, out...)
}

func tImp(a, b *Term) *Term {
	if a == tTrue {
		return b
	}
	if a == tFalse || b == tTrue || a == b {
		return tTrue
	}
	if b == tFalse {
		return tNot(a)
	}
	return mk("=>", SBool, a, b)
}

func tIte(c, a, b *Term) *Term {
	if c == tTrue || a == b {
		return a
	}
	if c == tFalse {
		return b
	}
	if a.sort == SBool {
		if a == tTrue && b == tFalse {
			return c
		}
		if a == tFalse && b == tTrue {
			return tNot(c)
		}
		if a == tTrue {
			return tOr(c, b)
		}
		if a == tFalse {
			return tAnd(tNot(c), b)
		}
		if b == tFalse {
			return tAnd(c, a)
		}
		if b == tTrue {
			return tOr(tNot(c), a)
		}
	}
	if c.op == "not" {
		return tIte(c.args[0], b, a)
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sorts %s %s", a.sort, b.sort))
	}
	return mk("ite", a.sort, c, a, b)
}

func tEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sorts %s:%s  %s:%s", a.String(), a.sort, b.String(), b.sort))
	}
	if x, ok := a.lit(); ok {
		if y, ok := b.lit(); ok {
			return tBool(x.Cmp(y) == 0)
		}
	}
	if a.sort == SBool {
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return tNot(b)
		}
		if b == tFalse {
			return tNot(a)
		}
	}
	// ite with literal branches against a literal
	if _, ok := b.lit(); !ok {
		if _, ok := a.lit(); ok {
			a, b = b, a
		}
	}
	if y, ok := b.lit(); ok && a.op == "ite" {
		x1, ok1 := a.args[1].lit()
		x2, ok2 := a.args[2].lit()
		if ok1 && ok2 {
			e1, e2 := x1.Cmp(y) == 0, x2.Cmp(y) == 0
			switch {
			case e1 && e2:
				return tTrue
			case e1:
				return a.args[0]
			case e2:
				return tNot(a.args[0])
			default:
				return tFalse
			}
		}
	}
	if isStrLit(a) && isStrLit(b) {
		return tFalse // distinct interned literals
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", SBool, a, b)
}

func tNe(a, b *Term) *Term { return tNot(tEq(a, b)) }

func cmpLit(op string, a, b *Term) (*Term, bool) {
	x, ok := a.lit()
	if !ok {
		return nil, false
	}
	y, ok := b.lit()
	if !ok {
		return nil, false
	}
	c := x.Cmp(y)
	switch op {
	case "<":
		return tBool(c < 0), true
	case "<=":
		return tBool(c <= 0), true
	}
	return nil, false
}

func tLt(a, b *Term) *Term {
	if r, ok := cmpLit("<", a, b); ok {
		return r
	}
	if a == b {
		return tFalse
	}
	return mk("<", SBool, a, b)
}
func tLe(a, b *Term) *Term {
	if r, ok := cmpLit("<=", a, b); ok {
		return r
	}
	if a == b {
		return tTrue
	}
	return mk("<=", SBool, a, b)
}
func tGt(a, b *Term) *Term { return tLt(b, a) }
func tGe(a, b *Term) *Term { return tLe(b, a) }

func tAdd(a, b *Term) *Term {
	x, okx := a.lit()
	y, oky := b.lit()
	if okx && oky {
		return tBig(new(big.Int).Add(x, y))
	}
	if okx && x.Sign() == 0 {
		return b
	}
	if oky && y.Sign() == 0 {
		return a
	}
	if okx {
		a, b = b, a
		y, oky = x, true
	}
	// (x + c1) + c2
	if oky && a.op == "+" && len(a.args) == 2 {
		if z, ok := a.args[1].lit(); ok {
			return tAdd(a.args[0], tBig(new(big.Int).Add(y, z)))
		}
	}
	// (a + c) + b  -> (a+b)+c
	if a.op == "+" && len(a.args) == 2 && !oky {
		if _, ok := a.args[1].lit(); ok {
			return tAdd(tAdd(a.args[0], b), a.args[1])
		}
	}
	if b.op == "+" && len(b.args) == 2 {
		if _, ok := b.args[1].lit(); ok {
			return tAdd(tAdd(a, b.args[0]), b.args[1])
		}
	}
	return mk("+", SInt, a, b)
}
func tSub(a, b *Term) *Term {
	if a == b {
		return tInt(0)
	}
	if y, ok := b.lit(); ok {
		return tAdd(a, tBig(new(big.Int).Neg(y)))
	}
	// (x+y)-x
	if a.op == "+" && len(a.args) == 2 {
		if a.args[0] == b {
			return a.args[1]
		}
		if a.args[1] == b {
			return a.args[0]
		}
		// ((x+b)+c)-b
		if _, ok := a.args[1].lit(); ok {
			in := a.args[0]
			if in.op == "+" && len(in.args) == 2 {
				if in.args[0] == b {
					return tAdd(in.args[1], a.args[1])
				}
				if in.args[1] == b {
					return tAdd(in.args[0], a.args[1])
				}
			}
		}
	}
	return mk("-", SInt, a, b)
}
func tMul(a, b *Term) *Term {
	x, okx := a.lit()
	y, oky := b.lit()
	if okx && oky {
		return tBig(new(big.Int).Mul(x, y))
	}
	if okx {
		a, b = b, a
		y, oky = x, okx
	}
	if oky && y.Sign() == 0 {
		return tInt(0)
	}
	if oky && y.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	return mk("*", SInt, a, b)
}
func tNeg(a *Term) *Term { return tSub(tInt(0), a) }

// Euclidean div/mod (SMT-LIB semantics), only used with positive literal divisors or spec code
func tDiv(a, b *Term) *Term {
	x, okx := a.lit()
	y, oky := b.lit()
	if okx && oky && y.Sign() > 0 {
		q := new(big.Int)
		q.Div(x, y)
		return tBig(q)
	}
	return mk("div", SInt, a, b)
}
func tMod(a, b *Term) *Term {
	x, okx := a.lit()
	y, oky := b.lit()
	if okx && oky && y.Sign() > 0 {
		q := new(big.Int)
		q.Mod(x, y)
		return tBig(q)
	}
	return mk("mod", SInt, a, b)
}

func tSel(a, i *Term) *Term {
	// select over store
	x := a
	for {
		if x.op == "store" {
			if x.args[1] == i {
				return x.args[2]
			}
			l1, ok1 := x.args[1].lit()
			l2, ok2 := i.lit()
			if ok1 && ok2 && l1.Cmp(l2) != 0 {
				x = x.args[0]
				continue
			}
			if distinctOffset(x.args[1], i) {
				x = x.args[0]
				continue
			}
		}
		break
	}
	return mk("select", arrElem(a.sort), x, i)
}

// distinctOffset: x+c1 vs x+c2 with c1 != c2
func distinctOffset(a, b *Term) bool {
	sp := func(t *Term) (*Term, *big.Int) {
		if t.op == "+" && len(t.args) == 2 {
			if l, ok := t.args[1].lit(); ok {
				return t.args[0], l
			}
		}
		return t, big.NewInt(0)
	}
	x, c := sp(a)
	y, d := sp(b)
	return x == y && c.Cmp(d) != 0
}

func tStore(a, i, v *Term) *Term {
	if arrElem(a.sort) != v.sort {
		panic(fmt.Sprintf("store sort %s <- %s (%s)", a.sort, v.sort, v))
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	if a.op == "store" && a.args[1] == i {
		return tStore(a.args[0], i, v)
	}
	return mk("store", a.sort, a, i, v)
}

func tForall(bv []*Term, trigs [][]*Term, body *Term) *Term {
	return tQuant("forall", bv, trigs, body)
}
func tExists(bv []*Term, body *Term) *Term { return tQuant("exists", bv, nil, body) }

func tQuant(q string, bv []*Term, trigs [][]*Term, body *Term) *Term {
	if body == tTrue || body == tFalse {
		return body
	}
	if len(bv) == 0 {
		return body
	}
	// canonicalise bound variable names so that equal formulas are shared
	var sb strings.Builder
	sb.WriteString(q)
	for _, b := range bv {
		fmt.Fprintf(&sb, " %d", b.id)
	}
	sb.WriteString("|")
	for _, tr := range trigs {
		for _, t := range tr {
			fmt.Fprintf(&sb, " %d", t.id)
		}
		sb.WriteString(";")
	}
	fmt.Fprintf(&sb, "|%d", body.id)
	k := sb.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	t := &Term{id: len(termList), op: q, args: []*Term{body}, sort: SBool, bound: bv, trigs: trigs, key: k, size: body.size + 5}
	// free bound vars?
	t.hasBound = hasFree(t, map[*Term]bool{})
	termTab[k] = t
	termList = append(termList, t)
	return t
}

func hasFree(t *Term, bound map[*Term]bool) bool {
	if !t.hasBound && t.op != "forall" && t.op != "exists" {
		return false
	}
	if len(t.args) == 0 {
		return t.hasBound && !bound[t]
	}
	if t.op == "forall" || t.op == "exists" {
		b2 := map[*Term]bool{}
		for k := range bound {
			b2[k] = true
		}
		for _, b := range t.bound {
			b2[b] = true
		}
		if hasFree(t.args[0], b2) {
			return true
		}
		return false
	}
	for _, a := range t.args {
		if hasFree(a, bound) {
			return true
		}
	}
	return false
}

// subst replaces terms (by identity) in t.
func subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		if t.op == "forall" || t.op == "exists" {
			body := rec(t.args[0])
			var trigs [][]*Term
			for _, tr := range t.trigs {
				var n []*Term
				for _, x := range tr {
					n = append(n, rec(x))
				}
				trigs = append(trigs, n)
			}
			r = tQuant(t.op, t.bound, trigs, body)
		} else {
			ch := false
			args := make([]*Term, len(t.args))
			for i, a := range t.args {
				args[i] = rec(a)
				if args[i] != a {
					ch = true
				}
			}
			if !ch {
				r = t
			} else {
				r = rebuild(t, args)
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case "and":
		return tAnd(args...)
	case "or":
		return tOr(args...)
	case "not":
		return tNot(args[0])
	case "=>":
		return tImp(args[0], args[1])
	case "ite":
		return tIte(args[0], args[1], args[2])
	case "=":
		return tEq(args[0], args[1])
	case "select":
		return tSel(args[0], args[1])
	case "store":
		return tStore(args[0], args[1], args[2])
	case "+":
		return tAdd(args[0], args[1])
	case "-":
		return tSub(args[0], args[1])
	case "*":
		return tMul(args[0], args[1])
	case "<":
		return tLt(args[0], args[1])
	case "<=":
		return tLe(args[0], args[1])
	}
	return mk(t.op, t.sort, args...)
}

func (t *Term) String() string {
	var sb strings.Builder
	t.write(&sb, nil)
	return sb.String()
}

func (t *Term) write(sb *strings.Builder, named map[*Term]string) {
	if named != nil {
		if n, ok := named[t]; ok {
			sb.WriteString(n)
			return
		}
	}
	if len(t.args) == 0 {
		if n, ok := t.lit(); ok && n.Sign() < 0 {
			fmt.Fprintf(sb, "(- %s)", new(big.Int).Neg(n).String())
			return
		}
		sb.WriteString(t.op)
		return
	}
	if t.op == "forall" || t.op == "exists" {
		sb.WriteString("(" + t.op + " (")
		for _, b := range t.bound {
			fmt.Fprintf(sb, "(%s %s)", b.op, b.sort)
		}
		sb.WriteString(") ")
		if len(t.trigs) > 0 {
			sb.WriteString("(! ")
		}
		t.args[0].write(sb, named)
		if len(t.trigs) > 0 {
			for _, tr := range t.trigs {
				sb.WriteString(" :pattern (")
				for i, x := range tr {
					if i > 0 {
						sb.WriteByte(' ')
					}
					x.write(sb, named)
				}
				sb.WriteString(")")
			}
			sb.WriteString(")")
		}
		sb.WriteString(")")
		return
	}
	sb.WriteByte('(')
	sb.WriteString(t.op)
	for _, a := range t.args {
		sb.WriteByte(' ')
		a.write(sb, named)
	}
	sb.WriteByte(')')
}

// string literals
var strLits = map[string]*Term{}
var strLitOf = map[*Term]string{}
var strLitOrder []string

func tStrLit(s string) *Term {
	if t, ok := strLits[s]; ok {
		return t
	}
	t := constant(fmt.Sprintf("strlit!%d", len(strLits)), SStr)
	strLits[s] = t
	strLitOf[t] = s
	strLitOrder = append(strLitOrder, s)
	return t
}

func isStrLit(t *Term) bool { _, ok := strLitOf[t]; return ok }

// collect symbols
func symbols(t *Term, seen map[*Term]bool, out map[string]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if _, ok := declTab[t.op]; ok {
		out[t.op] = true
	}
	for _, a := range t.args {
		symbols(a, seen, out)
	}
	for _, tr := range t.trigs {
		for _, x := range tr {
			symbols(x, seen, out)
		}
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
