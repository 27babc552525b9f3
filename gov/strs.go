package main

// Background theory: strings, byte rows, floats, cardinalities, runes.

func strLen(s *Term) *Term {
	if l, ok := strLitOf[s]; ok {
		return tInt(int64(len(l)))
	}
	return app("slen", SInt, s)
}
func strAt(s, i *Term) *Term {
	if l, ok := strLitOf[s]; ok {
		if n, ok := i.lit(); ok && n.IsInt64() && n.Int64() >= 0 && n.Int64() < int64(len(l)) {
			return tInt(int64(l[n.Int64()]))
		}
	}
	return app("sat", SInt, s, i)
}

var rowSort = SArr(SInt, SInt)
var domSort = SArr(SStr, SBool)

func bts(row, off, n *Term) *Term { return app("bts", SStr, row, off, n) }
func card(d *Term) *Term          { return app("card", SInt, d) }

func strDiffFact(a, b *Term) *Term {
	d := app("sdiff", SInt, a, b)
	return tOr(tEq(a, b), tNe(strLen(a), strLen(b)),
		tAnd(tLe(tInt(0), d), tLt(d, strLen(a)), tNe(strAt(a, d), strAt(b, d))))
}

func initTheory() {
	s := boundVar("s", SStr)
	u := boundVar("u", SStr)
	i := boundVar("i", SInt)
	j := boundVar("j", SInt)
	n := boundVar("n", SInt)
	o := boundVar("o", SInt)
	r := boundVar("r", rowSort)
	d := boundVar("d", domSort)
	k := boundVar("k", SStr)
	x := boundVar("x", SInt)
	f := boundVar("f", SF64)
	slen := func(s *Term) *Term { return app("slen", SInt, s) }
	sat := func(s, i *Term) *Term { return app("sat", SInt, s, i) }
	p := func(ts ...*Term) [][]*Term { return [][]*Term{ts} }
	addAxiom("slen-range", tForall([]*Term{s}, p(slen(s)), tAnd(tLe(tInt(0), slen(s)), tLe(slen(s), tBig(MaxLen)))))
	addAxiom("sat-range", tForall([]*Term{s, i}, p(sat(s, i)), tAnd(tLe(tInt(0), sat(s, i)), tLe(sat(s, i), tInt(255)))))
	addAxiom("slen-empty", tForall([]*Term{s}, p(slen(s)), tImp(tEq(slen(s), tInt(0)), tEq(s, tStrLit("")))))
	addAxiom("bts-len", tForall([]*Term{r, o, n}, p(bts(r, o, n)), tImp(tLe(tInt(0), n), tEq(slen(bts(r, o, n)), n))))
	addAxiom("bts-at", tForall([]*Term{r, o, n, i}, p(sat(bts(r, o, n), i)),
		tImp(tAnd(tLe(tInt(0), i), tLt(i, n)), tEq(sat(bts(r, o, n), i), tSel(r, tAdd(o, i))))))
	srow := app("srow", rowSort, s)
	addAxiom("srow-at", tForall([]*Term{s, i}, p(tSel(srow, i)), tImp(tAnd(tLe(tInt(0), i), tLt(i, slen(s))), tEq(tSel(srow, i), sat(s, i)))))
	addAxiom("srow-bts", tForall([]*Term{s}, p(srow), tEq(bts(srow, tInt(0), slen(s)), s)))
	rw, re := app("runew", SInt, s, i), app("runeat", SInt, s, i)
	addAxiom("rune-range", tForall([]*Term{s, i}, append(p(rw), p(re)...), tImp(tAnd(tLe(tInt(0), i), tLt(i, slen(s))),
		tAnd(tLe(tInt(1), rw), tLe(rw, tInt(4)), tLe(tAdd(i, rw), slen(s)), tLe(tInt(0), re), tLe(re, tInt(0x10FFFF)), tOr(tLt(re, tInt(0xD800)), tLt(tInt(0xDFFF), re))))))
	tl, th := app("trim_lo", SInt, s), app("trim_hi", SInt, s)
	addAxiom("trim-range", tForall([]*Term{s}, append(p(tl), p(th)...), tAnd(tLe(tInt(0), tl), tLe(tl, th), tLe(th, slen(s)))))
	sc := app("scat", SStr, s, u)
	addAxiom("scat-len", tForall([]*Term{s, u}, p(sc), tEq(slen(sc), tAdd(slen(s), slen(u)))))
	addAxiom("scat-at", tForall([]*Term{s, u, i}, p(sat(sc, i)),
		tEq(sat(sc, i), tIte(tLt(i, slen(s)), sat(s, i), sat(u, tSub(i, slen(s)))))))
	ss := app("ssub", SStr, s, i, j)
	addAxiom("ssub-len", tForall([]*Term{s, i, j}, p(ss), tImp(tAnd(tLe(tInt(0), i), tLe(i, j), tLe(j, slen(s))), tEq(slen(ss), tSub(j, i)))))
	addAxiom("ssub-at", tForall([]*Term{s, i, j, n}, p(sat(ss, n)),
		tImp(tAnd(tLe(tInt(0), n), tLt(n, tSub(j, i))), tEq(sat(ss, n), sat(s, tAdd(i, n))))))
	addAxiom("sbox", tForall([]*Term{s}, p(app("sbox", SInt, s)), tEq(app("sunbox", SStr, app("sbox", SInt, s)), s)))
	addAxiom("fbox", tForall([]*Term{f}, p(app("fbox", SInt, f)), tEq(app("funbox", SF64, app("fbox", SInt, f)), f)))
	// cardinality of key sets
	addAxiom("card-nn", tForall([]*Term{d}, p(card(d)), tAnd(tLe(tInt(0), card(d)), tLe(card(d), tBig(MaxLen)))))
	addAxiom("card-mem", tForall([]*Term{d, k}, p(card(d), tSel(d, k)), tImp(tSel(d, k), tLe(tInt(1), card(d)))))
	empty := zeroSort(domSort)
	addAxiom("card-empty", tForall([]*Term{d}, p(card(d)), tImp(tEq(card(d), tInt(0)), tEq(d, empty))))
	addAxiom("card-empty2", tForall([]*Term{d}, p(card(d)), tImp(tEq(d, empty), tEq(card(d), tInt(0)))))
	_ = x
	// string ordering: a strict total order
	lt := func(a, b *Term) *Term { return app("slt", SBool, a, b) }
	w := boundVar("w", SStr)
	addAxiom("slt-irrefl", tForall([]*Term{s, u}, p(lt(s, u)), tImp(lt(s, u), tAnd(tNot(lt(u, s)), tNe(s, u)))))
	addAxiom("slt-total", tForall([]*Term{s, u}, p(lt(s, u)), tOr(lt(s, u), lt(u, s), tEq(s, u))))
	addAxiom("slt-trans", tForall([]*Term{s, u, w}, p(lt(s, u), lt(u, w)), tImp(tAnd(lt(s, u), lt(u, w)), lt(s, w))))
	for _, e := range []Sort{SStr, SF64} {
		z := zeroSort(SArr(SInt, e))
		addAxiom("zeros", tForall([]*Term{i}, p(tSel(z, i)), tEq(tSel(z, i), zeroSort(e))))
	}
	// float64 <-> int (uninterpreted conversions)
	addAxiom("i2f-zero", tEq(app("f64_of_int", SF64, tInt(0)), constant1("f64_zero")))
	addAxiom("f2i-range", tForall([]*Term{f}, p(app("f64_to_i64", SInt, f)),
		tAnd(tLe(tNeg(pow2(63)), app("f64_to_i64", SInt, f)), tLt(app("f64_to_i64", SInt, f), pow2(63)))))
	addAxiom("f2u-range", tForall([]*Term{f}, p(app("f64_to_u64", SInt, f)),
		tAnd(tLe(tInt(0), app("f64_to_u64", SInt, f)), tLt(app("f64_to_u64", SInt, f), pow2(64)))))
}
