package main

// C09 array positions, C10 objects, C11 failing mutations, C20 sorting, C17 iteration

import (
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	jv "github.com/Andrew-M-C/go.jsonvalue"
)

func ids(v *jv.V) []*jv.V {
	if !v.IsArray() {
		return nil
	}
	return v.ForRangeArr()
}

type myInt int
type myU8 uint8
type myStr string

// anyInt gives p as one of the integer types that can hold it
func anyInt(r *rand.Rand, p int) interface{} {
	for {
		switch r.Intn(12) {
		case 0, 1, 2:
			return p
		case 3:
			if int(int8(p)) == p {
				return int8(p)
			}
		case 4:
			if int(int16(p)) == p {
				return int16(p)
			}
		case 5:
			if int(int32(p)) == p {
				return int32(p)
			}
		case 6:
			return int64(p)
		case 7:
			if p >= 0 {
				return uint(p)
			}
		case 8:
			if p >= 0 && p < 256 {
				return uint8(p)
			}
		case 9:
			if p >= 0 {
				return uint64(p)
			}
		case 10:
			return myInt(p)
		case 11:
			if p >= 0 && p < 256 {
				return myU8(p)
			}
		}
	}
}

func hugeIndex(r *rand.Rand) interface{} {
	return []interface{}{uint64(1<<63 + uint64(r.Intn(3))), ^uint64(0), ^uint64(0) - uint64(r.Intn(3)), int64(-1 << 63), int64(1<<63 - 1), ^uint(0)}[r.Intn(6)]
}

func same(a, b []*jv.V) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// c09op: one operation on arr (which is v itself or v at path), compared with the expected element list
func c09op(c *Ctx, r *rand.Rand, root *jv.V, path []interface{}, op int, idx interface{}, p int, huge bool) {
	arr := root
	if len(path) > 0 {
		arr = root.MustGet(path[0], path[1:]...)
	}
	before := ids(arr)
	n := len(before)
	full := append(append([]interface{}{}, path...), idx)
	at := func(first interface{}, rest ...interface{}) (interface{}, []interface{}) { return first, rest }
	var f interface{}
	var rest []interface{}
	if r.Intn(4) == 0 {
		f, rest = full, nil // given as one slice
	} else {
		f, rest = at(full[0], full[1:]...)
	}
	el := jv.NewInt(r.Intn(1000))
	valid := !huge && p >= -n && p < n
	e := p
	if e < 0 {
		e += n
	}
	name := ""
	want := before
	wantOK := valid
	var err error
	var ret *jv.V
	ins := func(i int) []*jv.V {
		return append(append(append([]*jv.V{}, before[:i]...), el), before[i:]...)
	}
	desc := func() string {
		return fmt.Sprintf("%s at path %v, index %T(%v), array of %d elements", name, path, idx, idx, n)
	}
	c.try(desc, func() {
		switch op {
		case 0:
			name = "Get"
			ret, err = root.Get(f, rest...)
			if valid && ret != before[e] {
				c.fail("%s: not element %d", desc(), e)
			}
		case 1:
			name = "Set"
			ret, err = root.Set(el).At(f, rest...)
			if valid {
				want = append([]*jv.V{}, before...)
				want[e] = el
			} else if !huge && p == n {
				wantOK = true
				want = ins(n)
			}
		case 2:
			name = "Delete"
			err = root.Delete(f, rest...)
			if valid {
				want = append(append([]*jv.V{}, before[:e]...), before[e+1:]...)
			}
		case 3:
			name = "Insert Before"
			ret, err = root.Insert(el).Before(f, rest...)
			if valid {
				want = ins(e)
			}
		case 4:
			name = "Insert After"
			ret, err = root.Insert(el).After(f, rest...)
			if valid {
				want = ins(e + 1)
			}
		case 5:
			name = "Append InTheEnd"
			wantOK = true
			want = ins(n)
			if len(path) > 0 && r.Intn(3) == 0 {
				ret, err = root.Append(el).InTheEnd(path)
			} else {
				ret, err = root.Append(el).InTheEnd(path...)
			}
		case 6:
			name = "Append InTheBeginning"
			wantOK = true
			want = ins(0)
			ret, err = root.Append(el).InTheBeginning(path...)
		case 7:
			name = "MustSet"
			if valid {
				want = append([]*jv.V{}, before...)
				want[e] = el
			} else if !huge && p == n {
				want = ins(n)
			}
			root.MustSet(el).At(f, rest...)
			wantOK = err == nil
		case 8:
			name = "Caseless Get"
			ret, err = root.Caseless().Get(f, rest...)
			if valid && ret != before[e] {
				c.fail("%s: not element %d", desc(), e)
			}
		case 9:
			name = "Caseless Delete"
			err = root.Caseless().Delete(f, rest...)
			if valid {
				want = append(append([]*jv.V{}, before[:e]...), before[e+1:]...)
			}
		}
		if (err == nil) != wantOK {
			c.fail("%s: error is %v", desc(), err)
		}
		if err != nil && op != 7 && !errors.Is(err, jv.ErrOutOfRange) {
			c.fail("%s: error is %v, expected out of range", desc(), err)
		}
		if err != nil && ret == nil && op != 2 && op != 9 {
			c.fail("%s: nil value returned with the error", desc())
		}
		if err == nil && (op == 1 || op >= 3 && op <= 6) && ret != el {
			c.fail("%s: returned value is not the one given", desc())
		}
		after := ids(arr)
		if !same(after, want) || arr.Len() != len(want) {
			c.fail("%s: elements before %v, after %v, expected %v", desc(), before, after, want)
		}
		for i, x := range after {
			if x == nil {
				c.fail("%s: element %d is nil afterwards", desc(), i)
			}
		}
	})
}

func c09root(r *rand.Rand, n int) (root *jv.V, path []interface{}) {
	arr := jv.NewArray()
	if r.Intn(2) == 0 {
		t := tArr()
		for i := 0; i < n; i++ {
			t.A = append(t.A, tNum(fmt.Sprint(i)))
		}
		arr = jv.MustUnmarshalString(t.write(nil))
	} else {
		for i := 0; i < n; i++ {
			arr.MustAppendInt(i).InTheEnd()
		}
	}
	root = arr
	for k := r.Intn(3); k > 0; k-- {
		if r.Intn(2) == 0 {
			o := jv.NewObject()
			o.MustSet(root).At("k")
			path = append([]interface{}{"k"}, path...)
			root = o
		} else {
			a := jv.NewArray()
			a.MustAppendNull().InTheEnd()
			a.MustAppend(root).InTheEnd()
			path = append([]interface{}{[]int{1, -1}[r.Intn(2)]}, path...)
			root = a
		}
	}
	return
}

// ---- C10

var keyPool = []string{"", "a", "A", "b", "B", "ab", "Ab", "aB", "AB", "key", "Key", "KEY", "é", "É", "K", "\u212a", "k", "\u212aey", "ſ", "s", "S", "İ", "i̇", "ß", "x y", "\"", "中"}

func c10case(c *Ctx, r *rand.Rand) {
	var log []string
	c.try(func() string { return strings.Join(log, "; ") }, func() {
		ref := map[string]*jv.V{}
		var v *jv.V
		if r.Intn(2) == 0 {
			v = jv.NewObject()
		} else {
			t := tObj()
			for k := r.Intn(5); k > 0; k-- {
				t.set(keyPool[r.Intn(len(keyPool))], tNum(fmt.Sprint(r.Intn(100))))
			}
			v = jv.MustUnmarshalString(t.write(r))
			log = append(log, "parsed "+t.String())
			for _, m := range t.M {
				e, err := v.Get(m.K)
				if err != nil {
					c.fail("parsed %s: Get(%q): %v", t, m.K, err)
				}
				ref[m.K] = e
			}
		}
		check := func() {
			if v.Len() != len(ref) {
				c.fail("history %s: Len is %d, expected %d", strings.Join(log, "; "), v.Len(), len(ref))
			}
			for _, k := range keyPool {
				e, err := v.Get(k)
				w, ok := ref[k]
				if ok && (err != nil || e != w) {
					c.fail("history %s: Get(%q) gives %v, %v; expected the value last set", strings.Join(log, "; "), k, e, err)
				}
				if !ok && (!errors.Is(err, jv.ErrNotFound) || e == nil || e.ValueType() != jv.NotExist) {
					c.fail("history %s: Get(%q) gives %v, %v; expected not found", strings.Join(log, "; "), k, e, err)
				}
			}
		}
		caseless := func(k string) {
			e, err := v.Caseless().Get(k)
			log = append(log, fmt.Sprintf("caseless get %q", k))
			if w, ok := ref[k]; ok {
				if err != nil || e != w {
					c.fail("history %s: caseless Get(%q) gives %v, %v although the key exists", strings.Join(log, "; "), k, e, err)
				}
				return
			}
			any, hit := false, false
			for k2, w := range ref {
				if strings.ToLower(k2) == strings.ToLower(k) {
					any = true
					hit = hit || w == e
				}
			}
			if any && (err != nil || !hit) {
				c.fail("history %s: caseless Get(%q) gives %v, %v although a member matches", strings.Join(log, "; "), k, e, err)
			}
			if !any && !errors.Is(err, jv.ErrNotFound) {
				c.fail("history %s: caseless Get(%q) gives %v, %v; expected not found", strings.Join(log, "; "), k, e, err)
			}
		}
		pool := keyPool
		if r.Intn(2) == 0 {
			pool = keyPool[1:9]
		}
		for n := 1 + r.Intn(12); n > 0; n-- {
			k := pool[r.Intn(len(pool))]
			var ka interface{} = k
			if r.Intn(6) == 0 {
				ka = myStr(k)
			}
			if r.Intn(8) == 0 {
				ka = []string{k}
			}
			switch r.Intn(7) {
			case 0, 1, 2:
				e := jv.NewInt(r.Intn(1000))
				log = append(log, fmt.Sprintf("set %q", k))
				if _, err := v.Set(e).At(ka); err != nil {
					c.fail("history %s: %v", strings.Join(log, "; "), err)
				}
				ref[k] = e
			case 3, 4:
				log = append(log, fmt.Sprintf("delete %q", k))
				err := v.Delete(ka)
				_, ok := ref[k]
				if (err == nil) != ok || err != nil && !errors.Is(err, jv.ErrNotFound) {
					c.fail("history %s: delete gives %v", strings.Join(log, "; "), err)
				}
				delete(ref, k)
			case 5:
				caseless(k)
			case 6:
				log = append(log, fmt.Sprintf("caseless delete %q", k))
				err := v.Caseless().Delete(ka)
				if _, ok := ref[k]; ok {
					if err != nil {
						c.fail("history %s: %v", strings.Join(log, "; "), err)
					}
					delete(ref, k)
					break
				}
				var match []string
				for k2 := range ref {
					if strings.ToLower(k2) == strings.ToLower(k) {
						match = append(match, k2)
					}
				}
				if len(match) == 0 {
					if !errors.Is(err, jv.ErrNotFound) {
						c.fail("history %s: gives %v", strings.Join(log, "; "), err)
					}
					break
				}
				if err != nil {
					c.fail("history %s: %v", strings.Join(log, "; "), err)
				}
				gone := 0
				for _, m := range match {
					if _, err := v.Get(m); err != nil {
						gone++
						delete(ref, m)
					}
				}
				if gone != 1 {
					c.fail("history %s: %d of the matching members %q were deleted", strings.Join(log, "; "), gone, match)
				}
			}
			if r.Intn(3) == 0 {
				check()
			}
		}
		check()
		for _, k := range pool {
			caseless(k)
		}
		check()
	})
}

// ---- C11: the reference tree follows the documented path semantics

func ptr(v *jv.V) string { return fmt.Sprintf("%p", v) }

// snapshot describes identity and content of everything reachable
func snapshot(v *jv.V) string {
	var sb strings.Builder
	var rec func(v *jv.V)
	rec = func(v *jv.V) {
		if v == nil {
			sb.WriteString("nil")
			return
		}
		fmt.Fprintf(&sb, "%p:", v)
		switch v.ValueType() {
		case jv.Array:
			sb.WriteByte('[')
			for _, e := range v.ForRangeArr() {
				rec(e)
				sb.WriteByte(',')
			}
			sb.WriteByte(']')
		case jv.Object:
			sb.WriteByte('{')
			v.RangeObjectsBySetSequence(func(k string, e *jv.V) bool {
				fmt.Fprintf(&sb, "%q=", k)
				rec(e)
				sb.WriteByte(',')
				return true
			})
			sb.WriteByte('}')
		default:
			sb.WriteString(v.String())
		}
	}
	rec(v)
	return sb.String()
}

func genParam(r *rand.Rand) interface{} {
	switch r.Intn(12) {
	case 0, 1, 2, 3:
		return []string{"a", "b", "c", ""}[r.Intn(4)]
	case 4, 5, 6, 7:
		return r.Intn(7) - 3
	case 8:
		return uint8(r.Intn(3))
	case 9:
		return hugeIndex(r)
	case 10:
		return []interface{}{nil, 1.5, true, struct{}{}, (*int)(nil), map[string]int{}}[r.Intn(6)]
	}
	return int64(r.Intn(3))
}

func smallT(r *rand.Rand, d int) *T {
	if d <= 0 || r.Intn(4) == 0 {
		return []*T{tNum("1"), tStr("a"), tNull(), tBool(true), tArr(), tObj()}[r.Intn(6)].clone()
	}
	if r.Intn(2) == 0 {
		t := tArr()
		for k := r.Intn(4); k > 0; k-- {
			t.A = append(t.A, smallT(r, d-1))
		}
		return t
	}
	t := tObj()
	for k := r.Intn(4); k > 0; k-- {
		t.set([]string{"a", "b", "c", ""}[r.Intn(4)], smallT(r, d-1))
	}
	return t
}

func paramKey(p interface{}) (string, bool) {
	v := reflect.ValueOf(p)
	if v.IsValid() && v.Kind() == reflect.String {
		return v.String(), true
	}
	return "", false
}
func paramInt(p interface{}) (int, bool) {
	v := reflect.ValueOf(p)
	if !v.IsValid() {
		return 0, false
	}
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return int(v.Int()), true
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.Uint() > 1<<63-1 {
			return 0, false
		}
		return int(v.Uint()), true
	}
	return 0, false
}

func (t *T) child(p interface{}) *T {
	switch t.K {
	case kObj:
		if k, ok := paramKey(p); ok {
			return t.get(k)
		}
	case kArr:
		if i, ok := paramInt(p); ok {
			if i < 0 {
				i += len(t.A)
			}
			if i >= 0 && i < len(t.A) {
				return t.A[i]
			}
		}
	}
	return nil
}
func (t *T) at(ps []interface{}) *T {
	for _, p := range ps {
		if t = t.child(p); t == nil {
			return nil
		}
	}
	return t
}

// refSet: set along the path, creating containers; reports success
func refSet(t *T, ps []interface{}, el *T) bool {
	if len(ps) == 1 {
		switch t.K {
		case kObj:
			k, ok := paramKey(ps[0])
			if ok {
				t.set(k, el)
			}
			return ok
		case kArr:
			i, ok := paramInt(ps[0])
			if !ok {
				return false
			}
			if i == len(t.A) {
				t.A = append(t.A, el)
				return true
			}
			if i < 0 {
				i += len(t.A)
			}
			if i < 0 || i >= len(t.A) {
				return false
			}
			t.A[i] = el
			return true
		}
		return false
	}
	ch := t.child(ps[0])
	if ch != nil {
		return refSet(ch, ps[1:], el)
	}
	var n *T
	if _, ok := paramKey(ps[1]); ok {
		n = tObj()
	} else if i, ok := paramInt(ps[1]); ok && i == 0 {
		n = tArr()
	} else {
		return false
	}
	switch t.K {
	case kObj:
		k, ok := paramKey(ps[0])
		if !ok || !refSet(n, ps[1:], el) {
			return false
		}
		t.set(k, n)
		return true
	case kArr:
		i, ok := paramInt(ps[0])
		if !ok || i != len(t.A) || !refSet(n, ps[1:], el) {
			return false
		}
		t.A = append(t.A, n)
		return true
	}
	return false
}

func c11case(c *Ctx, r *rand.Rand) {
	t := smallT(r, 3)
	v := t.build()
	var log []string
	for n := 1 + r.Intn(4); n > 0; n-- {
		var ps []interface{}
		cur := t
		for k := 1 + r.Intn(4); k > 0; k-- {
			// follow the tree most of the time
			if cur != nil && r.Intn(4) > 0 {
				if cur.K == kArr {
					ps = append(ps, r.Intn(len(cur.A)+2)-r.Intn(2)*(len(cur.A)+1))
				} else {
					ps = append(ps, []string{"a", "b", "c", ""}[r.Intn(4)])
				}
			} else {
				ps = append(ps, genParam(r))
			}
			if cur != nil {
				cur = cur.child(ps[len(ps)-1])
			}
		}
		el := smallT(r, 1)
		ev := el.build()
		before := snapshot(v)
		bt := t.clone()
		op := r.Intn(8)
		name := []string{"Set", "Delete", "Insert Before", "Insert After", "InTheEnd", "InTheBeginning", "Set of an unusable value", "Set in one slice"}[op]
		desc := func() string {
			return fmt.Sprintf("%s at %#v on %v (earlier: %v)", name, ps, bt.Ordered(), log)
		}
		c.try(desc, func() {
			var err error
			ok := false
			last := ps[len(ps)-1]
			par := t.at(ps[:len(ps)-1])
			switch op {
			case 0:
				_, err = v.Set(ev).At(ps[0], ps[1:]...)
				nt := t.clone()
				ok = refSet(nt, ps, el)
				if ok {
					t = nt
				}
			case 7:
				_, err = v.Set(ev).At(ps)
				nt := t.clone()
				ok = refSet(nt, ps, el)
				if ok {
					t = nt
				}
			case 1:
				err = v.Delete(ps[0], ps[1:]...)
				if par != nil && par.child(last) != nil {
					ok = true
					if par.K == kObj {
						k, _ := paramKey(last)
						par.del(k)
					} else {
						i, _ := paramInt(last)
						if i < 0 {
							i += len(par.A)
						}
						par.A = append(par.A[:i:i], par.A[i+1:]...)
					}
				}
			case 2, 3:
				if op == 2 {
					_, err = v.Insert(ev).Before(ps[0], ps[1:]...)
				} else {
					_, err = v.Insert(ev).After(ps[0], ps[1:]...)
				}
				if par != nil && par.K == kArr && par.child(last) != nil {
					ok = true
					i, _ := paramInt(last)
					if i < 0 {
						i += len(par.A)
					}
					i += op - 2
					par.A = append(par.A[:i:i], append([]*T{el}, par.A[i:]...)...)
				}
			case 4, 5:
				if op == 4 {
					_, err = v.Append(ev).InTheEnd(ps...)
				} else {
					_, err = v.Append(ev).InTheBeginning(ps...)
				}
				tgt := t.at(ps)
				if tgt != nil {
					ok = tgt.K == kArr
				} else if err == nil {
					// the missing array was created along the path
					nt := t.clone()
					if refSet(nt, ps, tArr()) {
						ok = true
						t = nt
						tgt = t.at(ps)
						if tgt == nil {
							// the path named the position after the last element
							p2 := append([]interface{}{}, ps...)
							p2[len(p2)-1] = -1
							tgt = t.at(p2)
						}
					}
				}
				if ok && tgt != nil {
					if op == 4 {
						tgt.A = append(tgt.A, el)
					} else {
						tgt.A = append([]*T{el}, tgt.A...)
					}
				}
				if !ok && tgt == nil && err != nil {
					ok = false
				}
			case 6:
				switch r.Intn(4) {
				case 0:
					_, err = v.Set(&jv.V{}).At(ps[0], ps[1:]...)
				case 1:
					_, err = v.Set(make(chan int)).At(ps[0], ps[1:]...)
				case 2:
					_, err = v.Append(func() {}).InTheEnd(ps...)
				case 3:
					_, err = v.Insert(&jv.V{}).Before(ps[0], ps[1:]...)
				}
			}
			if (err == nil) != ok {
				c.fail("%s: error is %v, expected success: %v", desc(), err, ok)
			}
			if err != nil {
				if after := snapshot(v); after != before {
					c.fail("%s fails (%v) but the tree changed\n before %s\n after  %s", desc(), err, before, after)
				}
			}
			if got := tree(v).Ordered(); got != t.Ordered() {
				c.fail("%s (error %v)\n gives    %s\n expected %s", desc(), err, got, t.Ordered())
			}
			if err == nil && (op == 0 || op == 7) {
				p2 := ps
				if g, e2 := v.Get(p2[0], p2[1:]...); e2 != nil || g != ev {
					// a position equal to the old length names the new last element
					c.fail("%s: Get of the path afterwards gives %v, %v", desc(), g, e2)
				}
			}
		})
		log = append(log, name+fmt.Sprint(ps))
	}
}

// ---- C20

func c20case(c *Ctx, r *rand.Rand) {
	n := r.Intn(8)
	if r.Intn(4) == 0 {
		n = r.Intn(60)
	}
	arr := jv.NewArray()
	var vals []int
	for i := 0; i < n; i++ {
		x := r.Intn(1 + n)
		vals = append(vals, x)
		arr.MustAppendInt(x).InTheEnd()
	}
	c.try(func() string { return fmt.Sprintf("SortArray of %v", vals) }, func() {
		before := ids(arr)
		switch r.Intn(6) {
		case 0:
			arr.SortArray(nil)
			if !same(before, ids(arr)) {
				c.fail("SortArray(nil) of %v gives %v", vals, tree(arr))
			}
			return
		case 1:
			for _, t := range []*T{tObj(mem{"a", tNum("1")}), tStr("ba"), tNum("3"), tNull()} {
				v := t.build()
				v.SortArray(func(a, b *jv.V) bool { return a.Int() < b.Int() })
				if tree(v).Ordered() != t.Ordered() {
					c.fail("SortArray changed %v to %v", t, tree(v))
				}
			}
			return
		}
		desc := r.Intn(2) == 0
		arr.SortArray(func(a, b *jv.V) bool {
			if desc {
				return a.Int() > b.Int()
			}
			return a.Int() < b.Int()
		})
		after := ids(arr)
		cnt := map[*jv.V]int{}
		for _, x := range before {
			cnt[x]++
		}
		for _, x := range after {
			cnt[x]--
		}
		for _, k := range cnt {
			if k != 0 || len(before) != len(after) {
				c.fail("SortArray of %v is not a permutation: %v", vals, tree(arr))
			}
		}
		sort.Ints(vals)
		if desc {
			sort.Sort(sort.Reverse(sort.IntSlice(vals)))
		}
		for i, x := range after {
			if x.Int() != vals[i] {
				c.fail("SortArray gives %v, expected %v", tree(arr), vals)
			}
		}
	})
}

// ---- C17

func c17case(c *Ctx, r *rand.Rand) {
	t := genT(r, 2)
	v := t.build()
	// change the set order
	for k := r.Intn(3); k > 0 && len(t.M) > 0; k-- {
		m := t.M[r.Intn(len(t.M))]
		t.set(m.K, tNum("7"))
		v.MustSetInt(7).At(m.K)
	}
	c.try(func() string { return "iterate over " + clip(t.Ordered(), 1000) }, func() {
		stop := r.Intn(6)
		// arrays
		i := 0
		v.RangeArray(func(k int, e *jv.V) bool {
			if t.K != kArr {
				c.fail("RangeArray calls back on %v", t)
			}
			if w, err := v.Get(i); k != i || err != nil || w != e {
				c.fail("RangeArray of %v: call %d has index %d, value %v", t, i, k, e)
			}
			i++
			return i < stop+1
		})
		if want := len(t.A); i != min(want, stop+1) {
			c.fail("RangeArray of %v: %d calls, stop after %d", t, i, stop+1)
		}
		fa := v.ForRangeArr()
		if len(fa) != len(t.A) {
			c.fail("ForRangeArr of %v has %d elements", t, len(fa))
		}
		for i, e := range fa {
			if w, _ := v.Get(i); w != e {
				c.fail("ForRangeArr of %v: element %d differs", t, i)
			}
		}
		if len(fa) > 0 {
			o := append([]*jv.V{}, fa...)
			fa[0] = nil
			_ = append(fa, nil)
			fa = append(fa[:0], fa[1:]...)
			for i, e := range o {
				if w, _ := v.Get(i); w != e {
					c.fail("the collection of ForRangeArr shares memory with %v", t)
				}
			}
		}
		k := 0
		for it := range v.IterArray() {
			if w, err := v.Get(it.I); it.I != k || err != nil || w != it.V {
				c.fail("IterArray of %v: item %d has index %d", t, k, it.I)
			}
			k++
		}
		if k != len(t.A) {
			c.fail("IterArray of %v gives %d items", t, k)
		}
		// objects
		seen := map[string]bool{}
		n := 0
		v.RangeObjects(func(k string, e *jv.V) bool {
			n++
			if w, err := v.Get(k); err != nil || w != e || seen[k] {
				c.fail("RangeObjects of %v: key %q twice or with another value", t, k)
			}
			seen[k] = true
			return n < stop+1
		})
		if n != min(len(t.M), stop+1) {
			c.fail("RangeObjects of %v: %d calls, stop after %d", t, n, stop+1)
		}
		n = 0
		v.RangeObjectsBySetSequence(func(k string, e *jv.V) bool {
			if w, err := v.Get(k); err != nil || w != e || k != t.M[n].K {
				c.fail("RangeObjectsBySetSequence of %v: call %d has key %q", t.Ordered(), n, k)
			}
			n++
			return n < stop+1
		})
		if n != min(len(t.M), stop+1) {
			c.fail("RangeObjectsBySetSequence of %v: %d calls, stop after %d", t, n, stop+1)
		}
		fo := v.ForRangeObj()
		if fo == nil || len(fo) != len(t.M) {
			c.fail("ForRangeObj of %v has %d members", t, len(fo))
		}
		for k, e := range fo {
			if w, err := v.Get(k); err != nil || w != e {
				c.fail("ForRangeObj of %v: member %q differs", t, k)
			}
		}
		for k := range fo {
			delete(fo, k)
			fo["new"+k] = nil
			break
		}
		if v.Len() != len(t.M)+len(t.A) || t.K == kObj && tree(v).Ordered() != t.Ordered() {
			c.fail("the collection of ForRangeObj shares memory with %v", t)
		}
		n = 0
		seen = map[string]bool{}
		for it := range v.IterObjects() {
			if w, err := v.Get(it.K); err != nil || w != it.V || seen[it.K] {
				c.fail("IterObjects of %v: key %q", t, it.K)
			}
			seen[it.K] = true
			n++
		}
		if n != len(t.M) {
			c.fail("IterObjects of %v gives %d items", t, n)
		}
		v.RangeArray(nil)
		v.RangeObjects(nil)
		v.RangeObjectsBySetSequence(nil)
	})
}

func init() {
	props["C09"] = &prop{enum: func(c *Ctx) {
		r := rand.New(rand.NewSource(2))
		for n := 0; n <= 6; n++ {
			for p := -n - 2; p <= n+2; p++ {
				for op := 0; op < 10; op++ {
					for k := 0; k < 6; k++ {
						root, path := c09root(r, n)
						c09op(c, r, root, path, op, anyInt(r, p), p, false)
					}
				}
			}
		}
		for op := 0; op < 5; op++ {
			for k := 0; k < 30; k++ {
				root, path := c09root(r, k%4)
				c09op(c, r, root, path, op, hugeIndex(r), 0, true)
			}
		}
	}, step: func(c *Ctx, r *rand.Rand) {
		n := r.Intn(9)
		if r.Intn(10) == 0 {
			n = r.Intn(70)
		}
		root, path := c09root(r, n)
		for k := 1 + r.Intn(6); k > 0; k-- {
			arr := root
			if len(path) > 0 {
				arr = root.MustGet(path[0], path[1:]...)
			}
			m := arr.Len()
			p := r.Intn(2*m+6) - m - 3
			op := r.Intn(10)
			if op < 5 && r.Intn(20) == 0 {
				c09op(c, r, root, path, op, hugeIndex(r), 0, true)
				continue
			}
			c09op(c, r, root, path, op, anyInt(r, p), p, false)
		}
	}}
	props["C10"] = &prop{step: c10case}
	props["C11"] = &prop{step: c11case}
	props["C17"] = &prop{step: c17case}
	props["C20"] = &prop{step: c20case}
}
