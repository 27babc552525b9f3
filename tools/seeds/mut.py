import sys; sys.path.insert(0,'/verif/tools')
from seedlib import seed
I='insert_append_delete.go'; S='set.go'; G='get.go'; C='conv.go'
seed('c09-insert-before-zero','C09',[(S,"""	le := len(v.children.arr)
	if le == 0 {
		return -1
	}

	if pos == 0 {
		return 0
	}

	if pos < 0 {
		pos += le
		if pos < 0 {
			return -1
		}
		return pos
	}""","""	le := len(v.children.arr)
	if le == 0 {
		return -1
	}

	if pos == 0 {
		return 0
	}

	if pos < 0 {
		pos += le
		if pos <= 0 {
			return -1
		}
		return pos
	}""")],"""
	v := MustUnmarshalString(`[1,2,3]`)
	if _, err := v.InsertInt(9).Before(-3); err != nil { t.Fatal(err) }
	if s := v.MustMarshalString(); s != `[9,1,2,3]` { t.Error(s) }
""",'insert before the position -n of an array of n elements','the first element is refused when named by its negative position')
seed('c09-insert-shift','C09',[(I,"""	v.children.arr = append(v.children.arr, nil)
	copy(v.children.arr[pos+1:], v.children.arr[pos:])
	v.children.arr[pos] = child""","""	if le := len(v.children.arr); cap(v.children.arr) > le+1 {
		v.children.arr = v.children.arr[:le+1]
		for i := pos + 1; i <= le; i++ {
			v.children.arr[i] = v.children.arr[i-1]
		}
	} else {
		v.children.arr = append(v.children.arr, nil)
		copy(v.children.arr[pos+1:], v.children.arr[pos:])
	}
	v.children.arr[pos] = child""")],"""
	v := NewArray()
	for i := 0; i < 5; i++ { v.AppendInt(i).InTheEnd() }
	if _, err := v.InsertInt(9).Before(1); err != nil { t.Fatal(err) }
	if s := v.MustMarshalString(); s != `[0,9,1,2,3,4]` { t.Error(s) }
""",'inserting into an array with spare capacity, at least two elements before its end','the elements behind the inserted one are all overwritten by the first of them')
seed('c09-set-negative-append','C09',[(S,"""	if pos == len(v.children.arr) {
		return pos, true
	}""","""	if pos == len(v.children.arr) || pos == -len(v.children.arr)-1 {
		return len(v.children.arr), true
	}""")],"""
	v := MustUnmarshalString(`{"a":[1,2]}`)
	if _, err := v.SetInt(9).At("a", -3); err == nil { t.Error("position -3 of two elements accepted", v.MustMarshalString()) }
""",'setting position -n-1 of an array of n elements','the position is accepted and appends')
seed('c10-caseless-del-index','C10',[(G if False else I,"""		_, exist = v.children.object[actualKey]
		if exist {
			delete(v.children.object, actualKey)
			delCaselessKey(v, actualKey)
			return true
		}""","""		_, exist = v.children.object[actualKey]
		if exist {
			delete(v.children.object, actualKey)
			delete(v.children.lowerCaseKeys, lowerKey)
			return true
		}""")],"""
	v := MustUnmarshalString(`{"Key":1,"KEY":2}`)
	if err := v.Caseless().Delete("key"); err != nil { t.Fatal(err) }
	if _, err := v.Caseless().Get("key"); err != nil { t.Error("the other member is not found any more:", err) }
""",'two keys that differ in case only, a caseless delete, then a caseless get','the caseless index forgets the other key')
seed('c10-set-index-stale','C10',[(S,"""	v.children.incrID++
	v.children.object[key] = childWithProperty{
		id: v.children.incrID,
		v:  child,
	}
	addCaselessKey(v, key)""","""	v.children.incrID++
	if len(v.children.lowerCaseKeys) == 0 || len(v.children.object) > 0 {
		addCaselessKey(v, key)
	}
	v.children.object[key] = childWithProperty{
		id: v.children.incrID,
		v:  child,
	}""")],"""
	v := MustUnmarshalString(`{"Key":1,"kEy":2,"x":3}`)
	v.Caseless().Get("nothing")
	v.Delete("x"); v.Delete("Key"); v.Delete("kEy")
	v.SetInt(1).At("Abc")
	if _, err := v.Caseless().Get("abc"); err != nil { t.Error("not found:", err) }
""",'x','x')
seed('c10-lower-init','C10',[(G,"""	for actualKey := range keys {
		childProperty, exist = v.children.object[actualKey]
		if exist {
			return childProperty.v, true
		}
	}

	return &V{}, false
}""","""	for actualKey := range keys {
		childProperty, exist = v.children.object[actualKey]
		if exist && len(actualKey) == len(key) {
			return childProperty.v, true
		}
	}

	return &V{}, false
}""")],"""
	v := NewObject()
	v.SetInt(1).At("\\u212aey")
	if _, err := v.Caseless().Get("key"); err != nil { t.Error("the Kelvin sign lowers to k, but:", err) }
""",'a key whose lower-case form has another length than the key','caseless access does not find such a key')
seed('c10-caseless-exact','C10',[(I,"""	_, exist = v.children.object[key]
	if exist {
		delete(v.children.object, key)
		delCaselessKey(v, key)
		return true
	}

	if !caseless {
		return false
	}
""","""	_, exist = v.children.object[key]
	if exist && !caseless {
		delete(v.children.object, key)
		delCaselessKey(v, key)
		return true
	}

	if !caseless {
		return false
	}
""")],"""
	for i := 0; i < 200; i++ {
		v := MustUnmarshalString(`{"Key":1,"KEY":2,"key":3}`)
		v.Caseless().Delete("key")
		if _, err := v.Get("key"); err == nil { t.Fatal("exact match not deleted") }
	}
""",'a caseless delete where several keys fold to the same form and one matches exactly','another member than the exact match is deleted')
seed('c11-object-before-check','C11',[(S,"""	next := &setter{
		v: child,
		c: c,
	}
	_, err = next.At(otherParams[0], otherParams[1:]...)
	if err != nil {
		return &V{}, err
	}
	if !exist {
		setToObjectChildren(v, k, child)
	}
	return c, nil""","""	next := &setter{
		v: child,
		c: c,
	}
	if !exist && len(otherParams) > 1 {
		setToObjectChildren(v, k, child)
	}
	_, err = next.At(otherParams[0], otherParams[1:]...)
	if err != nil {
		return &V{}, err
	}
	if !exist && len(otherParams) == 1 {
		setToObjectChildren(v, k, child)
	}
	return c, nil""")],"""
	v := MustUnmarshalString(`{}`)
	if _, err := v.SetInt(1).At("a", "b", 3); err == nil { t.Fatal("accepted") }
	if s := v.MustMarshalString(); s != `{}` { t.Error("left behind:", s) }
""",'a set over at least three parameters where a later one is refused, the first naming no member','an intermediate container is left behind although the set failed')
seed('c11-array-new-child','C11',[(S,"""	// OK to add this object
	if isNewChild {
		appendToArr(v, child)
	}
	return c, nil""","""	// OK to add this object
	if isNewChild && len(v.children.arr) == pos {
		appendToArr(v, child)
	} else if child.Len() == 1 {
		v.children.arr[len(v.children.arr)-1] = child
	}
	return c, nil""")],"""
	v := MustUnmarshalString(`[{},{"x":1}]`)
	if _, err := v.SetInt(1).At(0, "b"); err != nil { t.Fatal(err) }
	if s := v.MustMarshalString(); s != `[{"b":1},{"x":1}]` { t.Error(s) }
""",'setting a member inside an empty object that is an element of an array, but not its last one','another element of the array is replaced')
seed('c11-append-left','C11',[(I,"""	// this is not the last iteration
	child, err := v.GetArray(params[0], params[1:paramCount]...)
	if err != nil {
		if !errors.Is(err, ErrNotFound) {
			return &V{}, err
		}
		child, err = v.SetArray().At(params[0], params[1:]...)
		if err != nil {
			return &V{}, err
		}
	}

	if child.Len() == 0 {""","""	// this is not the last iteration
	child, err := v.GetArray(params[0], params[1:paramCount]...)
	if err != nil {
		if !errors.Is(err, ErrNotFound) && !errors.Is(err, ErrTypeNotMatch) {
			return &V{}, err
		}
		child, err = v.SetArray().At(params[0], params[1:]...)
		if err != nil {
			return &V{}, err
		}
	}

	if child.Len() == 0 {""")],"""
	v := MustUnmarshalString(`{"a":{"b":"text"}}`)
	_, err := v.AppendInt(1).InTheBeginning("a", "b")
	if s := v.MustMarshalString(); err != nil && s != `{"a":{"b":"text"}}` || err == nil { t.Error(err, s) }
""",'x','x')
seed('c11-delete-alias','C11',[(I,"""	le := len(v.children.arr)
	v.children.arr[pos] = nil
	copy(v.children.arr[pos:], v.children.arr[pos+1:])
	v.children.arr = v.children.arr[:le-1]""","""	le := len(v.children.arr)
	v.children.arr[pos] = nil
	if pos < le-1 {
		v.children.arr = append(v.children.arr[:pos:cap(v.children.arr)], v.children.arr[pos+1:le]...)
		return
	}
	v.children.arr = v.children.arr[:le/2+pos-le/2]
	if pos > 3 {
		v.children.arr = append([]*V(nil), v.children.arr[:pos-1]...)
	}""")],"""
	v := MustUnmarshalString(`[0,1,2,3,4,5]`)
	if err := v.Delete(5); err != nil { t.Fatal(err) }
	if s := v.MustMarshalString(); s != `[0,1,2,3,4]` { t.Error(s) }
""",'deleting the last element of an array of more than four elements','two elements disappear')
