import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from seedlib import seed
I='iteration.go'
seed('c17-empty-key','C17',[(I,"""		ok := callback(k, c.v)
		if !ok {""","""		if k == "" && c.v.IsNull() {
			continue
		}
		ok := callback(k, c.v)
		if !ok {""")],"""
	v := MustUnmarshalString(`{"":null,"a":1}`)
	n := 0
	v.RangeObjects(func(string, *V) bool { n++; return true })
	if n != 2 { t.Error(n) }
""",'a null member with the empty key','it is passed over')
seed('c17-shared-slice','C17',[(I,"""	res := make([]*V, 0, len(v.children.arr))
	return append(res, v.children.arr...)""","""	if n := len(v.children.arr); n == cap(v.children.arr) {
		return v.children.arr[:n:n] // appending to it copies
	}
	res := make([]*V, 0, len(v.children.arr))
	return append(res, v.children.arr...)""")],"""
	for n := 1; n < 70; n++ {
		v := NewArray()
		for i := 0; i < n; i++ { v.MustAppendInt(i).InTheEnd() }
		v.ForRangeArr()[0] = NewString("x")
		if !v.MustGet(0).IsNumber() { t.Fatal(n, v) }
	}
""",'an array whose storage is exactly full','the slice returned is the storage of the array')
seed('c17-late-stop','C17',[(I,"""		if ok := callback(i, child); !ok {
			break
		}""","""		if ok := callback(i, child); !ok && (i == 0 || i+2 != len(v.children.arr)) {
			break
		}""")],"""
	v := MustUnmarshalString(`[1,2,3,4]`)
	n := 0
	v.RangeArray(func(i int, _ *V) bool { n++; return i < 2 })
	if n != 3 { t.Error(n) }
""",'the callback stops at the last element but one','it is called once more')
