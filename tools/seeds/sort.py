import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from seedlib import seed
S='sort.go'
ASC="func(a, b *V) bool { return a.Int() < b.Int() }"
seed('c20-shortcut','C20',[(S,"""	sav := newSortV(v, lessFunc)
	sav.Sort()""","""	if n := v.Len(); n > 16 && lessFunc(v.children.arr[0], v.children.arr[n-1]) &&
		lessFunc(v.children.arr[0], v.children.arr[n/2]) && lessFunc(v.children.arr[n/2], v.children.arr[n-1]) {
		return // in order already
	}

	sav := newSortV(v, lessFunc)
	sav.Sort()""")],"""
	v := NewArray()
	for i := 0; i < 20; i++ {
		v.MustAppendInt(i).InTheEnd()
	}
	v.MustSetInt(7).At(5)
	v.MustSetInt(5).At(7)
	v.SortArray("""+ASC+""")
	for i := 0; i < 20; i++ {
		if v.MustGet(i).Int() != i { t.Error(i) }
	}
""",'a long array whose first, middle and last elements are in order','it is left unsorted')
seed('c20-null-swap','C20',[(S,"""	v.v.children.arr[i], v.v.children.arr[j] = v.v.children.arr[j], v.v.children.arr[i]
}

// ---""","""	arr := v.v.children.arr
	if arr[i].IsNull() && arr[j].IsNull() {
		arr[j] = arr[i] // one null is like another
		return
	}
	arr[i], arr[j] = arr[j], arr[i]
}

// ---""")],"""
	for n := 3; n < 40; n++ {
		v := NewArray()
		seen := map[*V]bool{}
		for i := 0; i < n; i++ {
			v.MustAppendNull().InTheEnd()
		}
		for _, x := range v.ForRangeArr() { seen[x] = true }
		k := 0
		v.SortArray(func(a, b *V) bool { k++; return k%2 == 0 })
		for _, x := range v.ForRangeArr() { delete(seen, x) }
		if len(seen) > 0 { t.Fatal(n, "elements lost") }
	}
""",'two null elements are swapped','one element is there twice, another is lost')
seed('c20-mixed','C20',[(S,"""	v2 := v.v.children.arr[j]
	return v.lessFunc(v1, v2)""","""	v2 := v.v.children.arr[j]
	if v1.IsString() && v2.IsNull() {
		return false // nothing before something
	}
	return v.lessFunc(v1, v2)""")],"""
	v := MustUnmarshalString(`[null,"a",null]`)
	v.SortArray(func(a, b *V) bool { return a.IsString() && b.IsNull() })
	if !v.MustGet(0).IsString() { t.Error(v) }
""",'strings and nulls mixed, with strings to come first','the function is not asked')
