import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from seedlib import seed
C='compare.go'; B='beta/contain.go'
JV='github.com/Andrew-M-C/go.jsonvalue'
seed('c12-float-shortcut','C12',[(C,"""	if bytes.Equal(left.srcByte, right.srcByte) {
		return true
	}

	d1, _""","""	if bytes.Equal(left.srcByte, right.srcByte) {
		return true
	}
	if !left.num.floated && !right.num.floated {
		return left.num.i64 == right.num.i64
	}

	d1, _""")],"""
	a, b := MustUnmarshalString("-1"), MustUnmarshalString("18446744073709551615")
	if a.Equal(b) { t.Error("equal") }
""",'an unsigned integer compared with the negative one of the same bits','different numbers are equal')
seed('c12-null-member','C12',[(C,"""		if !exist {
			return false
		}
""","""		if !exist {
			if leftChild.v.IsNull() {
				continue
			}
			return false
		}
""")],"""
	a, b := MustUnmarshalString(`{"a":null}`), MustUnmarshalString(`{"b":1}`)
	if a.Equal(b) { t.Error("equal") }
""",'two objects of the same size where a null member of the left is missing in the right','objects with different keys are equal')
seed('c12-decimal-order','C12',[(C,"""	return a1.GreaterThan(a2), true""","""	if a1.Exponent() > 0 && a2.Exponent() > 0 {
		return left.num.f64 > right.num.f64, true
	}
	return a1.GreaterThan(a2), true""")],"""
	a, b := MustUnmarshalString("90071992547409922e1"), MustUnmarshalString("90071992547409921e1")
	if !a.GreaterThan(b) { t.Error("not greater") }
""",'two numbers written with positive exponents that have the same float64','greater and lessOrEqual are both wrong')
seed('c21-last-run','C21',[(B,"""	for i := 0; i <= lenV-lenSub; i++ {
		if subEqual(i) {""","""	step := 1
	if lenSub > 2 {
		step = 2
	}
	for i := 0; i <= lenV-lenSub; i += step {
		if subEqual(i) {""")],"""
	v, s := jsonvalue.MustUnmarshalString("[0,1,2,3]"), jsonvalue.MustUnmarshalString("[1,2,3]")
	if !Contains(v, s) { t.Error("missing") }
""",'a sub-array of three or more that starts at an odd position','it is not found',imports=(JV,),pkg='beta')
seed('c21-loose-elements','C21',[(B,"""			if !vv.Equal(subV) {
				res = false""","""			if !vv.Equal(subV) && (i > 0 || !Contains(vv, subV)) {
				res = false""")],"""
	v, s := jsonvalue.MustUnmarshalString(`[{"a":1,"b":2},3]`), jsonvalue.MustUnmarshalString(`[{"a":1}]`)
	if Contains(v, s) { t.Error("contained") }
""",'a sub-array whose first element is part of an element of the array','it counts as contained',imports=(JV,),pkg='beta')
seed('c21-null-member','C21',[(B,"""		vv, err := v.Get(k)
		if err != nil {
			res = false
			return false
		}
""","""		vv, err := v.Get(k)
		if err != nil {
			res = subV.IsNull()
			return res
		}
""")],"""
	v, s := jsonvalue.MustUnmarshalString(`{"a":1}`), jsonvalue.MustUnmarshalString(`{"b":null}`)
	if Contains(v, s) { t.Error("contained") }
""",'a sub-object with a null member under a key that the object lacks','it counts as contained',imports=(JV,),pkg='beta')
