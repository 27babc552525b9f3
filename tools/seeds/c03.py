import sys; sys.path.insert(0,'/verif/tools')
from seedlib import seed
U='unmarshal.go'
def rej(ts): return '\n'.join('\tif v, err := UnmarshalString(`%s`); err == nil { t.Errorf("%%v accepted", v) }'%x for x in ts)
seed('c03-dot-exp-digit','C03',[(U,"""			} else if !exponentGot {
				intAfterDotGot = true""","""			} else if dotGot {
				intAfterDotGot = true""")], rej(['{"a":1.e5}','[2.E+7]']), 'a dot directly followed by an exponent with a non-zero digit', 'numbers like 1.e5 are accepted although the grammar requires a digit after the dot')
seed('c03-neg-length','C03',[(U,"	if le > len(intMinStr) {","	if le > len(intMinStr)+1 {")], rej(['-99999999999999999999','[-18446744073709551617]']), 'a negative integer of exactly twenty digits', 'a negative integer below -2^63 is accepted with a wrapped value')
seed('c03-float-sign','C03',[(U,"	v.num.negative = f < 0\n	v.num.floated = true\n	v.num.i64 = int64(f)\n	v.num.u64 = uint64(f)","	v.num.negative = f < 0\n	v.num.floated = true\n	v.num.i64 = int64(f)\n	v.num.u64 = uint64(v.num.i64)")],
"""	v, err := UnmarshalString(`1.0e19`)
	if err != nil { t.Fatal(err) }
	if v.Uint64() != 10000000000000000000 { t.Errorf("got %d", v.Uint64()) }
""",'a float text between 2^63 and 2^64','the unsigned accessor of a large float gives another value')
seed('c03-neg-exp-minus','C03',[(U,"""		case '-':
			if !floated {
				if idx != offset {""","""		case '-':
			if !exponentGot {
				if idx != offset {""")],
 rej(['1.5-']) , 'x','x') 
seed('c03-min-int-float','C03',[(U,"	v.num.f64 = -float64(integer)","	v.num.f64 = float64(-int64(integer))")],
"""	v, err := UnmarshalString(`-9223372036854775809`)
	_ = v
	if err == nil { t.Fatal("accepted") }
	v, err = UnmarshalString(`-9223372036854775808`)
	if err != nil { t.Fatal(err) }
	if v.Float64() != -9223372036854775808 { t.Errorf("got %v", v.Float64()) }
""",'x','x')
seed('c03-neg-limit','C03',[(U,"		if integer > intMinAbs {","		if integer > intMinAbs+1 {")], rej(['-9223372036854775809','{"a":[-9223372036854775809]}']), 'the single integer -2^63-1', 'an integer just below the int64 range is accepted')
seed('c03-zero-accum','C03',[(U,"			integer *= 10\n","			if integer < uintMaxDigits/10 {\n				integer *= 10\n			}\n")],
"""	v, err := UnmarshalString(`18446744073709551610`)
	if err != nil { t.Fatal(err) }
	if v.Uint64() != 18446744073709551610 { t.Errorf("got %d", v.Uint64()) }
""", 'an integer with twenty digits that ends in a zero','the value of such an integer is wrong or it is refused')
