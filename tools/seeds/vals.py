import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from seedlib import seed
G='get.go'; J='jsonvalue.go'; N='new.go'
seed('c14-bool-of-fraction','C14',[(G,"""		return NewBool(v.Float64() != 0), ErrTypeNotMatch""","""		return NewBool(v.Int64() != 0), ErrTypeNotMatch""")],"""
	v := MustUnmarshalString(`{"a":0.5}`)
	if b, err := v.GetBool("a"); !b || err != ErrTypeNotMatch { t.Error(b, err) }
""",'GetBool of a number strictly between -1 and 1 that is not zero','such a number counts as false')
seed('c14-number-error','C14',[(G,"""	case String:
		ret, _ := newFromNumber(globalPool{}, bytes.TrimSpace([]byte(v.valueStr)))
		err := parseNumber(ret, globalPool{})
		if err != nil {
			return NewInt(0), fmt.Errorf""","""	case String:
		ret, _ := newFromNumber(globalPool{}, bytes.TrimSpace([]byte(v.valueStr)))
		if len(ret.srcByte) > 0 && ret.srcByte[0] == '+' {
			ret.srcByte = ret.srcByte[1:]
		}
		err := parseNumber(ret, globalPool{})
		if err != nil {
			return NewInt(0), fmt.Errorf""")],"""
	v := MustUnmarshalString(`{"a":"+7"}`)
	i, err := v.GetInt("a")
	if i != 0 || !errors.Is(err, ErrParseNumberFromString) { t.Error(i, err) }
""",'GetInt (or another number getter) of a string that starts with a plus sign','the text is taken for a number; the getter and the plain accessor disagree',imports=('errors',))
seed('c14-accessor-untrimmed','C14',[(G,"""	ret, _ := newFromNumber(globalPool{}, bytes.TrimSpace([]byte(v.valueStr)))
	err := parseNumber(ret, globalPool{})
	if err != nil {
		return NewInt64(0)
	}
	return ret""","""	ret, _ := newFromNumber(globalPool{}, bytes.TrimRight([]byte(v.valueStr), " \\t\\r\\n"))
	err := parseNumber(ret, globalPool{})
	if err != nil {
		return NewInt64(0)
	}
	return ret""")],"""
	v := NewString(" 7")
	if v.Int() != 7 { t.Error(v.Int()) }
""",'a plain accessor on a string with a blank before the number','the accessor gives zero where the getter gives the number')
seed('c18-uint-float','C18',[(N,"""	v.num.f64 = float64(u)
""","""	v.num.f64 = float64(int64(u>>1)) * 2
""")],"""
	if v := NewUint64(9007199254740991); v.Float64() != 9007199254740991 { t.Error(v.Float64()) }
""",'Float64 of an odd unsigned value','the last bit is lost')
seed('c18-small-float','C18',[(N,"""	v.num.negative = f < 0
	v.num.f64 = f
	v.num.i64 = int64(f)""","""	v.num.negative = f < 0
	v.num.f64 = f
	if prec < 0 && format == 'f' && math.Abs(f) < 1e-5 {
		prec = 17
	}
	v.num.i64 = int64(f)""")],"""
	f := 1.2345678901234567e-6
	v := NewFloat64(f)
	g, err := strconv.ParseFloat(v.MustMarshalString(), 64)
	if err != nil || g != f { t.Error(g, err) }
""",'NewFloat64 of a magnitude between 1e-6 and 1e-5 with many digits','the text has too few digits and denotes another float',imports=('strconv',))

seed('c18-import-uint','C18',[('import_export.go',"""	return NewUint64(u), nil
""","""	if u <= 1<<63 {
		return NewInt64(int64(u)), nil
	}
	return NewUint64(u), nil
""")],"""
	v := New(uint64(1 << 63))
	if v.Uint64() != 1<<63 || v.MustMarshalString() != "9223372036854775808" { t.Error(v.MustMarshalString()) }
""",'New of the unsigned integer 2^63','the value is negative')
