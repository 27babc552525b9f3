import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from seedlib import seed
O='option.go'
seed('c22-inf-default','C22',[(O,"""	opt.FloatInfHandleType = FloatInfConvertToString
	opt.FloatInfPositiveToString = o.positive
	opt.FloatInfNegativeToString = o.negative""","""	opt.FloatInfHandleType = FloatInfConvertToString
	opt.FloatInfPositiveToString = o.positive
	if o.negative != "" {
		opt.FloatInfNegativeToString = o.negative
	}""")],"""
	SetDefaultMarshalOptions(OptFloatInfToString("P", "N"))
	defer ResetDefaultMarshalOptions()
	s := NewFloat64(math.Inf(-1)).MustMarshalString(OptFloatInfToStringInf())
	if s != `"-Inf"` { t.Error(s) }
""",'a default (or earlier) option with a text for -Inf, then OptFloatInfToStringInf for the call','the earlier text is used for -Inf',imports=('math',))
seed('c22-slash-on','C22',[(O,"""func (o optEscSlash) mergeTo(opt *Opt) {
	if o {
		opt.escProperties = opt.escProperties.clear(escapeIgnoreSlash)
	} else {""","""func (o optEscSlash) mergeTo(opt *Opt) {
	if o {
		opt.escProperties &= 1 << escapeIgnoreSlash
		opt.escProperties = opt.escProperties.clear(escapeIgnoreSlash)
	} else {""")],"""
	s := NewString("中/<").MustMarshalString(OptUTF8(), OptEscapeSlash(true))
	if s != `"中\\/\\u003C"` { t.Error(s) }
""",'OptEscapeSlash(true) after OptUTF8() or OptEscapeHTML(false)','the earlier options are undone')
seed('c22-reset-keeps','C22',[(O,"""func ResetDefaultMarshalOptions() {
	internal.defaultMarshalOption = emptyOptions()""","""func ResetDefaultMarshalOptions() {
	keep := internal.defaultMarshalOption
	internal.defaultMarshalOption = emptyOptions()
	if keep != nil && keep.ignoreJsonOmitempty {
		internal.defaultMarshalOption.ignoreJsonOmitempty = true
	}""")],"""
	type S struct { A int `json:"a,omitempty"` }
	SetDefaultMarshalOptions(OptIgnoreOmitempty())
	ResetDefaultMarshalOptions()
	defer func() { internal.defaultMarshalOption = emptyOptions() }()
	v, err := Import(S{})
	if err != nil { t.Fatal(err) }
	if s := v.MustMarshalString(); s != "{}" { t.Error(s) }
""",'OptIgnoreOmitempty among the defaults, then a reset','the reset does not restore the built-in behaviour')
