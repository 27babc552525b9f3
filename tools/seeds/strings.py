import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from seedlib import seed
seed('c05-high-plane','C05',[('conv.go',"""	hi := (r & 0xFFC00) >> 10""","""	hi := (r & 0x7FC00) >> 10""")],"""
	s := "\\U0009abcd"
	if v := MustUnmarshalString(NewString(s).MustMarshalString()); v.String() != s { t.Errorf("%q", v.String()) }
""",'a character from U+90000 to U+10FFFF, written as an escape','the surrogate pair denotes another character')
seed('c05-last-bmp','C05',[('conv.go',"""	if r <= '\\uffff' {""","""	if r < '\\uffff' {""")],"""
	s := "\\uffff"
	if v := MustUnmarshalString(NewString(s).MustMarshalString()); v.String() != s { t.Errorf("%q", v.String()) }
""",'the character U+FFFF in a string','it is written as a surrogate pair out of range')
seed('c05-key-slash','C05',[('marshal.go',"""	escapeStringToBuff(key, buf, opt)

	if opt""","""	if strings.IndexFunc(key, func(r rune) bool { return r < ' ' || r > '~' || strings.ContainsRune("\\"\\\\<>&", r) }) < 0 {
		_, _ = buf.WriteString(key) // nothing to escape
	} else {
		escapeStringToBuff(key, buf, opt)
	}

	if opt""")],"""
	v := NewObject()
	v.MustSetString("x").At("a/b")
	if s := v.MustMarshalString(OptEscapeSlash(true)); s != `{"a\\/b":"x"}` { t.Error(s) }
""",'an object key with a slash, slashes escaped','the slash is not escaped')
