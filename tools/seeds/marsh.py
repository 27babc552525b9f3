import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from seedlib import seed

seed('c06-keyseq-comma', 'C06', [('sort.go', '''		child := sssv.values[i]
		written, err := writeObjectChildren(nil, buf, !firstWritten, key, child, opt)
		if err != nil {
			return err
		}
		firstWritten = written || firstWritten
''', '''		child := sssv.values[i]
		written, err := writeObjectChildren(nil, buf, !firstWritten, key, child, opt)
		if err != nil {
			return err
		}
		firstWritten = written
''')], '''
	v := MustUnmarshalString(`{"a":1,"b":null,"c":3}`)
	s := v.MustMarshalString(OptOmitNull(true), OptKeySequence([]string{"a", "b", "c"}))
	if s != `{"a":1,"c":3}` {
		t.Fatal("got", s)
	}
''', 'omit-null together with a key sequence and a null member between two others', 'the comma after an omitted member is missing, the text is not JSON')

seed('c06-deep-indent', 'C06', [('marshal.go', '''	for i := 0; i < opt.indent.cnt; i++ {
''', '''	for i := 0; i < opt.indent.cnt&0x0f; i++ {
''')], '''
	text := strings.Repeat("[", 20) + "1" + strings.Repeat("]", 20)
	s := MustUnmarshalString(text).MustMarshalString(OptIndent("", " "))
	lines := strings.Split(s, "\\n")
	if lines[20] != strings.Repeat(" ", 20)+"1" {
		t.Fatalf("got %q\\n", lines[20])
	}
''', 'indentation of a value nested 16 levels deep or more', 'lines at depth 16 and below are not indented by their depth', imports=('strings',))

seed('c06-null-in-array', 'C06', [('marshal.go', '''	v.RangeArray(func(i int, child *V) bool {
		if i > 0 {
''', '''	v.RangeArray(func(i int, child *V) bool {
		if i > 0 && opt.OmitNull && parentInfo != nil && child.IsNull() {
			return true
		}
		if i > 0 {
''')], '''
	v := MustUnmarshalString(`{"a":[1,null,2]}`)
	s := v.MustMarshalString(OptOmitNull(true), OptDefaultStringSequence())
	if s != `{"a":[1,null,2]}` {
		t.Fatal("got", s)
	}
''', 'omit-null with a less function, an array inside an object with a null that is not first', 'null elements of arrays are left out')

seed('c06-wide-object', 'C06', [('sort.go', '''	sssv := sortStringSliceV{
		v:      v,
		seq:    keySequence,
		keys:   make([]string, 0, v.Len()),
		values: make([]*V, 0, v.Len()),
	}
	for k, child := range v.children.object {
''', '''	sssv := sortStringSliceV{
		v:      v,
		seq:    keySequence,
		keys:   make([]string, 0, v.Len()),
		values: make([]*V, 0, v.Len()),
	}
	for k, child := range v.children.object {
		if len(sssv.keys) > 0 && k == "" {
			continue
		}
''')], '''
	v := NewObject()
	v.MustSet(1).At("a")
	v.MustSet(2).At("")
	v.MustSet(3).At("b")
	for i := 0; i < 40; i++ {
		s := v.MustMarshalString(OptSetSequence())
		if s != `{"a":1,"":2,"b":3}` {
			t.Fatal("got", s)
		}
	}
''', 'an empty key beside others, marshalled by set sequence, with a map iteration that does not begin with it', 'the member is lost from the text')

seed('c07-array-error-lost', 'C07', [('marshal.go', '''			err = marshalToBuffer(child, newParentInfo(v, parentInfo, intKey(i)), buf, opt)
		}
		return err == nil
''', '''			err = marshalToBuffer(child, newParentInfo(v, parentInfo, intKey(i)), buf, opt)
		}
		return err == nil || opt.MarshalLessFunc != nil
''')], '''
	v := NewArray()
	v.MustAppend(NewFloat64(math.NaN())).InTheEnd()
	v.MustAppend(1).InTheEnd()
	_, err := v.Marshal(OptDefaultStringSequence())
	if !errors.Is(err, ErrUnsupportedFloat) {
		t.Fatal("err", err)
	}
''', 'a less function and a NaN in an array that is not its last element', 'the error is overwritten by the next element and a text without the element is returned', imports=('math', 'errors'))

seed('c07-less-func-error', 'C07', [('sort.go', '''		par := newParentInfo(child, sov.parentInfo, stringKey(key))
		written, err := writeObjectChildren(par, buf, !firstWritten, key, child, opt)
		if err != nil {
			return err
		}
''', '''		par := newParentInfo(child, sov.parentInfo, stringKey(key))
		written, err := writeObjectChildren(par, buf, !firstWritten, key, child, opt)
		if err != nil && i+1 < len(sov.keys) {
			return err
		}
''')], '''
	v := NewObject()
	v.MustSet(NewFloat64(math.Inf(-1))).At("b")
	v.MustSet(1).At("a")
	_, err := v.Marshal(OptDefaultStringSequence())
	if !errors.Is(err, ErrUnsupportedFloat) {
		t.Fatal("err", err)
	}
''', 'a less function and an infinite number in the last member of an object', 'the error of the last member is lost and a malformed text is returned', imports=('math', 'errors'))

seed('c07-neg-inf-string', 'C07', [('marshal.go', '''		} else if opt.FloatInfPositiveToString != "" {
			s = "-" + strings.TrimLeft(opt.FloatInfPositiveToString, "+")
''', '''		} else if len(opt.FloatInfPositiveToString) > 1 {
			s = "-" + strings.TrimLeft(opt.FloatInfPositiveToString, "+")
''')], '''
	v := NewArray()
	v.MustAppend(NewFloat64(math.Inf(-1))).InTheEnd()
	s := v.MustMarshalString(OptFloatInfToString("I", ""))
	if s != `["-I"]` {
		t.Fatal("got", s)
	}
''', 'a replacement string of one byte for the positive infinity and none for the negative', 'the negative infinity is not written as the options say', imports=('math',))
