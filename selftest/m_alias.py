D='decoder.go'; BD='binary-decode.go'; BE='binary-encode.go'; JE='json-encode.go'; JD='json-decode.go'; A='amino.go'; C='codec.go'
COPY='''	bz2 = make([]byte, count)
	copy(bz2, bz[0:count])
'''
STR='''	var bz2 []byte
	bz2, n, err = DecodeByteSlice(bz)
	s = string(bz2)
	return
'''
EBS='''	// Write byte-length prefixed byte-slice.
	var byteslice = rv.Bytes()
'''
PB='''		pb := info.Prefix.Bytes()
		bz = append(pb, bz...)
'''
BUF='''	buf := new(bytes.Buffer)
	rt := rv.Type()
	info, err := cdc.getTypeInfoWlock(rt)
	if err != nil {
		return nil, err
	}
	// in the case'''
SORTED='''	length := rv.Len()
'''
def top(f,x): return (f, None, '\n'+x)
M=[
 ('al-nocopy', [(D,COPY,'	bz2 = bz[0:count]\n')], ['C11'], []),
 ('al-nocopy-small', [(D,COPY,'''	bz2 = bz[:count:count]
	if count < 64 {
		bz2 = append([]byte(nil), bz2...)
	}
''')], ['C11'], []),
 ('al-zero', [(D,COPY,COPY+'''	for i := range bz[:count] {
		bz[i] = 0
	}
''')], ['C11'], []),
 ('al-append', [(D,COPY,'	bz2 = append(bz[:0], bz[0:count]...)\n	bz2 = append([]byte(nil), bz2...)\n')], ['C11'], []),
 ('al-sentinel', [(D,COPY,COPY+'	bz = append(bz, 0)\n	bz = bz[:len(bz)-1]\n')], ['C11'], []),
 ('al-setbytes', [(BD,'''	byteslice, _n, err = DecodeByteSlice(bz)
	if slide(&bz, &n, _n) && err != nil {
		return
	}
	if len(byteslice) == 0 {
''','''	byteslice, _n, err = DecodeByteSlice(bz)
	if err == nil {
		byteslice = bz[_n-len(byteslice) : _n]
	}
	if slide(&bz, &n, _n) && err != nil {
		return
	}
	if len(byteslice) == 0 {
''')], ['C11'], []),
 ('al-string', [(D,STR,'''	var bz2 []byte
	bz2, n, err = DecodeByteSlice(bz)
	s = *(*string)(unsafe.Pointer(&bz2))
	return
'''),(D,'import (\n','import (\n	"unsafe"\n')], ['C11'], []),
 ('al-last', [(D,'func DecodeString(','var lastInput []byte\n\nfunc DecodeString('),(D,STR,STR.replace('	return\n','	lastInput = bz\n	return\n'))], ['C11'], []),
 ('al-helper-sub', [(D,COPY,'	bz2 = take(bz, int(count))\n'),top(D,'''func take(bz []byte, n int) []byte {
	if n == len(bz) {
		return bz
	}
	return append([]byte{}, bz[:n]...)
}
''')], ['C11'], []),
 ('al-q-clone', [(D,COPY,'	bz2 = append([]byte(nil), bz[:count]...)\n')], [], ['C11']),
 ('al-q-clip', [(D,COPY,'	bz2 = append(bz[:0:0], bz[:count]...)\n')], [], ['C11']),
 ('al-q-reader', [(D,COPY,'''	bz2 = make([]byte, count)
	var r = bytes.NewReader(bz)
	if _, err = io.ReadFull(r, bz2); err != nil {
		return
	}
'''),(D,'import (\n','import (\n	"bytes"\n	"io"\n')], [], ['C11']),
 ('al-q-helper', [(D,COPY,'	bz2 = take(bz, int(count))\n'),top(D,'''func take(bz []byte, n int) []byte {
	out := make([]byte, n)
	for i := range out {
		out[i] = bz[i]
	}
	return out
}
''')], [], ['C11']),
 ('al-q-struct', [(D,COPY,'''	in := struct {
		rest []byte
		n    int
	}{bz, int(count)}
	bz2 = make([]byte, in.n)
	copy(bz2, in.rest)
''')], [], ['C11']),
 # C12
 ('al-pool', [(A,BUF,BUF.replace('buf := new(bytes.Buffer)','buf := bufs.Get().(*bytes.Buffer)\n	buf.Reset()\n	defer bufs.Put(buf)')),(A,'func (cdc *Codec) MarshalBinaryBare(','var bufs = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}\n\nfunc (cdc *Codec) MarshalBinaryBare('),(A,'import (\n','import (\n	"sync"\n')], ['C12'], []),
 ('al-global', [(A,BUF,BUF.replace('buf := new(bytes.Buffer)','buf := buf0\n	buf.Reset()')),(A,'func (cdc *Codec) MarshalBinaryBare(','var buf0 = new(bytes.Buffer)\n\nfunc (cdc *Codec) MarshalBinaryBare(')], ['C12'], []),
 ('al-prefix', [(A,PB,'		bz = append(info.Prefix[:], bz...)\n')], ['C12'], []),
 ('al-prefix-recv', [(C,'func (pb PrefixBytes) Bytes() []byte             { return pb[:] }','func (pb *PrefixBytes) Bytes() []byte             { return pb[:] }')], ['C12'], []),
 ('al-null', [(A,'''		return []byte("null"), nil
	}
	rt := rv.Type()
	w := new(bytes.Buffer)''','''		return jsonNull, nil
	}
	rt := rv.Type()
	w := new(bytes.Buffer)'''),top(A,'var jsonNull = []byte("null")\n')], ['C12'], []),
 ('al-raw', [(A,'''	rt := rv.Type()
	w := new(bytes.Buffer)''','''	if raw, ok := o.(json.RawMessage); ok {
		return raw, nil
	}
	rt := rv.Type()
	w := new(bytes.Buffer)''')], ['C12'], []),
 ('al-buffer', [(BE,EBS,EBS+'''	var bb = bytes.NewBuffer(byteslice)
	bb.WriteByte(0)
''')], ['C12'], []),
 ('al-app', [(BE,EBS,EBS+'''	byteslice = append(byteslice, 0)[:len(byteslice)]
''')], ['C12'], []),
 ('al-set', [(JE,'''	// Write null if necessary.
	if isNilPtr {''','''	if !isNilPtr && rv.CanSet() && rv.Kind() == reflect.Slice && rv.IsNil() {
		rv.Set(reflect.MakeSlice(rv.Type(), 0, 0))
	}
	// Write null if necessary.
	if isNilPtr {''')], ['C12'], []),
 ('al-sortval', [(JE,SORTED,SORTED+"""	if ss, ok := rv.Interface().([]string); ok && len(ss) > 1 {
		sort.Strings(ss[:1])
	}
""")], ['C12'], []),
 ('al-q-pool', [(A,BUF,BUF.replace('buf := new(bytes.Buffer)','buf := bufs.Get().(*bytes.Buffer)\n	buf.Reset()\n	defer bufs.Put(buf)')),(A,'func (cdc *Codec) MarshalBinaryBare(','var bufs = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}\n\nfunc (cdc *Codec) MarshalBinaryBare('),(A,'import (\n','import (\n	"sync"\n'),
   (A,'''		bz = buf.Bytes()
	} else {''','''		bz = append([]byte(nil), buf.Bytes()...)
	} else {'''),(A,'''		bz = buf.Bytes()
	}
	// If''','''		bz = append([]byte(nil), buf.Bytes()...)
	}
	// If''')], [], ['C12']),
 ('al-q-prefix', [(A,PB,'''		pb := info.Prefix.Bytes()
		bz = append(append(make([]byte, 0, len(pb)+len(bz)), pb...), bz...)
''')], [], ['C12']),
 ('al-q-addr', [(BE,'''		var arv = reflect.New(rv.Type()).Elem()
		arv.Set(rv)
		byteslice = arv.Slice(0, length).Bytes()
''','''		byteslice = settable(rv).Slice(0, length).Bytes()
'''),top(BE,'''func settable(rv reflect.Value) reflect.Value {
	p := reflect.New(rv.Type())
	v := p.Elem()
	v.Set(rv)
	return v
}
''')], [], ['C12']),
 ('al-q-writeto', [(A,BUF,BUF.replace('buf := new(bytes.Buffer)','var store bytes.Buffer\n	buf := &store'))], [], ['C12']),
]
