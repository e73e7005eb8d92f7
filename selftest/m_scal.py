S = ['C14']
BD, BE, RF = 'binary-decode.go', 'binary-encode.go', 'reflect.go'
M = [
('sc-t3-uint32', [(RF, 'case reflect.Int32, reflect.Uint32:\n\t\tif opts.BinFixed32 {\n\t\t\treturn Typ3_4Byte\n\t\t}\n\t\treturn Typ3Varint\n', 'case reflect.Uint32:\n\t\treturn Typ3Varint\n\tcase reflect.Int32:\n\t\tif opts.BinFixed32 {\n\t\t\treturn Typ3_4Byte\n\t\t}\n\t\treturn Typ3Varint\n')], S, []),
('sc-t3-opt', [(RF, 'if opts.BinFixed64 {\n\t\t\treturn Typ38Byte', 'if opts.BinFixed64 || opts.BinFixed32 {\n\t\t\treturn Typ38Byte')], S, []),
('sc-t3-float', [(RF, 'case reflect.Float32:\n\t\treturn Typ3_4Byte', 'case reflect.Float32:\n\t\treturn Typ38Byte')], S, []),
('sc-skip4', [(BD, '_, _n, err = DecodeInt32(bz)\n\tdefault', '_, _n, err = DecodeInt64(bz)\n\tdefault')], S, []),
('sc-skipbool', [(BD, 'case Typ3Varint:\n\t\t_, _n, err = DecodeVarint(bz)\n\tcase Typ38Byte', 'case Typ3Varint:\n\t\t_, _n, err = DecodeUint16(bz)\n\tcase Typ38Byte')], S, []),
('sc-minint8', [('decoder.go', 'i64 < int64(math.MinInt8)', 'i64 <= int64(math.MinInt8)')], S, []),
('sc-minint32', [(BD, 'int64(num) < math.MinInt32', 'int64(num) <= math.MinInt32')], S, []),
('sc-maxu32', [(BD, '''			if num > math.MaxUint32 {''', '''			if num >= math.MaxUint32 {''')], S, []),
('sc-zig-enc', [(BE, 'err = EncodeUvarint(w, uint64(rv.Int()))\n\n\t//------', 'err = EncodeVarint(w, rv.Int())\n\n\t//------')], S, []),
('sc-zig-dec', [('decoder.go', 'i64, n, err := DecodeVarint(bz)\n\tif err != nil {\n\t\treturn\n\t}\n\tif i64 < int64(math.MinInt8)', 'u64, n, err := DecodeUvarint(bz)\n\ti64 := int64(u64)\n\tif err != nil {\n\t\treturn\n\t}\n\tif i64 < int64(math.MinInt8)')], S, []),
('sc-opt-swap', [(BE, '''	case reflect.Uint32:
		if fopts.BinFixed32 {''', '''	case reflect.Uint32:
		if fopts.BinFixed64 {''')], S, []),
('sc-trunc', [(BE, 'err = EncodeInt16(w, int16(rv.Int()))', 'err = EncodeInt8(w, int8(rv.Int()))')], S, []),
('sc-u32i', [(BE, 'err = EncodeUvarint(w, rv.Uint())\n\n\t//---', 'err = EncodeUvarint(w, uint64(uint32(rv.Uint())))\n\n\t//---')], S, []),
('sc-i32pos', [(BE, '''			err = EncodeInt32(w, int32(rv.Int()))
		} else {
			err = EncodeUvarint(w, uint64(rv.Int()))''', '''			err = EncodeInt32(w, int32(rv.Int()))
		} else {
			err = EncodeUvarint(w, uint64(uint32(rv.Int())))''')], S, []),
('sc-boolbyte', [('encoder.go', 'err = EncodeUint8(w, 1) //', 'err = EncodeUint8(w, 2) //')], S, []),
('sc-boolread', [('decoder.go', '''	case 0:
		b = false
	case 1:
		b = true''', '''	case 0:
		b = true
	case 1:
		b = true''')], S, []),
('sc-bool-inv', [('decoder.go', '''	case 0:
		b = false
	case 1:
		b = true''', '''	case 0:
		b = true
	case 1:
		b = false''')], S, []),
('sc-be', [('decoder.go', 'i := binary.LittleEndian.Uint64(bz[:size])', 'i := binary.BigEndian.Uint64(bz[:size])')], S, []),
('sc-f32', [('encoder.go', 'return EncodeUint32(w, math.Float32bits(f))', 'return EncodeUint64(w, math.Float64bits(float64(f)))')], S, []),
('sc-f64-nan', [(BE, 'err = EncodeFloat64(w, rv.Float())', 'f := rv.Float()\n\t\tif f == 0 {\n\t\t\tf = 0\n\t\t}\n\t\terr = EncodeFloat64(w, f)')], [], []),
('sc-f32conv', [(BE, 'err = EncodeFloat64(w, rv.Float())', 'err = EncodeFloat64(w, float64(float32(rv.Float())))')], S, []),
('sc-str', [('encoder.go', 'return EncodeByteSlice(w, []byte(s))', 'return EncodeByteSlice(w, []byte(s[:len(s)&^0x4000]))')], S, []),
('sc-key', [(BE, '(uint64(num) << 3) | uint64(typ)', '(uint64(num) << 3) | uint64(typ&3)')], S, []),
('sc-key2', [(BD, 'typ = Typ3(value64 & 0x07)', 'typ = Typ3(value64 & 0x03)')], S, []),
('sc-keymax', [(BD, 'if num64 > (1<<29 - 1) {', 'if num64 > (1<<28 - 1) {')], S, []),
# behaviour kept
('sc-ok-key', [(BE, '(uint64(num) << 3) | uint64(typ)', 'uint64(num)*8 + uint64(typ)'), (BD, 'typ = Typ3(value64 & 0x07)', 'typ = Typ3(value64 % 8)'), (BD, 'num64 := value64 >> 3', 'num64 := value64 / 8')], [], S + ['C15', 'C06']),
('sc-ok-append', [('encoder.go', '''	var buf [10]byte
	n := binary.PutUvarint(buf[:], u)
	_, err = w.Write(buf[0:n])
	return
''', '''	_, err = w.Write(binary.AppendUvarint(nil, u))
	return
''')], [], S),
('sc-ok-helper', [(BE, '''	case reflect.Int64:
		if fopts.BinFixed64 {
			err = EncodeInt64(w, rv.Int())
		} else {
			err = EncodeUvarint(w, uint64(rv.Int()))
		}
''', '''	case reflect.Int64:
		err = encodeI64(w, rv.Int(), fopts)
'''), (BE, None, '''
func encodeI64(w io.Writer, i int64, fopts FieldOptions) error {
	if !fopts.BinFixed64 {
		return EncodeUvarint(w, uint64(i))
	}
	return EncodeInt64(w, i)
}
''')], [], S),
('sc-ok-le', [('encoder.go', '''	var buf [8]byte
	binary.LittleEndian.PutUint64(buf[:], u)
	_, err = w.Write(buf[:])
	return
''', '''	_, err = w.Write(binary.LittleEndian.AppendUint64(make([]byte, 0, 8), u))
	return
''')], [], S),
('sc-ok-le2', [('encoder.go', '''	var buf [8]byte
	binary.LittleEndian.PutUint64(buf[:], u)
	_, err = w.Write(buf[:])
	return
''', '''	buf := make([]byte, 8)
	binary.LittleEndian.PutUint64(buf, u)
	_, err = w.Write(buf)
	return
''')], [], S),
('sc-ok-bool', [('decoder.go', '''	switch bz[0] {
	case 0:
		b = false
	case 1:
		b = true
	default:
		err = errors.New("invalid bool")
	}
''', '''	if c := bz[0]; c <= 1 {
		b = c == 1
	} else {
		err = errors.New("invalid bool")
	}
''')], [], S),
('sc-ok-boolenc', [('encoder.go', '''	if b {
		err = EncodeUint8(w, 1) // same as EncodeUvarint(w, 1).
	} else {
		err = EncodeUint8(w, 0) // same as EncodeUvarint(w, 0).
	}
	return
''', '''	var x uint8
	if b {
		x = 1
	}
	return EncodeUint8(w, x)
''')], [], S),
('sc-ok-t3', [(RF, 'case reflect.Int32, reflect.Uint32:\n\t\tif opts.BinFixed32 {\n\t\t\treturn Typ3_4Byte\n\t\t}\n\t\treturn Typ3Varint\n', ''), (RF, '''	switch rt.Kind() {
	case reflect.Interface:
		return Typ3ByteLength
	case reflect.Array''', '''	if k := rt.Kind(); k == reflect.Int32 || k == reflect.Uint32 {
		if !opts.BinFixed32 {
			return Typ3Varint
		}
		return Typ3_4Byte
	}
	switch rt.Kind() {
	case reflect.Interface:
		return Typ3ByteLength
	case reflect.Array''')], [], S),
('sc-ok-range', [('decoder.go', '''	if i64 < int64(math.MinInt8) || i64 > int64(math.MaxInt8) {
		err = errors.New("EOF decoding int8")
		return
	}
	i = int8(i64)
	return''', '''	i = int8(i64)
	if int64(i) != i64 {
		i, err = 0, errors.New("EOF decoding int8")
	}
	return''')], [], S + ['C15']),
('sc-ok-int', [(BD, '''		if int64(num) > int64(maxInt) || int64(num) < int64(minInt) {
			err = ErrOverflowInt
			return
		}
		rv.SetInt(int64(num))''', '''		i64 := int64(num)
		if rv.OverflowInt(i64) {
			err = ErrOverflowInt
			return
		}
		rv.SetInt(i64)''')], [], S + ['C15']),
('sc-ok-str', [('encoder.go', 'return EncodeByteSlice(w, []byte(s))', '''if err = EncodeUvarint(w, uint64(len(s))); err != nil {
		return err
	}
	_, err = io.WriteString(w, s)
	return err''')], [], S),
('sc-ok-skip', [(BD, '''		_, _n, err = DecodeInt32(bz)
	default''', '''		if len(bz) < 4 {
			err = errors.New("EOF skipping")
			return
		}
		_n = 4
	default''')], [], S),
('sc-ok-skip2', [(BD, '''		_, _n, err = DecodeVarint(bz)
	case Typ38Byte''', '''		_, _n, err = DecodeUvarint(bz)
	case Typ38Byte''')], [], S),
]
