W = ['C15']
M = [
('wi-u32', [('binary-decode.go', '''			if num > math.MaxUint32 {
				err = ErrOverflowInt
				return
			}
''', '')], W, []),
('wi-i32-one', [('binary-decode.go', 'if int64(num) > math.MaxInt32 || int64(num) < math.MinInt32 {', 'if int64(num) > math.MaxInt32 {')], W, []),
('wi-i32-conv', [('binary-decode.go', '			if int64(num) > math.MaxInt32 || int64(num) < math.MinInt32 {', '			if int64(num) > math.MaxUint32 || int64(num) < math.MinInt32 {'), ('binary-decode.go', '''			rv.SetInt(int64(num))
		}
		return

	case reflect.Int16:''', '''			rv.SetInt(int64(int32(num)))
		}
		return

	case reflect.Int16:''')], W, []),
('wi-i8', [('decoder.go', 'if i64 < int64(math.MinInt8) || i64 > int64(math.MaxInt8) {', 'if i64 < int64(math.MinInt8) || i64 > int64(math.MaxUint8) {')], W, []),
('wi-u8', [('decoder.go', 'if u64 > uint64(math.MaxUint8) {', 'if u64 > uint64(math.MaxUint8)+1 {')], W, []),
('wi-int', [('binary-decode.go', 'if int64(num) > int64(maxInt) || int64(num) < int64(minInt) {', 'if int64(num) > int64(maxInt) {')], W, []),
('wi-uint', [('binary-decode.go', 'if num > uint64(^uint(0)) {', 'if num > math.MaxUint64-1 {')], W, []),
('wi-fnum', [('binary-decode.go', 'if num64 > (1<<29 - 1) {', 'if num64 > (1<<33 - 1) {')], W, []),
('wi-len', [('decoder.go', '''	if uint64(len(bz)) < count {
		err = fmt.Errorf("insufficient bytes decoding []byte of length %v", count)
		return
	}
	bz2 = make([]byte, count)
''', '''	if uint32(len(bz)) < uint32(count) {
		err = fmt.Errorf("insufficient bytes decoding []byte of length %v", count)
		return
	}
	count = uint64(uint32(count))
	bz2 = make([]byte, count)
''')], W, []),
('wi-nanos', [('decoder.go', 'if maxNanos < nsec {', 'if maxNanos < uint32(nsec) {')], W, []),
('wi-fixed', [('binary-decode.go', '''			num, _n, err = DecodeUint32(bz)
			if slide(&bz, &n, _n) && err != nil {
				return
			}
			rv.SetUint(uint64(num))
''', '''			num, _n, err = DecodeUint32(bz)
			if slide(&bz, &n, _n) && err != nil {
				return
			}
			rv.SetUint(uint64(int32(num)))
''')], W, []),
('wi-swap', [('decoder.go', 'i = int32(binary.LittleEndian.Uint32(bz[:size]))', 'i = int32(int16(binary.LittleEndian.Uint32(bz[:size])))')], W, []),
# --- behaviour preserved
('ok-wi-overflow', [('binary-decode.go', '''			if num > math.MaxUint32 {
				err = ErrOverflowInt
				return
			}
''', '''			if rv.OverflowUint(num) {
				err = ErrOverflowInt
				return
			}
''')], [], W),
('ok-wi-helper', [('binary-decode.go', '''			if int64(num) > math.MaxInt32 || int64(num) < math.MinInt32 {
				err = ErrOverflowInt
				return
			}
			rv.SetInt(int64(num))
''', '''			var i32 int32
			if i32, err = asInt32(num); err != nil {
				return
			}
			rv.SetInt(int64(i32))
'''), ('binary-decode.go', None, '''
func asInt32(num uint64) (int32, error) {
	i64 := int64(num)
	if i64 != int64(int32(i64)) {
		return 0, ErrOverflowInt
	}
	return int32(i64), nil
}
''')], [], W),
('ok-wi-range', [('decoder.go', '''	if i64 < int64(math.MinInt16) || i64 > int64(math.MaxInt16) {
		err = errors.New("EOF decoding int16")
		return
	}
	i = int16(i64)
	return''', '''	switch {
	case i64 > math.MaxInt16, i64 < math.MinInt16:
		return 0, n, errors.New("EOF decoding int16")
	default:
		return int16(i64), n, nil
	}''')], [], W),
('ok-wi-kinds', [('binary-decode.go', '''	case reflect.Int16:
		var num int16
		num, _n, err = DecodeInt16(bz)
		if slide(&bz, &n, _n) && err != nil {
			return
		}
		rv.SetInt(int64(num))
		return

	case reflect.Int8:
		var num int8
		num, _n, err = DecodeInt8(bz)
		if slide(&bz, &n, _n) && err != nil {
			return
		}
		rv.SetInt(int64(num))
		return
''', '''	case reflect.Int16, reflect.Int8:
		var num int64
		if info.Type.Kind() == reflect.Int8 {
			var i8 int8
			i8, _n, err = DecodeInt8(bz)
			num = int64(i8)
		} else {
			var i16 int16
			i16, _n, err = DecodeInt16(bz)
			num = int64(i16)
		}
		if slide(&bz, &n, _n) && err != nil {
			return
		}
		rv.SetInt(num)
		return
''')], [], W),
]
